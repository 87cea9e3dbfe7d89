package wl

import (
	"fmt"
	"math/big"

	"vharness/eng"
	"vharness/ref"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark/frontend"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
	"github.com/succinctlabs/gnark-plonky2-verifier/poseidon"
)

// GLPermJob: the Goldilocks permutation.
func GLPermJob(s [12]uint64, mask uint) Job {
	w := s
	ref.Permute(&w)
	return Job{Name: "permute", In: fmt.Sprint(s, mask), Want: Bs(w[:]...), Prog: func(api frontend.API) (o []frontend.Variable) {
		var in poseidon.GoldilocksState
		for i := range s {
			in[i] = In(s[i], mask>>uint(i)&1 == 1)
		}
		for _, v := range poseidon.NewGoldilocksChip(api).Poseidon(in) {
			o = append(o, v.Limb)
		}
		return
	}}
}

// GLHashJob: the sponge.
func GLHashJob(in []uint64, m int, mask uint64) Job {
	return Job{Name: fmt.Sprintf("hash_n_to_m_%d_%d", len(in), m), In: fmt.Sprint(in), Want: Bs(ref.HashNToM(in, m)...), Prog: func(api frontend.API) (o []frontend.Variable) {
		v := make([]gl.Variable, len(in))
		for i := range in {
			v[i] = In(in[i], mask>>uint(i%60)&1 == 1)
		}
		for _, x := range poseidon.NewGoldilocksChip(api).HashNToMNoPad(v, m) {
			o = append(o, x.Limb)
		}
		return
	}}
}

// GLNoPadJob: the hash of elements that may need reduction.
func GLNoPadJob(in []*big.Int) Job {
	r := make([]uint64, len(in))
	for i, x := range in {
		r[i] = new(big.Int).Mod(x, eng.P).Uint64()
	}
	h := ref.HashNoPad(r)
	return Job{Name: fmt.Sprintf("hash_no_pad_%d", len(in)), In: fmt.Sprint(in), Want: Bs(h[:]...), Prog: func(api frontend.API) (o []frontend.Variable) {
		v := make([]gl.Variable, len(in))
		for i := range in {
			v[i] = gl.NewVariable(eng.Var(in[i]))
		}
		c := poseidon.NewGoldilocksChip(api)
		hh := c.HashNoPad(v)
		for _, x := range c.ToVec(hh) {
			o = append(o, x.Limb)
		}
		return
	}}
}

// BN converts.
func BN(e *fr.Element) *big.Int { return e.BigInt(new(big.Int)) }

// BNWire makes a variable or constant.
func BNWire(e *fr.Element, constant bool) frontend.Variable {
	if constant {
		return BN(e)
	}
	return eng.Var(BN(e))
}

// BNPermJob: the BN254 permutation.
func BNPermJob(s [4]fr.Element, mask int) Job {
	w := s
	ref.BNPermute(&w)
	return Job{Name: "bn_permute", In: fmt.Sprint(s), Want: []*big.Int{BN(&w[0]), BN(&w[1]), BN(&w[2]), BN(&w[3])}, Prog: func(api frontend.API) []frontend.Variable {
		var in poseidon.BN254State
		for i := range in {
			in[i] = BNWire(&s[i], mask>>i&1 == 1)
		}
		o := poseidon.NewBN254Chip(api).Poseidon(in)
		return o[:]
	}}
}

// BNLeafJob: the hash of a leaf.
func BNLeafJob(in []fr.Element, noop bool, mask uint64) Job {
	name, w := fmt.Sprintf("bn_no_pad_%d", len(in)), ref.BNHashNoPad(in)
	if noop {
		name, w = fmt.Sprintf("bn_or_noop_%d", len(in)), ref.BNHashOrNoop(in)
	}
	return Job{Name: name, In: fmt.Sprint(in), Want: []*big.Int{BN(&w)}, Prog: func(api frontend.API) []frontend.Variable {
		v := make([]gl.Variable, len(in))
		for i := range in {
			v[i] = gl.NewVariable(BNWire(&in[i], mask>>uint(i%60)&1 == 1))
		}
		c := poseidon.NewBN254Chip(api)
		if noop {
			return []frontend.Variable{c.HashOrNoop(v)}
		}
		return []frontend.Variable{c.HashNoPad(v)}
	}}
}

// BNNodeJob: the hash of two nodes.
func BNNodeJob(l, r fr.Element) Job {
	w := ref.BNTwoToOne(l, r)
	return Job{Name: "bn_two_to_one", In: fmt.Sprint(l, r), Want: []*big.Int{BN(&w)}, Prog: func(api frontend.API) []frontend.Variable {
		return []frontend.Variable{poseidon.NewBN254Chip(api).TwoToOne(BNWire(&l, false), BNWire(&r, false))}
	}}
}

// BNVecJob: a hash as Goldilocks elements.
func BNVecJob(h fr.Element) Job {
	return Job{Name: "bn_to_vec", In: h.String(), Want: Bs(ref.BNToVec(h)...), Prog: func(api frontend.API) (o []frontend.Variable) {
		for _, v := range poseidon.NewBN254Chip(api).ToVec(BNWire(&h, false)) {
			o = append(o, v.Limb)
		}
		return
	}}
}
