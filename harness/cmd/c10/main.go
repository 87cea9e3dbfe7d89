// C10: Poseidon over BN254, packing and unpacking of Goldilocks elements.
package main

import (
	"fmt"
	"math/big"

	"vharness/chk"
	"vharness/eng"
	"vharness/ref"
	"vharness/wl"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark/frontend"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
	"github.com/succinctlabs/gnark-plonky2-verifier/poseidon"
)

func main() {
	chk.Main(chk.Opt{ID: "C10", Level: "exploration",
		Rule:        "one evaluation = one execution of the real BN254 permutation, leaf hash, node hash or hash-to-elements conversion compared with the reference (constants regenerated from the Grain LFSR), or one in which a dishonest prover answered the bit decomposition; distinct = operation x input length x mode x dishonest answer",
		Assumptions: []string{"the reference permutation is the naive (not optimised) round structure with constants generated by the Poseidon specification's Grain LFSR"},
		Need:        []string{"honest:native:bn_permute", "honest:native:bn_no_pad", "honest:native:bn_or_noop", "honest:native:bn_two_to_one", "honest:bits:bn_to_vec", "attack:bits:bn_to_vec", "distinct:"}}, run)
}

var bg, wire, permJob, leafJob, nodeJob, vecJob = wl.BN, wl.BNWire, wl.BNPermJob, wl.BNLeafJob, wl.BNNodeJob, wl.BNVecJob

func elem(t *chk.T) (e fr.Element) {
	switch t.R.Intn(6) {
	case 0:
		e.SetUint64(wl.Pick(t.R))
	case 1:
		x := new(big.Int).Lsh(big.NewInt(1), uint(t.R.Intn(254)))
		x.Add(x, big.NewInt(int64(t.R.Intn(3)-1)))
		e.SetBigInt(x)
	case 2:
		e.SetBigInt(new(big.Int).Sub(eng.R, big.NewInt(int64(1+t.R.Intn(4)))))
	default:
		e.SetBigInt(new(big.Int).Rand(t.R, eng.R))
	}
	return
}

func run(c *chk.Check) {
	n, maxLen := 200, 120
	if c.Thorough {
		n, maxLen = 20000, 400
	}
	for ch := 0; ch < 8; ch++ {
		c.Case(fmt.Sprintf("permute/%d", ch), func(t *chk.T) {
			for k := 0; k < n; k++ {
				var s [4]fr.Element
				for i := range s {
					s[i] = elem(t)
					if k < 16 && k>>i&1 == 0 {
						s[i] = fr.Element{}
					}
				}
				wl.Honest(t, wl.Modes[k%2], permJob(s, t.R.Intn(16)))
				wl.Honest(t, wl.Modes[k%2], nodeJob(s[0], s[1]))
			}
		})
		c.Case(fmt.Sprintf("vec/%d", ch), func(t *chk.T) {
			for k := 0; k < n; k++ {
				h := elem(t)
				if ch == 0 && k < 254 {
					h.SetBigInt(new(big.Int).Lsh(big.NewInt(1), uint(k)))
				}
				wl.Honest(t, "native", vecJob(h))
				if k%4 == 0 {
					wl.Honest(t, "bits", vecJob(h))
				}
				if k%10 == 0 {
					// small values have a second 254 bit representation
					var s fr.Element
					s.SetBigInt(new(big.Int).Rand(t.R, new(big.Int).Lsh(big.NewInt(1), uint(1+t.R.Intn(251)))))
					wl.Attack(t, "bits", vecJob(s), 3)
					wl.Attack(t, "bits", vecJob(h), 3)
				}
			}
		})
	}
	for l := 0; l <= maxLen; l++ {
		c.Case(fmt.Sprintf("leaf/%d", l), func(t *chk.T) {
			reps := 6
			if l < 40 {
				reps = 12
			}
			for k := 0; k < reps; k++ {
				in := make([]fr.Element, l)
				for i := range in {
					in[i].SetUint64(wl.Pick(t.R))
					if k%4 == 3 && t.R.Intn(4) == 0 {
						// non-canonical but still a 64 bit limb
						in[i].SetUint64(0xffffffff00000001 + uint64(t.R.Uint32())%0xffffffff)
					}
				}
				mask := uint64(0)
				if k%3 == 1 {
					mask = t.R.Uint64()
				}
				wl.Honest(t, "native", leafJob(in, false, mask))
				wl.Honest(t, "native", leafJob(in, true, mask))
				if k == 0 {
					wl.Honest(t, "bits", leafJob(in, true, mask))
				}
			}
		})
	}
	// distinct canonical inputs of the same length never collide
	for l := 1; l <= 30; l++ {
		c.Case(fmt.Sprintf("distinct/%d", l), func(t *chk.T) {
			in := make([]fr.Element, l)
			for i := range in {
				in[i].SetUint64(wl.Pick(t.R))
			}
			seen := map[string]string{}
			e := eng.NewNative()
			e.Run(func(api frontend.API) error {
				ch := poseidon.NewBN254Chip(api)
				try := func(what string, x []fr.Element) {
					v := make([]gl.Variable, len(x))
					for i := range x {
						v[i] = gl.NewVariable(wire(&x[i], false))
					}
					h := e.Get(ch.HashOrNoop(v)).String()
					if o, ok := seen[h]; ok {
						t.Fail("leaf hash collision: %s and %s of %v", o, what, in)
					}
					seen[h] = what
					t.OK(fmt.Sprintf("distinct:%d", l))
				}
				try("original", in)
				for i := range in {
					for _, d := range []uint64{1, ref.P - 1, 1 << 32} {
						y := append([]fr.Element(nil), in...)
						y[i].SetUint64(ref.Add(in[i].Uint64(), d))
						try(fmt.Sprintf("changed %d by %d", i, d), y)
					}
					for k := i + 1; k < len(in); k++ {
						if in[i] != in[k] {
							y := append([]fr.Element(nil), in...)
							y[i], y[k] = y[k], y[i]
							try(fmt.Sprintf("swapped %d %d", i, k), y)
						}
					}
				}
				return nil
			})
		})
	}
	// the hash-to-elements conversion is injective and its elements canonical
	c.Case("vec/injective", func(t *chk.T) {
		for k := 0; k < n; k++ {
			h := elem(t)
			b := t.R.Intn(253)
			g := new(big.Int).Xor(bg(&h), new(big.Int).Lsh(big.NewInt(1), uint(b)))
			if g.Cmp(eng.R) >= 0 {
				continue
			}
			e := eng.NewNative()
			e.Run(func(api frontend.API) error {
				ch := poseidon.NewBN254Chip(api)
				x, y := ch.ToVec(wire(&h, false)), ch.ToVec(eng.Var(g))
				same := len(x) == len(y)
				for i := range x {
					if e.Get(x[i].Limb).Cmp(eng.P) >= 0 {
						t.Fail("hash %v gives a non-canonical element", h)
					}
					if same && e.Get(x[i].Limb).Cmp(e.Get(y[i].Limb)) != 0 {
						same = false
					}
				}
				if same {
					t.Fail("hashes %v and %v give the same elements", bg(&h), g)
				}
				t.OK("distinct:vec")
				return nil
			})
		}
	})
}
