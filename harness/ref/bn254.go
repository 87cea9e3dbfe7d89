package ref

import (
	"math/big"
	"sync"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
)

// Hash is a BN254 hash.
type Hash = fr.Element

var (
	bnRC  [64 * 4]fr.Element
	bnMDS [4][4]fr.Element
	bnGen sync.Once
)

// Grain LFSR of the Poseidon reference implementation (GF(p), x^5).
func grain() {
	const n, t, rf, rp = 254, 4, 8, 56
	var st [80]byte
	pos := 0
	put := func(v, w int) {
		for i := w - 1; i >= 0; i-- {
			st[pos] = byte(v >> i & 1)
			pos++
		}
	}
	put(1, 2) // prime field
	put(0, 4) // x^alpha
	put(n, 12)
	put(t, 12)
	put(rf, 10)
	put(rp, 10)
	for pos < 80 {
		st[pos] = 1
		pos++
	}
	step := func() byte {
		b := st[62] ^ st[51] ^ st[38] ^ st[23] ^ st[13] ^ st[0]
		copy(st[:79], st[1:])
		st[79] = b
		return b
	}
	for i := 0; i < 160; i++ {
		step()
	}
	bit := func() byte {
		for {
			a := step()
			b := step()
			if a == 1 {
				return b
			}
		}
	}
	mod := fr.Modulus()
	raw := func() *big.Int {
		x := new(big.Int)
		for i := 0; i < n; i++ {
			x.Lsh(x, 1)
			if bit() == 1 {
				x.SetBit(x, 0, 1)
			}
		}
		return x
	}
	for i := range bnRC {
		for {
			x := raw()
			if x.Cmp(mod) < 0 {
				bnRC[i].SetBigInt(x)
				break
			}
		}
	}
	// Cauchy matrix 1/(x_i + y_j)
	for {
		var xy [2 * t]fr.Element
		seen := map[string]bool{}
		for i := range xy {
			x := raw()
			xy[i].SetBigInt(x)
			seen[xy[i].String()] = true
		}
		if len(seen) != 2*t {
			continue
		}
		ok := true
		for i := 0; i < t; i++ {
			for j := 0; j < t; j++ {
				var s fr.Element
				s.Add(&xy[i], &xy[t+j])
				if s.IsZero() {
					ok = false
				}
				bnMDS[i][j].Inverse(&s)
			}
		}
		if ok {
			return
		}
	}
}

// BNPermute is Poseidon over BN254 with width 4, by its definition.
func BNPermute(s *[4]fr.Element) {
	bnGen.Do(grain)
	for r := 0; r < 64; r++ {
		for i := range s {
			s[i].Add(&s[i], &bnRC[4*r+i])
		}
		for i := range s {
			if i > 0 && r >= 4 && r < 60 {
				break
			}
			var q fr.Element
			q.Square(&s[i])
			q.Square(&q)
			s[i].Mul(&s[i], &q)
		}
		var o [4]fr.Element
		for i := range o {
			for j := range s {
				var m fr.Element
				m.Mul(&bnMDS[i][j], &s[j])
				o[i].Add(&o[i], &m)
			}
		}
		*s = o
	}
}

var two64 = func() (e fr.Element) {
	e.SetBigInt(new(big.Int).Lsh(big.NewInt(1), 64))
	return
}()

// pack is sum_k limbs[k] 2^(64 k). Limbs are integers below the BN254 modulus
// so that non-canonical Goldilocks encodings can be modelled.
func pack(l []fr.Element) (r fr.Element) {
	for k := len(l) - 1; k >= 0; k-- {
		r.Mul(&r, &two64)
		r.Add(&r, &l[k])
	}
	return
}

func BNHashNoPad(in []fr.Element) Hash {
	var s [4]fr.Element
	for i := 0; i < len(in); i += 9 {
		end := i + 9
		if end > len(in) {
			end = len(in)
		}
		blk := in[i:end]
		for j := 0; j*3 < len(blk); j++ {
			e := j*3 + 3
			if e > len(blk) {
				e = len(blk)
			}
			s[1+j] = pack(blk[j*3 : e])
		}
		BNPermute(&s)
	}
	return s[0]
}

func BNHashOrNoop(in []fr.Element) Hash {
	if len(in) <= 3 {
		return pack(in)
	}
	return BNHashNoPad(in)
}

func BNTwoToOne(l, r Hash) Hash {
	s := [4]fr.Element{{}, {}, l, r}
	BNPermute(&s)
	return s[0]
}

// BNToVec splits a hash into 56-bit chunks, little endian.
func BNToVec(h Hash) []uint64 {
	x := h.BigInt(new(big.Int))
	m := new(big.Int).SetUint64(1<<56 - 1)
	out := make([]uint64, 5)
	for i := range out {
		out[i] = new(big.Int).And(new(big.Int).Rsh(x, uint(56*i)), m).Uint64()
	}
	return out
}

func Limbs(in []uint64) []fr.Element {
	o := make([]fr.Element, len(in))
	for i, x := range in {
		o[i].SetUint64(x)
	}
	return o
}
