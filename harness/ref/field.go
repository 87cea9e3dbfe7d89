// Package ref is an independent plain-Go model of the plonky2 verifier (with
// the Poseidon-BN254 hasher) that the checks use as their oracle. It shares no
// code with /repo: the Goldilocks field is implemented here on uint64, the
// Goldilocks Poseidon by its textbook definition (no "fast" partial rounds),
// the BN254 Poseidon with constants generated from the Grain LFSR.
package ref

import "math/bits"

// P is the Goldilocks modulus.
const P uint64 = 0xffffffff00000001

func Add(a, b uint64) uint64 {
	s, c := bits.Add64(a, b, 0)
	if c == 1 || s >= P {
		s -= P
	}
	return s
}

func Sub(a, b uint64) uint64 {
	d, c := bits.Sub64(a, b, 0)
	if c == 1 {
		d += P
	}
	return d
}

func Neg(a uint64) uint64 { return Sub(0, a) }

func Mul(a, b uint64) uint64 {
	hi, lo := bits.Mul64(a, b)
	_, r := bits.Div64(hi%P, lo, P)
	return r
}

func Exp(a uint64, e uint64) uint64 {
	r := uint64(1)
	for ; e != 0; e >>= 1 {
		if e&1 == 1 {
			r = Mul(r, a)
		}
		a = Mul(a, a)
	}
	return r
}

func Inv(a uint64) uint64 { return Exp(a, P-2) }

// Root returns the primitive 2^n-th root of unity plonky2 uses.
func Root(n int) uint64 {
	r := uint64(1753635133440165772)
	for i := 32; i > n; i-- {
		r = Mul(r, r)
	}
	return r
}

// Gen is the multiplicative generator (coset shift).
const Gen = 7

// Ext is the quadratic extension X^2 = 7.
type Ext [2]uint64

func E(a uint64) Ext { return Ext{a, 0} }

func (a Ext) Add(b Ext) Ext { return Ext{Add(a[0], b[0]), Add(a[1], b[1])} }
func (a Ext) Sub(b Ext) Ext { return Ext{Sub(a[0], b[0]), Sub(a[1], b[1])} }
func (a Ext) Neg() Ext      { return Ext{Neg(a[0]), Neg(a[1])} }
func (a Ext) Mul(b Ext) Ext {
	return Ext{
		Add(Mul(a[0], b[0]), Mul(7, Mul(a[1], b[1]))),
		Add(Mul(a[0], b[1]), Mul(a[1], b[0])),
	}
}
func (a Ext) Scale(s uint64) Ext { return Ext{Mul(a[0], s), Mul(a[1], s)} }
func (a Ext) IsZero() bool       { return a[0] == 0 && a[1] == 0 }
func (a Ext) Inv() Ext {
	n := Sub(Mul(a[0], a[0]), Mul(7, Mul(a[1], a[1])))
	i := Inv(n)
	return Ext{Mul(a[0], i), Neg(Mul(a[1], i))}
}
func (a Ext) Exp(e uint64) Ext {
	r := E(1)
	for ; e != 0; e >>= 1 {
		if e&1 == 1 {
			r = r.Mul(a)
		}
		a = a.Mul(a)
	}
	return r
}

// ReducePowers is sum_i terms[i] x^i.
func ReducePowers(terms []Ext, x Ext) Ext {
	s := Ext{}
	for i := len(terms) - 1; i >= 0; i-- {
		s = s.Mul(x).Add(terms[i])
	}
	return s
}

// Alg is Ext[Y]/(Y^2 - 7).
type Alg [2]Ext

func (a Alg) Add(b Alg) Alg { return Alg{a[0].Add(b[0]), a[1].Add(b[1])} }
func (a Alg) Sub(b Alg) Alg { return Alg{a[0].Sub(b[0]), a[1].Sub(b[1])} }
func (a Alg) Mul(b Alg) Alg {
	return Alg{
		a[0].Mul(b[0]).Add(a[1].Mul(b[1]).Scale(7)),
		a[0].Mul(b[1]).Add(a[1].Mul(b[0])),
	}
}
func (a Alg) Scale(s Ext) Alg { return Alg{a[0].Mul(s), a[1].Mul(s)} }
func A(a Ext) Alg             { return Alg{a, Ext{}} }

// PartialInterp continues a barycentric interpolation.
func PartialInterp(domain []uint64, values []Alg, weights []uint64, x Alg, eval, prod Alg) (Alg, Alg) {
	for i := range values {
		term := x.Sub(A(E(domain[i])))
		eval = eval.Mul(term).Add(values[i].Scale(E(weights[i])).Mul(prod))
		prod = prod.Mul(term)
	}
	return eval, prod
}

// BaryWeights of the subgroup of size 2^n.
func BaryWeights(n int) []uint64 {
	d := Subgroup(n)
	w := make([]uint64, len(d))
	for i := range d {
		p := uint64(1)
		for j := range d {
			if j != i {
				p = Mul(p, Sub(d[i], d[j]))
			}
		}
		w[i] = Inv(p)
	}
	return w
}

func Subgroup(n int) []uint64 {
	r := Root(n)
	d := make([]uint64, 1<<n)
	x := uint64(1)
	for i := range d {
		d[i] = x
		x = Mul(x, r)
	}
	return d
}

func RevBits(x, n int) int {
	if n == 0 {
		return 0
	}
	return int(bits.Reverse64(uint64(x)) >> (64 - n))
}

// NTT evaluates the coefficients (length a power of two) on shift*<w>.
func CosetEval(coeffs []uint64, logn int, shift uint64) []uint64 {
	n := 1 << logn
	a := make([]uint64, n)
	s := uint64(1)
	for i, c := range coeffs {
		a[i] = Mul(c, s)
		s = Mul(s, shift)
	}
	ntt(a, logn, Root(logn))
	return a
}

func ntt(a []uint64, logn int, w uint64) {
	n := 1 << logn
	for i := 0; i < n; i++ {
		j := RevBits(i, logn)
		if i < j {
			a[i], a[j] = a[j], a[i]
		}
	}
	for l := 1; l <= logn; l++ {
		m := 1 << l
		wm := Exp(w, uint64(n/m))
		for k := 0; k < n; k += m {
			t := uint64(1)
			for j := 0; j < m/2; j++ {
				u, v := a[k+j], Mul(t, a[k+j+m/2])
				a[k+j], a[k+j+m/2] = Add(u, v), Sub(u, v)
				t = Mul(t, wm)
			}
		}
	}
}

// CosetInterp inverts CosetEval.
func CosetInterp(vals []uint64, logn int, shift uint64) []uint64 {
	n := 1 << logn
	a := append([]uint64(nil), vals...)
	ntt(a, logn, Inv(Root(logn)))
	ni := Inv(uint64(n))
	si := Inv(shift)
	s := ni
	for i := range a {
		a[i] = Mul(a[i], s)
		s = Mul(s, si)
	}
	return a
}

func EvalBase(coeffs []uint64, x Ext) Ext {
	s := Ext{}
	for i := len(coeffs) - 1; i >= 0; i-- {
		s = s.Mul(x)
		s[0] = Add(s[0], coeffs[i])
	}
	return s
}
