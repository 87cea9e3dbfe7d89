package ref

import (
	"fmt"
	"math/rand"
	"strings"
)

// Gate is the reference model of a plonky2 gate.
type Gate interface {
	ID() string
	NumWires() int
	NumConsts() int
	NumConstraints() int
	Degree() int
	Eval(consts, wires []Ext, pih [4]uint64) []Ext
	// Fill sets a satisfying row.
	Fill(rng *rand.Rand, consts, wires []uint64, pih [4]uint64)
}

// Rnd returns a field element with a bias to boundary values.
func Rnd(r *rand.Rand) uint64 {
	switch r.Intn(12) {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return P - 1
	case 3:
		return uint64(r.Intn(16))
	case 4:
		return P - 1 - uint64(r.Intn(16))
	case 5:
		return (1 << 32) - 2 + uint64(r.Intn(5))
	}
	return r.Uint64() % P
}

func RndExt(r *rand.Rand) Ext { return Ext{Rnd(r), Rnd(r)} }

func alg(w []Ext, i int) Alg        { return Alg{w[i], w[i+1]} }
func balg(w []uint64, i int) Ext    { return Ext{w[i], w[i+1]} }
func setb(w []uint64, i int, v Ext) { w[i], w[i+1] = v[0], v[1] }
func fill(r *rand.Rand, w []uint64) {
	for i := range w {
		w[i] = Rnd(r)
	}
}

type ArithmeticGate struct{ Ops int }

func (g ArithmeticGate) ID() string          { return fmt.Sprintf("ArithmeticGate { num_ops: %d }", g.Ops) }
func (g ArithmeticGate) NumWires() int       { return 4 * g.Ops }
func (g ArithmeticGate) NumConsts() int      { return 2 }
func (g ArithmeticGate) NumConstraints() int { return g.Ops }
func (g ArithmeticGate) Degree() int         { return 3 }
func (g ArithmeticGate) Eval(c, w []Ext, _ [4]uint64) (o []Ext) {
	for i := 0; i < g.Ops; i++ {
		o = append(o, w[4*i+3].Sub(w[4*i].Mul(w[4*i+1]).Mul(c[0]).Add(w[4*i+2].Mul(c[1]))))
	}
	return
}
func (g ArithmeticGate) Fill(r *rand.Rand, c, w []uint64, _ [4]uint64) {
	fill(r, w)
	for i := 0; i < g.Ops; i++ {
		w[4*i+3] = Add(Mul(Mul(w[4*i], w[4*i+1]), c[0]), Mul(w[4*i+2], c[1]))
	}
}

type ArithmeticExtGate struct{ Ops int }

func (g ArithmeticExtGate) ID() string {
	return fmt.Sprintf("ArithmeticExtensionGate { num_ops: %d }", g.Ops)
}
func (g ArithmeticExtGate) NumWires() int       { return 8 * g.Ops }
func (g ArithmeticExtGate) NumConsts() int      { return 2 }
func (g ArithmeticExtGate) NumConstraints() int { return 2 * g.Ops }
func (g ArithmeticExtGate) Degree() int         { return 3 }
func (g ArithmeticExtGate) Eval(c, w []Ext, _ [4]uint64) (o []Ext) {
	for i := 0; i < g.Ops; i++ {
		m := alg(w, 8*i).Mul(alg(w, 8*i+2)).Scale(c[0]).Add(alg(w, 8*i+4).Scale(c[1]))
		d := alg(w, 8*i+6).Sub(m)
		o = append(o, d[0], d[1])
	}
	return
}
func (g ArithmeticExtGate) Fill(r *rand.Rand, c, w []uint64, _ [4]uint64) {
	fill(r, w)
	for i := 0; i < g.Ops; i++ {
		setb(w, 8*i+6, balg(w, 8*i).Mul(balg(w, 8*i+2)).Scale(c[0]).Add(balg(w, 8*i+4).Scale(c[1])))
	}
}

type MulExtGate struct{ Ops int }

func (g MulExtGate) ID() string          { return fmt.Sprintf("MulExtensionGate { num_ops: %d }", g.Ops) }
func (g MulExtGate) NumWires() int       { return 6 * g.Ops }
func (g MulExtGate) NumConsts() int      { return 1 }
func (g MulExtGate) NumConstraints() int { return 2 * g.Ops }
func (g MulExtGate) Degree() int         { return 3 }
func (g MulExtGate) Eval(c, w []Ext, _ [4]uint64) (o []Ext) {
	for i := 0; i < g.Ops; i++ {
		d := alg(w, 6*i+4).Sub(alg(w, 6*i).Mul(alg(w, 6*i+2)).Scale(c[0]))
		o = append(o, d[0], d[1])
	}
	return
}
func (g MulExtGate) Fill(r *rand.Rand, c, w []uint64, _ [4]uint64) {
	fill(r, w)
	for i := 0; i < g.Ops; i++ {
		setb(w, 6*i+4, balg(w, 6*i).Mul(balg(w, 6*i+2)).Scale(c[0]))
	}
}

type BaseSumGate struct{ Limbs, Base int }

func (g BaseSumGate) ID() string {
	return fmt.Sprintf("BaseSumGate { num_limbs: %d } + Base: %d", g.Limbs, g.Base)
}
func (g BaseSumGate) NumWires() int       { return 1 + g.Limbs }
func (g BaseSumGate) NumConsts() int      { return 0 }
func (g BaseSumGate) NumConstraints() int { return 1 + g.Limbs }
func (g BaseSumGate) Degree() int         { return g.Base }
func (g BaseSumGate) Eval(c, w []Ext, _ [4]uint64) (o []Ext) {
	o = append(o, ReducePowers(w[1:1+g.Limbs], E(uint64(g.Base))).Sub(w[0]))
	for i := 0; i < g.Limbs; i++ {
		a := E(1)
		for b := 0; b < g.Base; b++ {
			a = a.Mul(w[1+i].Sub(E(uint64(b))))
		}
		o = append(o, a)
	}
	return
}
func (g BaseSumGate) Fill(r *rand.Rand, c, w []uint64, _ [4]uint64) {
	fill(r, w)
	s := uint64(0)
	for i := g.Limbs - 1; i >= 0; i-- {
		w[1+i] = uint64(r.Intn(g.Base))
		s = Add(Mul(s, uint64(g.Base)), w[1+i])
	}
	w[0] = s
}

type ConstantGate struct{ N int }

func (g ConstantGate) ID() string          { return fmt.Sprintf("ConstantGate { num_consts: %d }", g.N) }
func (g ConstantGate) NumWires() int       { return g.N }
func (g ConstantGate) NumConsts() int      { return g.N }
func (g ConstantGate) NumConstraints() int { return g.N }
func (g ConstantGate) Degree() int         { return 1 }
func (g ConstantGate) Eval(c, w []Ext, _ [4]uint64) (o []Ext) {
	for i := 0; i < g.N; i++ {
		o = append(o, c[i].Sub(w[i]))
	}
	return
}
func (g ConstantGate) Fill(r *rand.Rand, c, w []uint64, _ [4]uint64) {
	fill(r, w)
	copy(w[:g.N], c[:g.N])
}

type CosetInterpGate struct {
	Bits, Deg int
}

func (g CosetInterpGate) ID() string {
	w := BaryWeights(g.Bits)
	s := make([]string, len(w))
	for i := range w {
		s[i] = fmt.Sprint(w[i])
	}
	return fmt.Sprintf("CosetInterpolationGate { subgroup_bits: %d, degree: %d, barycentric_weights: [%s], _phantom: PhantomData<plonky2_field::goldilocks_field::GoldilocksField> }<D=2>", g.Bits, g.Deg, strings.Join(s, ", "))
}
func (g CosetInterpGate) n() int              { return 1 << g.Bits }
func (g CosetInterpGate) inter() int          { return (g.n() - 2) / (g.Deg - 1) }
func (g CosetInterpGate) point() int          { return 1 + 2*g.n() }
func (g CosetInterpGate) value() int          { return g.point() + 2 }
func (g CosetInterpGate) ieval(i int) int     { return g.value() + 2 + 2*i }
func (g CosetInterpGate) iprod(i int) int     { return g.value() + 2 + 2*(g.inter()+i) }
func (g CosetInterpGate) shifted() int        { return g.value() + 2 + 4*g.inter() }
func (g CosetInterpGate) NumWires() int       { return g.shifted() + 2 }
func (g CosetInterpGate) NumConsts() int      { return 0 }
func (g CosetInterpGate) NumConstraints() int { return 2 + 4*g.inter() + 2 }
func (g CosetInterpGate) Degree() int         { return g.Deg }
func (g CosetInterpGate) Eval(c, w []Ext, _ [4]uint64) (o []Ext) {
	sh := alg(w, g.shifted())
	d := alg(w, g.point()).Sub(sh.Scale(w[0]))
	o = append(o, d[0], d[1])
	dom, wt := Subgroup(g.Bits), BaryWeights(g.Bits)
	var vals []Alg
	for i := 0; i < g.n(); i++ {
		vals = append(vals, alg(w, 1+2*i))
	}
	ev, pr := PartialInterp(dom[:g.Deg], vals[:g.Deg], wt[:g.Deg], sh, Alg{}, A(E(1)))
	for i := 0; i < g.inter(); i++ {
		ie, ip := alg(w, g.ieval(i)), alg(w, g.iprod(i))
		a, b := ie.Sub(ev), ip.Sub(pr)
		o = append(o, a[0], a[1], b[0], b[1])
		s := 1 + (g.Deg-1)*(i+1)
		e := s + g.Deg - 1
		if e > g.n() {
			e = g.n()
		}
		ev, pr = PartialInterp(dom[s:e], vals[s:e], wt[s:e], sh, ie, ip)
	}
	a := alg(w, g.value()).Sub(ev)
	return append(o, a[0], a[1])
}
func (g CosetInterpGate) Fill(r *rand.Rand, c, w []uint64, _ [4]uint64) {
	fill(r, w)
	if w[0] == 0 {
		w[0] = 7
	}
	// work with the base copy: Alg over base field is Ext
	x := balg(w, g.point()).Scale(Inv(w[0]))
	setb(w, g.shifted(), x)
	dom, wt := Subgroup(g.Bits), BaryWeights(g.Bits)
	ev, pr := Ext{}, E(1)
	run := func(s, e int) {
		for i := s; i < e; i++ {
			t := x.Sub(E(dom[i]))
			ev = ev.Mul(t).Add(balg(w, 1+2*i).Scale(wt[i]).Mul(pr))
			pr = pr.Mul(t)
		}
	}
	run(0, g.Deg)
	for i := 0; i < g.inter(); i++ {
		setb(w, g.ieval(i), ev)
		setb(w, g.iprod(i), pr)
		s := 1 + (g.Deg-1)*(i+1)
		e := s + g.Deg - 1
		if e > g.n() {
			e = g.n()
		}
		run(s, e)
	}
	setb(w, g.value(), ev)
}

type ExpGate struct{ Bits int }

func (g ExpGate) ID() string {
	return fmt.Sprintf("ExponentiationGate { num_power_bits: %d, _phantom: PhantomData<plonky2_field::goldilocks_field::GoldilocksField> }<D=2>", g.Bits)
}
func (g ExpGate) NumWires() int       { return 2 + 2*g.Bits }
func (g ExpGate) NumConsts() int      { return 0 }
func (g ExpGate) NumConstraints() int { return g.Bits + 1 }
func (g ExpGate) Degree() int         { return 4 }
func (g ExpGate) Eval(c, w []Ext, _ [4]uint64) (o []Ext) {
	for i := 0; i < g.Bits; i++ {
		prev := E(1)
		if i > 0 {
			prev = w[2+g.Bits+i-1].Mul(w[2+g.Bits+i-1])
		}
		b := w[1+g.Bits-1-i]
		// b*base + (1-b)
		f := b.Mul(w[0]).Add(E(1).Sub(b))
		o = append(o, prev.Mul(f).Sub(w[2+g.Bits+i]))
	}
	return append(o, w[1+g.Bits].Sub(w[2+2*g.Bits-1]))
}
func (g ExpGate) Fill(r *rand.Rand, c, w []uint64, _ [4]uint64) {
	fill(r, w)
	acc := uint64(1)
	for i := 0; i < g.Bits; i++ {
		b := uint64(r.Intn(2))
		w[1+g.Bits-1-i] = b
		acc = Mul(acc, acc)
		if b == 1 {
			acc = Mul(acc, w[0])
		}
		w[2+g.Bits+i] = acc
	}
	w[1+g.Bits] = acc
}

type NoopGate struct{}

func (NoopGate) ID() string                                    { return "NoopGate" }
func (NoopGate) NumWires() int                                 { return 0 }
func (NoopGate) NumConsts() int                                { return 0 }
func (NoopGate) NumConstraints() int                           { return 0 }
func (NoopGate) Degree() int                                   { return 0 }
func (NoopGate) Eval(c, w []Ext, _ [4]uint64) []Ext            { return nil }
func (NoopGate) Fill(r *rand.Rand, c, w []uint64, _ [4]uint64) { fill(r, w) }

type PoseidonGate struct{}

func (PoseidonGate) ID() string {
	return "PoseidonGate(PhantomData<plonky2_field::goldilocks_field::GoldilocksField>)<WIDTH=12>"
}
func (PoseidonGate) NumWires() int       { return 135 }
func (PoseidonGate) NumConsts() int      { return 0 }
func (PoseidonGate) NumConstraints() int { return 1 + 4 + 36 + 22 + 48 + 12 }
func (PoseidonGate) Degree() int         { return 7 }
func (PoseidonGate) Eval(c, w []Ext, _ [4]uint64) (o []Ext) {
	swap := w[24]
	o = append(o, swap.Mul(swap.Sub(E(1))))
	for i := 0; i < 4; i++ {
		o = append(o, swap.Mul(w[4+i].Sub(w[i])).Sub(w[25+i]))
	}
	var s [12]Ext
	copy(s[:], w[:12])
	for i := 0; i < 4; i++ {
		s[i] = w[i].Add(w[25+i])
		s[4+i] = w[4+i].Sub(w[25+i])
	}
	full := func(r int, in int) {
		for i := range s {
			s[i] = s[i].Add(E(rc[12*r+i]))
			if in >= 0 {
				o = append(o, s[i].Sub(w[in+i]))
				s[i] = w[in+i]
			}
			s[i] = pow7Ext(s[i])
		}
		MdsExt(&s)
	}
	full(0, -1)
	for r := 1; r < 4; r++ {
		full(r, 29+12*(r-1))
	}
	// textbook partial rounds: the S-box input of each is the same field
	// element as in the "fast" form
	for r := 0; r < 22; r++ {
		for i := range s {
			s[i] = s[i].Add(E(rc[12*(4+r)+i]))
		}
		o = append(o, s[0].Sub(w[65+r]))
		s[0] = pow7Ext(w[65+r])
		MdsExt(&s)
	}
	for r := 0; r < 4; r++ {
		full(26+r, 87+12*r)
	}
	for i := range s {
		o = append(o, s[i].Sub(w[12+i]))
	}
	return
}
func (PoseidonGate) Fill(r *rand.Rand, c, w []uint64, _ [4]uint64) {
	fill(r, w)
	w[24] = uint64(r.Intn(2))
	var s [12]uint64
	copy(s[:], w[:12])
	for i := 0; i < 4; i++ {
		w[25+i] = Mul(w[24], Sub(w[4+i], w[i]))
		s[i] = Add(w[i], w[25+i])
		s[4+i] = Sub(w[4+i], w[25+i])
	}
	for rd := 0; rd < 30; rd++ {
		for i := range s {
			s[i] = Add(s[i], rc[12*rd+i])
		}
		switch {
		case rd >= 1 && rd < 4:
			copy(w[29+12*(rd-1):], s[:])
		case rd >= 4 && rd < 26:
			w[65+rd-4] = s[0]
		case rd >= 26:
			copy(w[87+12*(rd-26):], s[:])
		}
		for i := range s {
			if i == 0 || rd < 4 || rd >= 26 {
				s[i] = pow7(s[i])
			}
		}
		Mds(&s)
	}
	copy(w[12:], s[:])
}

type PoseidonMdsGate struct{}

func (PoseidonMdsGate) ID() string {
	return "PoseidonMdsGate(PhantomData<plonky2_field::goldilocks_field::GoldilocksField>)<WIDTH=12>"
}
func (PoseidonMdsGate) NumWires() int       { return 48 }
func (PoseidonMdsGate) NumConsts() int      { return 0 }
func (PoseidonMdsGate) NumConstraints() int { return 24 }
func (PoseidonMdsGate) Degree() int         { return 1 }
func (PoseidonMdsGate) Eval(c, w []Ext, _ [4]uint64) (o []Ext) {
	var a, b [12]Ext
	for i := range a {
		a[i], b[i] = w[2*i], w[2*i+1]
	}
	MdsExt(&a)
	MdsExt(&b)
	for i := range a {
		o = append(o, w[24+2*i].Sub(a[i]), w[25+2*i].Sub(b[i]))
	}
	return
}
func (PoseidonMdsGate) Fill(r *rand.Rand, c, w []uint64, _ [4]uint64) {
	fill(r, w)
	var a, b [12]uint64
	for i := range a {
		a[i], b[i] = w[2*i], w[2*i+1]
	}
	Mds(&a)
	Mds(&b)
	for i := range a {
		w[24+2*i], w[25+2*i] = a[i], b[i]
	}
}

type PublicInputGate struct{}

func (PublicInputGate) ID() string          { return "PublicInputGate" }
func (PublicInputGate) NumWires() int       { return 4 }
func (PublicInputGate) NumConsts() int      { return 0 }
func (PublicInputGate) NumConstraints() int { return 4 }
func (PublicInputGate) Degree() int         { return 1 }
func (PublicInputGate) Eval(c, w []Ext, h [4]uint64) (o []Ext) {
	for i := range h {
		o = append(o, w[i].Sub(E(h[i])))
	}
	return
}
func (PublicInputGate) Fill(r *rand.Rand, c, w []uint64, h [4]uint64) {
	fill(r, w)
	copy(w, h[:])
}

type RandomAccessGate struct{ Bits, Copies, Extra int }

func (g RandomAccessGate) ID() string {
	return fmt.Sprintf("RandomAccessGate { bits: %d, num_copies: %d, num_extra_constants: %d, _phantom: PhantomData<plonky2_field::goldilocks_field::GoldilocksField> }<D=2>", g.Bits, g.Copies, g.Extra)
}
func (g RandomAccessGate) stride() int         { return 2 + 1<<g.Bits }
func (g RandomAccessGate) routed() int         { return g.stride()*g.Copies + g.Extra }
func (g RandomAccessGate) NumWires() int       { return g.routed() + g.Copies*g.Bits }
func (g RandomAccessGate) NumConsts() int      { return g.Extra }
func (g RandomAccessGate) NumConstraints() int { return g.Copies*(g.Bits+2) + g.Extra }
func (g RandomAccessGate) Degree() int         { return g.Bits + 1 }
func (g RandomAccessGate) Eval(c, w []Ext, _ [4]uint64) (o []Ext) {
	for k := 0; k < g.Copies; k++ {
		b := g.stride() * k
		bits := w[g.routed()+k*g.Bits : g.routed()+(k+1)*g.Bits]
		for _, x := range bits {
			o = append(o, x.Mul(x).Sub(x))
		}
		o = append(o, ReducePowers(bits, E(2)).Sub(w[b]))
		// multilinear selection: sum_i item_i prod_j (bit or 1-bit)
		sel := Ext{}
		for i := 0; i < 1<<g.Bits; i++ {
			t := w[b+2+i]
			for j, x := range bits {
				if i>>j&1 == 1 {
					t = t.Mul(x)
				} else {
					t = t.Mul(E(1).Sub(x))
				}
			}
			sel = sel.Add(t)
		}
		o = append(o, sel.Sub(w[b+1]))
	}
	for i := 0; i < g.Extra; i++ {
		o = append(o, c[i].Sub(w[g.stride()*g.Copies+i]))
	}
	return
}
func (g RandomAccessGate) Fill(r *rand.Rand, c, w []uint64, _ [4]uint64) {
	fill(r, w)
	for k := 0; k < g.Copies; k++ {
		b := g.stride() * k
		i := r.Intn(1 << g.Bits)
		w[b] = uint64(i)
		w[b+1] = w[b+2+i]
		for j := 0; j < g.Bits; j++ {
			w[g.routed()+k*g.Bits+j] = uint64(i >> j & 1)
		}
	}
	for i := 0; i < g.Extra; i++ {
		w[g.stride()*g.Copies+i] = c[i]
	}
}

type ReducingGate struct{ N int }

func (g ReducingGate) ID() string          { return fmt.Sprintf("ReducingGate { num_coeffs: %d }", g.N) }
func (g ReducingGate) NumWires() int       { return 6 + g.N + 2*(g.N-1) }
func (g ReducingGate) NumConsts() int      { return 0 }
func (g ReducingGate) NumConstraints() int { return 2 * g.N }
func (g ReducingGate) Degree() int         { return 2 }
func (g ReducingGate) acc(i int) int {
	if i == g.N-1 {
		return 0
	}
	return 6 + g.N + 2*i
}
func (g ReducingGate) Eval(c, w []Ext, _ [4]uint64) (o []Ext) {
	acc := alg(w, 4)
	for i := 0; i < g.N; i++ {
		d := acc.Mul(alg(w, 2)).Add(A(w[6+i])).Sub(alg(w, g.acc(i)))
		o = append(o, d[0], d[1])
		acc = alg(w, g.acc(i))
	}
	return
}
func (g ReducingGate) Fill(r *rand.Rand, c, w []uint64, _ [4]uint64) {
	fill(r, w)
	acc := balg(w, 4)
	for i := 0; i < g.N; i++ {
		acc = acc.Mul(balg(w, 2)).Add(E(w[6+i]))
		setb(w, g.acc(i), acc)
	}
}

type ReducingExtGate struct{ N int }

func (g ReducingExtGate) ID() string {
	return fmt.Sprintf("ReducingExtensionGate { num_coeffs: %d }", g.N)
}
func (g ReducingExtGate) NumWires() int       { return 6 + 2*g.N + 2*(g.N-1) }
func (g ReducingExtGate) NumConsts() int      { return 0 }
func (g ReducingExtGate) NumConstraints() int { return 2 * g.N }
func (g ReducingExtGate) Degree() int         { return 2 }
func (g ReducingExtGate) acc(i int) int {
	if i == g.N-1 {
		return 0
	}
	return 6 + 2*g.N + 2*i
}
func (g ReducingExtGate) Eval(c, w []Ext, _ [4]uint64) (o []Ext) {
	acc := alg(w, 4)
	for i := 0; i < g.N; i++ {
		d := acc.Mul(alg(w, 2)).Add(alg(w, 6+2*i)).Sub(alg(w, g.acc(i)))
		o = append(o, d[0], d[1])
		acc = alg(w, g.acc(i))
	}
	return
}
func (g ReducingExtGate) Fill(r *rand.Rand, c, w []uint64, _ [4]uint64) {
	fill(r, w)
	acc := balg(w, 4)
	for i := 0; i < g.N; i++ {
		acc = acc.Mul(balg(w, 2)).Add(balg(w, 6+2*i))
		setb(w, g.acc(i), acc)
	}
}
