package wl

import (
	"fmt"
	"math/big"
	"math/rand"

	"vharness/eng"
	"vharness/ref"

	"github.com/consensys/gnark-crypto/field/goldilocks"
	"github.com/consensys/gnark/frontend"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
)

// BaseOp is an operation on canonical base field elements.
type BaseOp struct {
	Name  string
	Arity int
	Run   func(c *gl.Chip, x []gl.Variable) []frontend.Variable
	Ref   func(x []uint64) []*big.Int
	Skip  func(x []uint64) bool
}

func one(v gl.Variable) []frontend.Variable { return []frontend.Variable{v.Limb} }

// BaseOps are the operations of the base field.
var BaseOps = []BaseOp{
	{"add", 2, func(c *gl.Chip, x []gl.Variable) []frontend.Variable { return one(c.Add(x[0], x[1])) }, func(x []uint64) []*big.Int { return Bs(ref.Add(x[0], x[1])) }, nil},
	{"sub", 2, func(c *gl.Chip, x []gl.Variable) []frontend.Variable { return one(c.Sub(x[0], x[1])) }, func(x []uint64) []*big.Int { return Bs(ref.Sub(x[0], x[1])) }, nil},
	{"mul", 2, func(c *gl.Chip, x []gl.Variable) []frontend.Variable { return one(c.Mul(x[0], x[1])) }, func(x []uint64) []*big.Int { return Bs(ref.Mul(x[0], x[1])) }, nil},
	{"square", 1, func(c *gl.Chip, x []gl.Variable) []frontend.Variable { return one(c.Mul(x[0], x[0])) }, func(x []uint64) []*big.Int { return Bs(ref.Mul(x[0], x[0])) }, nil},
	{"muladd", 3, func(c *gl.Chip, x []gl.Variable) []frontend.Variable { return one(c.MulAdd(x[0], x[1], x[2])) }, func(x []uint64) []*big.Int { return Bs(ref.Add(ref.Mul(x[0], x[1]), x[2])) }, nil},
	{"muladd_alias", 1, func(c *gl.Chip, x []gl.Variable) []frontend.Variable { return one(c.MulAdd(x[0], x[0], x[0])) }, func(x []uint64) []*big.Int { return Bs(ref.Add(ref.Mul(x[0], x[0]), x[0])) }, nil},
	{"neg", 1, func(c *gl.Chip, x []gl.Variable) []frontend.Variable { return one(c.Sub(gl.Zero(), x[0])) }, func(x []uint64) []*big.Int { return Bs(ref.Neg(x[0])) }, nil},
	{"times_negone", 1, func(c *gl.Chip, x []gl.Variable) []frontend.Variable { return one(c.Mul(gl.NegOne(), x[0])) }, func(x []uint64) []*big.Int { return Bs(ref.Neg(x[0])) }, nil},
	{"inverse", 1, func(c *gl.Chip, x []gl.Variable) []frontend.Variable {
		v, h := c.Inverse(x[0])
		return []frontend.Variable{v.Limb, h}
	}, func(x []uint64) []*big.Int {
		if x[0] == 0 {
			return []*big.Int{nil, B(0)}
		}
		return Bs(ref.Inv(x[0]), 1)
	}, nil},
	{"reduce", 1, func(c *gl.Chip, x []gl.Variable) []frontend.Variable { return one(c.Reduce(x[0])) }, func(x []uint64) []*big.Int { return Bs(x[0]) }, nil},
	{"reduce_add", 2, func(c *gl.Chip, x []gl.Variable) []frontend.Variable { return one(c.Reduce(c.AddNoReduce(x[0], x[1]))) }, func(x []uint64) []*big.Int { return Bs(ref.Add(x[0], x[1])) }, nil},
	{"reduce_sub", 2, func(c *gl.Chip, x []gl.Variable) []frontend.Variable { return one(c.Reduce(c.SubNoReduce(x[0], x[1]))) }, func(x []uint64) []*big.Int { return Bs(ref.Sub(x[0], x[1])) }, nil},
	{"reduce_mul", 2, func(c *gl.Chip, x []gl.Variable) []frontend.Variable { return one(c.Reduce(c.MulNoReduce(x[0], x[1]))) }, func(x []uint64) []*big.Int { return Bs(ref.Mul(x[0], x[1])) }, nil},
	{"reduce_muladd", 3, func(c *gl.Chip, x []gl.Variable) []frontend.Variable {
		return one(c.Reduce(c.MulAddNoReduce(x[0], x[1], x[2])))
	}, func(x []uint64) []*big.Int { return Bs(ref.Add(ref.Mul(x[0], x[1]), x[2])) }, nil},
	{"reduce_cube", 1, func(c *gl.Chip, x []gl.Variable) []frontend.Variable {
		return one(c.Reduce(c.MulNoReduce(x[0], c.MulNoReduce(x[0], x[0]))))
	}, func(x []uint64) []*big.Int { return Bs(ref.Mul(x[0], ref.Mul(x[0], x[0]))) }, nil},
	{"reduce128_cube", 1, func(c *gl.Chip, x []gl.Variable) []frontend.Variable {
		return one(c.ReduceWithMaxBits(c.MulNoReduce(x[0], c.MulNoReduce(x[0], x[0])), 128))
	}, func(x []uint64) []*big.Int { return Bs(ref.Mul(x[0], ref.Mul(x[0], x[0]))) }, nil},
	{"reduce64_mul", 2, func(c *gl.Chip, x []gl.Variable) []frontend.Variable {
		return one(c.ReduceWithMaxBits(c.MulNoReduce(x[0], x[1]), 64))
	}, func(x []uint64) []*big.Int { return Bs(ref.Mul(x[0], x[1])) }, nil},
	{"chain", 3, func(c *gl.Chip, x []gl.Variable) []frontend.Variable {
		a := c.Mul(c.Add(x[0], x[1]), c.Sub(x[1], x[2]))
		b := c.MulAdd(a, x[2], c.Mul(a, a))
		return []frontend.Variable{a.Limb, b.Limb, c.Reduce(c.AddNoReduce(a, b)).Limb}
	}, func(x []uint64) []*big.Int {
		a := ref.Mul(ref.Add(x[0], x[1]), ref.Sub(x[1], x[2]))
		b := ref.Add(ref.Mul(a, x[2]), ref.Mul(a, a))
		return Bs(a, b, ref.Add(a, b))
	}, nil},
	{"dot12", 12, func(c *gl.Chip, x []gl.Variable) []frontend.Variable {
		acc := gl.Zero()
		for i := range x {
			acc = c.MulAddNoReduce(x[i], x[len(x)-1-i], acc)
		}
		return one(c.Reduce(acc))
	}, func(x []uint64) []*big.Int {
		a := uint64(0)
		for i := range x {
			a = ref.Add(a, ref.Mul(x[i], x[len(x)-1-i]))
		}
		return Bs(a)
	}, nil},
	// the same addend, and the same intermediate result, used more than once
	{"muladd_shared", 4, func(c *gl.Chip, x []gl.Variable) []frontend.Variable {
		a := c.MulAdd(x[0], x[1], x[2])
		b := c.MulAdd(x[3], x[0], x[2])
		d := c.MulAdd(x[1], x[1], a)
		return []frontend.Variable{a.Limb, b.Limb, d.Limb, c.MulAdd(x[3], x[3], a).Limb}
	}, func(x []uint64) []*big.Int {
		a := ref.Add(ref.Mul(x[0], x[1]), x[2])
		return Bs(a, ref.Add(ref.Mul(x[3], x[0]), x[2]), ref.Add(ref.Mul(x[1], x[1]), a), ref.Add(ref.Mul(x[3], x[3]), a))
	}, nil},
	{"noreduce_shared", 4, func(c *gl.Chip, x []gl.Variable) []frontend.Variable {
		a := c.MulAddNoReduce(x[0], x[1], x[2])
		b := c.MulAddNoReduce(x[3], x[0], x[2])
		s := c.AddNoReduce(x[2], x[3])
		d := c.MulAddNoReduce(x[1], x[1], a)
		e := c.MulAddNoReduce(x[3], x[3], a)
		f := c.MulAddNoReduce(x[3], x[1], s)
		g := c.MulAddNoReduce(x[2], x[1], s)
		h := c.MulAddNoReduce(gl.NewVariable(3), x[0], s)
		var o []frontend.Variable
		for _, v := range []gl.Variable{a, b, s, d, e, f, g, h, x[2]} {
			o = append(o, c.Reduce(v).Limb)
		}
		return o
	}, func(x []uint64) []*big.Int {
		m := func(a, b, c uint64) uint64 { return ref.Add(ref.Mul(a, b), c) }
		a, s := m(x[0], x[1], x[2]), ref.Add(x[2], x[3])
		return Bs(a, m(x[3], x[0], x[2]), s, m(x[1], x[1], a), m(x[3], x[3], a), m(x[3], x[1], s), m(x[2], x[1], s), m(3, x[0], s), x[2])
	}, nil},
}

// BaseJob instantiates an operation; mask tells which operands are constants.
func BaseJob(op *BaseOp, x []uint64, mask uint) Job {
	x = append([]uint64(nil), x...)
	return Job{Name: op.Name, In: fmt.Sprintf("%v const mask %b", x, mask), Want: op.Ref(x), Prog: func(api frontend.API) []frontend.Variable {
		c := gl.New(api)
		in := make([]gl.Variable, len(x))
		for i := range x {
			in[i] = In(x[i], mask>>uint(i)&1 == 1)
		}
		return op.Run(c, in)
	}}
}

// ReduceJob reduces an arbitrary integer.
func ReduceJob(x *big.Int, bits int) Job {
	q, m := new(big.Int).DivMod(x, eng.P, new(big.Int))
	j := Job{Name: fmt.Sprintf("reduce_big_%d", bits), In: x.String(), Want: []*big.Int{m}}
	b := bits
	if b == 0 {
		b = 144
	}
	j.Reject = q.BitLen() > b
	if j.Reject {
		j.Name = fmt.Sprintf("reduce_big_over_%d", bits)
	}
	j.Prog = func(api frontend.API) []frontend.Variable {
		c := gl.New(api)
		v := gl.NewVariable(eng.Var(x))
		if bits == 0 {
			return one(c.Reduce(v))
		}
		return one(c.ReduceWithMaxBits(v, uint64(bits)))
	}
	return j
}

// ---- extension field

// ExtOp is an operation on extension elements.
type ExtOp struct {
	Name  string
	Arity int
	Run   func(c *gl.Chip, x []gl.QuadraticExtensionVariable) []frontend.Variable
	Ref   func(x []ref.Ext) []*big.Int // nil: must be rejected
}

func xo(v ...gl.QuadraticExtensionVariable) (o []frontend.Variable) {
	for _, e := range v {
		o = append(o, e[0].Limb, e[1].Limb)
	}
	return
}
func xr(v ...ref.Ext) (o []*big.Int) {
	for _, e := range v {
		o = append(o, B(e[0]), B(e[1]))
	}
	return
}

type qv = []gl.QuadraticExtensionVariable

// ExtOps are the operations of the extension field and its algebra.
var ExtOps = []ExtOp{
	{"addx", 2, func(c *gl.Chip, x []gl.QuadraticExtensionVariable) []frontend.Variable {
		return xo(c.AddExtension(x[0], x[1]))
	}, func(x []ref.Ext) []*big.Int { return xr(x[0].Add(x[1])) }},
	{"subx", 2, func(c *gl.Chip, x []gl.QuadraticExtensionVariable) []frontend.Variable {
		return xo(c.SubExtension(x[0], x[1]))
	}, func(x []ref.Ext) []*big.Int { return xr(x[0].Sub(x[1])) }},
	{"mulx", 2, func(c *gl.Chip, x []gl.QuadraticExtensionVariable) []frontend.Variable {
		return xo(c.MulExtension(x[0], x[1]))
	}, func(x []ref.Ext) []*big.Int { return xr(x[0].Mul(x[1])) }},
	{"sqrx", 1, func(c *gl.Chip, x []gl.QuadraticExtensionVariable) []frontend.Variable {
		return xo(c.MulExtension(x[0], x[0]))
	}, func(x []ref.Ext) []*big.Int { return xr(x[0].Mul(x[0])) }},
	{"muladdx", 3, func(c *gl.Chip, x []gl.QuadraticExtensionVariable) []frontend.Variable {
		return xo(c.MulAddExtension(x[0], x[1], x[2]))
	}, func(x []ref.Ext) []*big.Int { return xr(x[0].Mul(x[1]).Add(x[2])) }},
	{"submulx", 3, func(c *gl.Chip, x []gl.QuadraticExtensionVariable) []frontend.Variable {
		return xo(c.SubMulExtension(x[0], x[1], x[2]))
	}, func(x []ref.Ext) []*big.Int { return xr(x[0].Sub(x[1]).Mul(x[2])) }},
	{"scalarx", 2, func(c *gl.Chip, x []gl.QuadraticExtensionVariable) []frontend.Variable {
		return xo(c.ScalarMulExtension(x[0], x[1][0]))
	}, func(x []ref.Ext) []*big.Int { return xr(x[0].Scale(x[1][0])) }},
	{"noreduce_x", 3, func(c *gl.Chip, x []gl.QuadraticExtensionVariable) []frontend.Variable {
		return xo(c.ReduceExtension(c.AddExtensionNoReduce(c.MulExtensionNoReduce(x[0], x[1]), c.SubExtensionNoReduce(x[1], x[2]))),
			c.ReduceExtension(c.MulAddExtensionNoReduce(x[0], x[1], x[2])))
	}, func(x []ref.Ext) []*big.Int { return xr(x[0].Mul(x[1]).Add(x[1].Sub(x[2])), x[0].Mul(x[1]).Add(x[2])) }},
	{"sharedx", 4, func(c *gl.Chip, x []gl.QuadraticExtensionVariable) []frontend.Variable {
		a := c.MulAddExtensionNoReduce(x[0], x[1], x[2])
		b := c.MulAddExtensionNoReduce(x[3], x[0], x[2])
		s := c.AddExtensionNoReduce(x[2], x[3])
		d := c.MulAddExtensionNoReduce(x[1], x[1], s)
		e := c.MulAddExtensionNoReduce(x[3], x[2], s)
		f := c.MulAddExtension(x[1], x[0], x[2])
		g := c.MulAddExtension(x[1], x[3], x[2])
		var o []gl.QuadraticExtensionVariable
		for _, v := range []gl.QuadraticExtensionVariable{a, b, s, d, e, f, g, x[2]} {
			o = append(o, c.ReduceExtension(v))
		}
		return xo(o...)
	}, func(x []ref.Ext) []*big.Int {
		s := x[2].Add(x[3])
		return xr(x[0].Mul(x[1]).Add(x[2]), x[3].Mul(x[0]).Add(x[2]), s, x[1].Mul(x[1]).Add(s), x[3].Mul(x[2]).Add(s), x[1].Mul(x[0]).Add(x[2]), x[1].Mul(x[3]).Add(x[2]), x[2])
	}},
	{"inversex", 1, func(c *gl.Chip, x []gl.QuadraticExtensionVariable) []frontend.Variable {
		v, h := c.InverseExtension(x[0])
		return append(xo(v), h)
	}, func(x []ref.Ext) []*big.Int {
		if x[0].IsZero() {
			return nil
		}
		return append(xr(x[0].Inv()), B(1))
	}},
	{"divx", 2, func(c *gl.Chip, x []gl.QuadraticExtensionVariable) []frontend.Variable {
		v, h := c.DivExtension(x[0], x[1])
		return append(xo(v), h)
	}, func(x []ref.Ext) []*big.Int {
		if x[1].IsZero() {
			return nil
		}
		return append(xr(x[0].Mul(x[1].Inv())), B(1))
	}},
	{"iszerox", 1, func(c *gl.Chip, x []gl.QuadraticExtensionVariable) []frontend.Variable {
		return []frontend.Variable{c.IsZero(x[0])}
	}, func(x []ref.Ext) []*big.Int {
		if x[0].IsZero() {
			return Bs(1)
		}
		return Bs(0)
	}},
	{"asserteqx", 2, func(c *gl.Chip, x []gl.QuadraticExtensionVariable) []frontend.Variable {
		c.AssertIsEqualExtension(x[0], x[1])
		return nil
	}, func(x []ref.Ext) []*big.Int {
		if x[0] != x[1] {
			return nil
		}
		return []*big.Int{}
	}},
	{"asserteqx_same", 1, func(c *gl.Chip, x []gl.QuadraticExtensionVariable) []frontend.Variable {
		c.AssertIsEqualExtension(x[0], x[0])
		return nil
	}, func(x []ref.Ext) []*big.Int { return []*big.Int{} }},
	{"asserteqx_1", 2, func(c *gl.Chip, x []gl.QuadraticExtensionVariable) []frontend.Variable {
		c.AssertIsEqualExtension(x[0], gl.QuadraticExtensionVariable{x[0][0], x[1][1]})
		return nil
	}, func(x []ref.Ext) []*big.Int {
		if x[0][1] != x[1][1] {
			return nil
		}
		return []*big.Int{}
	}},
	{"asserteqx_0", 2, func(c *gl.Chip, x []gl.QuadraticExtensionVariable) []frontend.Variable {
		c.AssertIsEqualExtension(x[0], gl.QuadraticExtensionVariable{x[1][0], x[0][1]})
		return nil
	}, func(x []ref.Ext) []*big.Int {
		if x[0][0] != x[1][0] {
			return nil
		}
		return []*big.Int{}
	}},
	{"lookup0", 2, func(c *gl.Chip, x []gl.QuadraticExtensionVariable) []frontend.Variable {
		return xo(c.Lookup(eng.U(0), x[0], x[1]), c.Lookup(eng.U(1), x[0], x[1]))
	}, func(x []ref.Ext) []*big.Int { return xr(x[0], x[1]) }},
	{"lookup2", 4, func(c *gl.Chip, x []gl.QuadraticExtensionVariable) []frontend.Variable {
		var o []frontend.Variable
		for k := uint64(0); k < 4; k++ {
			o = append(o, xo(c.Lookup2(eng.U(k&1), eng.U(k>>1), x[0], x[1], x[2], x[3]))...)
		}
		return o
	}, func(x []ref.Ext) []*big.Int { return xr(x[0], x[1], x[2], x[3]) }},
	{"alg_add", 4, func(c *gl.Chip, x []gl.QuadraticExtensionVariable) []frontend.Variable {
		r := c.AddExtensionAlgebra(ga(x, 0), ga(x, 2))
		return xo(r[0], r[1])
	}, func(x []ref.Ext) []*big.Int { r := ra(x, 0).Add(ra(x, 2)); return xr(r[0], r[1]) }},
	{"alg_sub", 4, func(c *gl.Chip, x []gl.QuadraticExtensionVariable) []frontend.Variable {
		r := c.SubExtensionAlgebra(ga(x, 0), ga(x, 2))
		return xo(r[0], r[1])
	}, func(x []ref.Ext) []*big.Int { r := ra(x, 0).Sub(ra(x, 2)); return xr(r[0], r[1]) }},
	{"alg_mul", 4, func(c *gl.Chip, x []gl.QuadraticExtensionVariable) []frontend.Variable {
		r := c.MulExtensionAlgebra(ga(x, 0), ga(x, 2))
		return xo(r[0], r[1])
	}, func(x []ref.Ext) []*big.Int { r := ra(x, 0).Mul(ra(x, 2)); return xr(r[0], r[1]) }},
	{"alg_scalar", 3, func(c *gl.Chip, x []gl.QuadraticExtensionVariable) []frontend.Variable {
		r := c.ScalarMulExtensionAlgebra(x[2], ga(x, 0))
		return xo(r[0], r[1])
	}, func(x []ref.Ext) []*big.Int { r := ra(x, 0).Scale(x[2]); return xr(r[0], r[1]) }},
	{"alg_chain", 6, func(c *gl.Chip, x []gl.QuadraticExtensionVariable) []frontend.Variable {
		r := c.SubExtensionAlgebra(c.MulExtensionAlgebra(ga(x, 0), c.AddExtensionAlgebra(ga(x, 2), gl.OneExtensionAlgebra())), c.AddExtensionAlgebra(gl.ZeroExtensionAlgebra(), x[4].ToQuadraticExtensionAlgebra()))
		return xo(r[0], r[1])
	}, func(x []ref.Ext) []*big.Int {
		r := ra(x, 0).Mul(ra(x, 2).Add(ref.A(ref.E(1)))).Sub(ref.A(x[4]))
		return xr(r[0], r[1])
	}},
}

func ga(x []gl.QuadraticExtensionVariable, i int) gl.QuadraticExtensionAlgebraVariable {
	return gl.NewQuadraticExtensionAlgebraVariable(x[i], x[i+1])
}
func ra(x []ref.Ext, i int) ref.Alg { return ref.Alg{x[i], x[i+1]} }

// ExtJob instantiates.
func ExtJob(op *ExtOp, x []ref.Ext, mask uint) Job {
	x = append([]ref.Ext(nil), x...)
	w := op.Ref(x)
	return Job{Name: op.Name, In: fmt.Sprintf("%v const mask %b", x, mask), Want: w, Reject: w == nil, Prog: func(api frontend.API) []frontend.Variable {
		c := gl.New(api)
		in := make([]gl.QuadraticExtensionVariable, len(x))
		for i := range x {
			in[i] = InX(x[i], mask>>uint(i)&1 == 1)
		}
		return op.Run(c, in)
	}}
}

// ExpJob: x^e.
func ExpJob(x ref.Ext, e uint64, constant bool) Job {
	return Job{Name: fmt.Sprintf("expx_%d", e), In: fmt.Sprint(x), Want: xr(x.Exp(e)), Prog: func(api frontend.API) []frontend.Variable {
		return xo(gl.New(api).ExpExtension(InX(x, constant), e))
	}}
}

// PowersJob: sum t_i x^i.
func PowersJob(t []ref.Ext, x ref.Ext, constant bool) Job {
	return Job{Name: fmt.Sprintf("powers_%d", len(t)), In: fmt.Sprint(t, x), Want: xr(ref.ReducePowers(t, x)), Prog: func(api frontend.API) []frontend.Variable {
		in := make([]gl.QuadraticExtensionVariable, len(t))
		for i := range t {
			in[i] = InX(t[i], constant)
		}
		return xo(gl.New(api).ReduceWithPowers(in, InX(x, constant)))
	}}
}

// InnerJob: acc + k sum a_i b_i.
func InnerJob(k uint64, acc ref.Ext, ab [][2]ref.Ext, constant bool) Job {
	w := acc
	for _, p := range ab {
		w = w.Add(p[0].Scale(k).Mul(p[1]))
	}
	return Job{Name: fmt.Sprintf("inner_%d", len(ab)), In: fmt.Sprint(k, acc, ab), Want: xr(w), Prog: func(api frontend.API) []frontend.Variable {
		var in [][2]gl.QuadraticExtensionVariable
		for _, p := range ab {
			in = append(in, [2]gl.QuadraticExtensionVariable{InX(p[0], constant), InX(p[1], constant)})
		}
		return xo(gl.New(api).InnerProductExtension(In(k, constant), InX(acc, constant), in))
	}}
}

// InterpJob: one step of barycentric interpolation.
func InterpJob(r *rand.Rand, n int) Job {
	dom := make([]goldilocks.Element, n)
	wt := make([]goldilocks.Element, n)
	d, w := make([]uint64, n), make([]uint64, n)
	vals := make([]ref.Alg, n)
	for i := range dom {
		d[i], w[i] = Pick(r), Pick(r)
		dom[i].SetUint64(d[i])
		wt[i].SetUint64(w[i])
		vals[i] = ref.Alg{Ext(r), Ext(r)}
	}
	x, ev, pr := ref.Alg{Ext(r), Ext(r)}, ref.Alg{Ext(r), Ext(r)}, ref.Alg{Ext(r), Ext(r)}
	a, b := ref.PartialInterp(d, vals, w, x, ev, pr)
	al := func(x ref.Alg) gl.QuadraticExtensionAlgebraVariable {
		return gl.QuadraticExtensionAlgebraVariable{InX(x[0], false), InX(x[1], false)}
	}
	return Job{Name: fmt.Sprintf("interp_%d", n), In: fmt.Sprint(d, w, vals, x, ev, pr), Want: xr(a[0], a[1], b[0], b[1]), Prog: func(api frontend.API) []frontend.Variable {
		var v []gl.QuadraticExtensionAlgebraVariable
		for i := range vals {
			v = append(v, al(vals[i]))
		}
		e, p := gl.New(api).PartialInterpolateExtAlgebra(dom, v, wt, al(x), al(ev), al(pr))
		return xo(e[0], e[1], p[0], p[1])
	}}
}
