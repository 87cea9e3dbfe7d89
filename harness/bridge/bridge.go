// Package bridge runs the workloads written for the monitor engine on gnark's
// real constraint system builders: values become witness variables in the
// order in which the code under test first uses them, everything else is
// passed on to the builder.
package bridge

import (
	"bytes"
	"fmt"
	"math/big"

	"vharness/eng"

	"github.com/consensys/gnark/constraint"
	"github.com/consensys/gnark/constraint/solver"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/frontend/cs/r1cs"
	"github.com/consensys/gnark/frontend/cs/scs"
	"github.com/consensys/gnark/std/math/bits"
)

// Modes of range checking.
const (
	Bits   = "bits"   // the builder has no range checker and no commitments
	Native = "native" // a native range checker, made of bit decompositions
	Free   = "free"   // a native range checker that does not constrain
	Commit = "commit" // the builder as it is
)

// Opt of a compilation.
type Opt struct {
	SCS    bool
	Mode   string
	Linear bool // every input is a linear expression with spare capacity
}

func (o Opt) String() string {
	s := "r1cs"
	if o.SCS {
		s = "scs"
	}
	s += "/" + o.Mode
	if o.Linear {
		s += "/linear"
	}
	return s
}

type kv interface {
	SetKeyValue(k, v any)
	GetKeyValue(k any) any
}

// B is the bridge: frontend.Builder on top of a builder.
type B struct {
	frontend.Builder
	self frontend.Builder
	kv   kv
	opt  Opt
	in   []frontend.Variable // witness variables available
	next int
	m    map[*eng.Val]frontend.Variable
	// Ins lists the values in the order of their witness variables.
	Ins   []*eng.Val
	hints map[solver.HintID]solver.Hint
	// statistics
	NAssert, NHint, NMul, NRange int
}

type native struct{ *B }

// Check is the native range checker.
func (n native) Check(v frontend.Variable, w int) {
	n.NRange++
	if n.opt.Mode == Free || w >= eng.R.BitLen() {
		return
	}
	bits.ToBinary(n.B, v, bits.WithNbDigits(w))
}

type committing struct{ *B }

// Commit passes on to the builder.
func (c committing) Commit(v ...frontend.Variable) (frontend.Variable, error) {
	return c.Builder.(frontend.Committer).Commit(c.trs(v)...)
}

func (b *B) tr(v frontend.Variable) frontend.Variable {
	x, ok := v.(*eng.Val)
	if !ok {
		if y, ok := v.(eng.Val); ok {
			x = &y
		} else {
			return v
		}
	}
	if x.C {
		return x.Big()
	}
	if y, ok := b.m[x]; ok {
		return y
	}
	if b.next >= len(b.in) {
		panic("bridge: more inputs than announced")
	}
	b.Ins = append(b.Ins, x)
	var y frontend.Variable
	if b.opt.Linear {
		// value = w1 + w2; the spare capacity of the sum may be reused by
		// in-place additions of the builder
		w1, w2 := b.in[b.next], b.in[b.next+1]
		b.next += 2
		y = b.Builder.Add(w1, w2, w2, w1, b.Builder.Neg(w1), b.Builder.Neg(w2))
	} else {
		y = b.in[b.next]
		b.next++
	}
	b.m[x] = y
	return y
}

func (b *B) trs(vs []frontend.Variable) []frontend.Variable {
	o := make([]frontend.Variable, len(vs))
	for i, v := range vs {
		o[i] = b.tr(v)
	}
	return o
}

func (b *B) Add(x, y frontend.Variable, in ...frontend.Variable) frontend.Variable {
	x, y = b.tr(x), b.tr(y)
	return b.Builder.Add(x, y, b.trs(in)...)
}
func (b *B) MulAcc(x, y, z frontend.Variable) frontend.Variable {
	b.NMul++
	x, y, z = b.tr(x), b.tr(y), b.tr(z)
	return b.Builder.MulAcc(x, y, z)
}
func (b *B) Neg(x frontend.Variable) frontend.Variable { return b.Builder.Neg(b.tr(x)) }
func (b *B) Sub(x, y frontend.Variable, in ...frontend.Variable) frontend.Variable {
	x, y = b.tr(x), b.tr(y)
	return b.Builder.Sub(x, y, b.trs(in)...)
}
func (b *B) Mul(x, y frontend.Variable, in ...frontend.Variable) frontend.Variable {
	b.NMul++
	x, y = b.tr(x), b.tr(y)
	return b.Builder.Mul(x, y, b.trs(in)...)
}
func (b *B) DivUnchecked(x, y frontend.Variable) frontend.Variable {
	x, y = b.tr(x), b.tr(y)
	return b.Builder.DivUnchecked(x, y)
}
func (b *B) Div(x, y frontend.Variable) frontend.Variable {
	x, y = b.tr(x), b.tr(y)
	return b.Builder.Div(x, y)
}
func (b *B) Inverse(x frontend.Variable) frontend.Variable { return b.Builder.Inverse(b.tr(x)) }
func (b *B) ToBinary(x frontend.Variable, n ...int) []frontend.Variable {
	// as the builders do, so that the requests pass through the bridge
	k := eng.R.BitLen()
	if len(n) == 1 {
		if k = n[0]; k < 0 {
			panic("invalid n")
		}
	}
	return bits.ToBinary(b.self, b.tr(x), bits.WithNbDigits(k))
}
func (b *B) FromBinary(x ...frontend.Variable) frontend.Variable {
	return b.Builder.FromBinary(b.trs(x)...)
}
func (b *B) Xor(x, y frontend.Variable) frontend.Variable {
	x, y = b.tr(x), b.tr(y)
	return b.Builder.Xor(x, y)
}
func (b *B) Or(x, y frontend.Variable) frontend.Variable {
	x, y = b.tr(x), b.tr(y)
	return b.Builder.Or(x, y)
}
func (b *B) And(x, y frontend.Variable) frontend.Variable {
	x, y = b.tr(x), b.tr(y)
	return b.Builder.And(x, y)
}
func (b *B) Select(x, y, z frontend.Variable) frontend.Variable {
	x, y, z = b.tr(x), b.tr(y), b.tr(z)
	return b.Builder.Select(x, y, z)
}
func (b *B) Lookup2(b0, b1 frontend.Variable, i0, i1, i2, i3 frontend.Variable) frontend.Variable {
	v := b.trs([]frontend.Variable{b0, b1, i0, i1, i2, i3})
	return b.Builder.Lookup2(v[0], v[1], v[2], v[3], v[4], v[5])
}
func (b *B) IsZero(x frontend.Variable) frontend.Variable { return b.Builder.IsZero(b.tr(x)) }
func (b *B) Cmp(x, y frontend.Variable) frontend.Variable {
	x, y = b.tr(x), b.tr(y)
	return b.Builder.Cmp(x, y)
}
func (b *B) AssertIsEqual(x, y frontend.Variable) {
	b.NAssert++
	x, y = b.tr(x), b.tr(y)
	b.Builder.AssertIsEqual(x, y)
}
func (b *B) AssertIsDifferent(x, y frontend.Variable) {
	b.NAssert++
	x, y = b.tr(x), b.tr(y)
	b.Builder.AssertIsDifferent(x, y)
}
func (b *B) AssertIsBoolean(x frontend.Variable) {
	b.NAssert++
	b.Builder.AssertIsBoolean(b.tr(x))
}
func (b *B) AssertIsLessOrEqual(x, y frontend.Variable) {
	b.NAssert++
	x, y = b.tr(x), b.tr(y)
	b.Builder.AssertIsLessOrEqual(x, y)
}

// MustBeLessOrEqCst is what gnark's gadgets look for.
func (b *B) MustBeLessOrEqCst(x []frontend.Variable, bound *big.Int, d frontend.Variable) {
	b.Builder.(interface {
		MustBeLessOrEqCst([]frontend.Variable, *big.Int, frontend.Variable)
	}).MustBeLessOrEqCst(b.trs(x), bound, b.tr(d))
}
func (b *B) Println(x ...frontend.Variable) {}

// Compiler returns the bridge.
func (b *B) Compiler() frontend.Compiler { return b.self }

func (b *B) MarkBoolean(x frontend.Variable)    { b.Builder.MarkBoolean(b.tr(x)) }
func (b *B) IsBoolean(x frontend.Variable) bool { return b.Builder.IsBoolean(b.tr(x)) }
func (b *B) NewHint(f solver.Hint, n int, in ...frontend.Variable) ([]frontend.Variable, error) {
	b.NHint++
	b.hints[solver.GetHintID(f)] = f
	return b.Builder.NewHint(f, n, b.trs(in)...)
}
func (b *B) NewHintForId(id solver.HintID, n int, in ...frontend.Variable) ([]frontend.Variable, error) {
	b.NHint++
	b.hints[id] = solver.GetRegisteredHint(id)
	return b.Builder.NewHintForId(id, n, b.trs(in)...)
}
func (b *B) ConstantValue(x frontend.Variable) (*big.Int, bool) {
	return b.Builder.ConstantValue(b.tr(x))
}
func (b *B) ToCanonicalVariable(x frontend.Variable) frontend.CanonicalVariable {
	return b.Builder.ToCanonicalVariable(b.tr(x))
}

// SetKeyValue and GetKeyValue are what gnark's gadgets look for.
func (b *B) SetKeyValue(k, v any)  { b.kv.SetKeyValue(k, v) }
func (b *B) GetKeyValue(k any) any { return b.kv.GetKeyValue(k) }

// Sys is a compiled program.
type Sys struct {
	CS   constraint.ConstraintSystem
	Ins  []*eng.Val // in order
	N    int        // room
	NOut int
	Opt  Opt
	B    *B
}

type defined struct {
	Out []frontend.Variable `gnark:",public"`
	In  []frontend.Variable
	Chk []frontend.Variable
	f   func(api frontend.API, c *defined) error
}

func (c *defined) Define(api frontend.API) error { return c.f(api, c) }

// NewBuilder is a builder behind the bridge, stored in *b.
func NewBuilder(o Opt, b **B) frontend.NewBuilder {
	return func(field *big.Int, cfg frontend.CompileConfig) (frontend.Builder, error) {
		mk := r1cs.NewBuilder
		if o.SCS {
			mk = scs.NewBuilder
		}
		inner, err := mk(field, cfg)
		if err != nil {
			return nil, err
		}
		x := &B{Builder: inner, kv: inner.(kv), opt: o, m: map[*eng.Val]frontend.Variable{}, hints: map[solver.HintID]solver.Hint{}}
		switch o.Mode {
		case Native, Free:
			x.self = &native{x}
		case Commit:
			x.self = &committing{x}
		default:
			x.self = x
		}
		if b != nil {
			*b = x
		}
		return x.self, nil
	}
}

// Compile compiles a program with room for n inputs and nout outputs that are
// asserted to be the public witness.
func Compile(o Opt, prog func(api frontend.API) []frontend.Variable, n, nout int) (s *Sys, err error) {
	if o.Linear {
		n *= 2
	}
	var b *B
	nb := NewBuilder(o, &b)
	c := &defined{Out: make([]frontend.Variable, nout), In: make([]frontend.Variable, n)}
	if o.Linear {
		c.Chk = make([]frontend.Variable, n/2)
	}
	c.f = func(api frontend.API, c *defined) error {
		b.in = c.In
		out := prog(api)
		if len(out) != nout {
			return fmt.Errorf("%d outputs, expected %d", len(out), nout)
		}
		for i := range out {
			api.AssertIsEqual(out[i], c.Out[i])
		}
		// the operands are what they were
		for i, v := range b.Ins {
			if o.Linear {
				b.Builder.AssertIsEqual(b.m[v], c.Chk[i])
			}
		}
		return nil
	}
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	cs, err := frontend.Compile(eng.R, nb, c, frontend.IgnoreUnconstrainedInputs())
	if err != nil {
		return nil, err
	}
	return &Sys{CS: cs, Ins: b.Ins, N: n, NOut: nout, Opt: o, B: b}, nil
}

// Solve runs gnark's solver.
func (s *Sys) Solve(ins []*eng.Val, out []*big.Int, split func(i int) *big.Int, opts ...solver.Option) (err error) {
	c := &defined{Out: make([]frontend.Variable, s.NOut), In: make([]frontend.Variable, s.N)}
	for i := range out {
		c.Out[i] = out[i]
	}
	for i := range c.In {
		c.In[i] = 0
	}
	if s.Opt.Linear {
		c.Chk = make([]frontend.Variable, s.N/2)
		for i := range c.Chk {
			c.Chk[i] = 0
		}
	}
	for i, v := range ins {
		x := v.Big()
		if s.Opt.Linear {
			c.Chk[i] = x
			y := split(i)
			c.In[2*i] = y
			c.In[2*i+1] = new(big.Int).Mod(new(big.Int).Sub(x, y), eng.R)
		} else {
			c.In[i] = x
		}
	}
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	w, err := frontend.NewWitness(c, eng.R)
	if err != nil {
		return err
	}
	_, err = s.CS.Solve(w, opts...)
	return err
}

// Hints lists the hint functions the code asked for.
func (s *Sys) Hints() map[solver.HintID]solver.Hint { return s.B.hints }

// Guard makes a panicking registered hint an error of the solver; hints that
// are not registered are left for the solver to report.
func (s *Sys) Guard() (o []solver.Option) {
	for id := range s.B.hints {
		f := solver.GetRegisteredHint(id)
		if f == nil {
			continue
		}
		o = append(o, solver.OverrideHint(id, func(m *big.Int, in, out []*big.Int) (err error) {
			defer func() {
				if r := recover(); r != nil {
					err = fmt.Errorf("hint panic: %v", r)
				}
			}()
			return f(m, in, out)
		}))
	}
	return
}

// Bytes serialises the constraint system.
func (s *Sys) Bytes() ([]byte, error) {
	var w bytes.Buffer
	_, err := s.CS.WriteTo(&w)
	return w.Bytes(), err
}
