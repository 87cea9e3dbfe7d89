// Package eng is the runtime monitor of this framework: an execution engine
// for gnark circuits that runs the real circuit code of /repo on concrete
// values, records every assertion, range check and hint request as an event,
// keeps going after a failed assertion (or stops at the first one) and lets an
// adversarial prover answer the hint requests.
//
// A run is "accepted" when no constraint the code emitted is violated. The
// engine itself never decides what is right: the checks compare an accepted
// run's outputs, or the verdict, with an independent reference.
package eng

import (
	"fmt"
	"math/big"
	"reflect"
	"runtime"
	"strings"
	"sync"

	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark/constraint"
	"github.com/consensys/gnark/constraint/solver"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/std/math/bits"
)

// R is the BN254 scalar modulus.
var R = ecc.BN254.ScalarField()

// P is the Goldilocks modulus.
var P = new(big.Int).SetUint64(0xffffffff00000001)

// Val is a value on a wire.
type Val struct {
	E fr.Element
	C bool // known at compile time
}

func (v *Val) Big() *big.Int { return v.E.BigInt(new(big.Int)) }

// Fail is a violated constraint.
type Fail struct {
	Kind  string
	Where string
}

// HintKind classifies the hint functions by what they compute.
type HintKind int

const (
	HUnknown HintKind = iota
	HMulAdd
	HReduce
	HInverse
	HSplit
	HNBits
)

func (k HintKind) String() string {
	return [...]string{"unknown", "muladd", "reduce", "inverse", "split", "nbits"}[k]
}

type hintClass struct {
	kind HintKind
	swap bool // outputs in the opposite of the usual order
	name string
}

// HintEvent is one request of the circuit to the prover.
type HintEvent struct {
	Idx  int // index among all hint calls
	KIdx int // index among the calls of this kind
	Kind HintKind
	In   []*big.Int
	NOut int
}

type stopRun struct{}

// Engine implements frontend.API and frontend.Compiler. Used as it is, the
// code under test sees neither a native range checker nor a committer.
type Engine struct {
	API frontend.API // outermost wrapper

	Fails      []Fail
	NFails     int
	StopOnFail bool
	// Honest: call the code's own hint functions and treat their panics and
	// errors as a failure of the run. Otherwise the prover is total: it
	// answers every request with mathematically correct values (also out of
	// range ones) unless Adv overrides it.
	Honest bool
	// Adv may return the answer to a hint (usual order: quotient, remainder
	// / high, low); nil means default.
	Adv func(ev *HintEvent) []*big.Int
	// Perturb may change the computed answer to a hint of unknown kind.
	Perturb func(ev *HintEvent, out []*big.Int) []*big.Int
	// Step, if set, is called at every request and assertion: a point where
	// a scheduler may switch to another engine.
	Step func()
	// ConstOnly: the engine reports constants through ConstantValue
	NoConst bool
	Faith   bool // decompose ToBinary through the gadget and its hints

	NAssert, NRange, NHint, NMul, NDefer int
	KindN                                [6]int
	HintPanics                           int
	RangeBits                            map[int]int

	kv       map[any]any
	deferred []func(frontend.API) error
}

// Native has its own range checker.
type Native struct{ *Engine }

func (e Native) Check(v frontend.Variable, n int) { e.Engine.rangeCheck(v, n) }

// Committing offers commitments.
type Committing struct{ *Engine }

func (e Committing) Commit(v ...frontend.Variable) (frontend.Variable, error) {
	var acc, m fr.Element
	acc.SetUint64(0x9e3779b97f4a7c15)
	m.SetUint64(0xc2b2ae3d27d4eb4f)
	m.Square(&m)
	m.Square(&m)
	for _, x := range v {
		acc.Mul(&acc, &m)
		xe := e.get(x)
		acc.Add(&acc, &xe.E)
		acc.Square(&acc)
	}
	return &Val{E: acc}, nil
}

func base() *Engine {
	return &Engine{Honest: true, kv: map[any]any{}, RangeBits: map[int]int{}}
}

// NewNative returns an engine with a built-in range checker.
func NewNative() *Engine {
	e := base()
	e.API = &Native{e}
	return e
}

// NewBits returns an engine with neither range checker nor commitments.
func NewBits() *Engine {
	e := base()
	e.API = e
	return e
}

// NewCommit returns an engine with commitments.
func NewCommit() *Engine {
	e := base()
	e.API = &Committing{e}
	return e
}

// Result of a run.
type Result struct {
	Accepted bool
	Panic    string // the code panicked
	Err      error
	Fails    []Fail
}

func (r Result) String() string {
	if r.Accepted {
		return "accepted"
	}
	if r.Panic != "" {
		return "panic: " + r.Panic
	}
	if r.Err != nil {
		return "error: " + r.Err.Error()
	}
	s := "rejected:"
	for i, f := range r.Fails {
		if i == 3 {
			s += " ..."
			break
		}
		s += fmt.Sprintf(" %s at %s;", f.Kind, f.Where)
	}
	return s
}

// Run executes define and the deferred callbacks.
func (e *Engine) Run(define func(api frontend.API) error) (res Result) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(stopRun); !ok {
				res.Panic = fmt.Sprint(r)
				if len(res.Panic) > 300 {
					res.Panic = res.Panic[:300]
				}
				if res.Panic == "" {
					res.Panic = "panic"
				}
			}
		}
		res.Fails = e.Fails
		res.Accepted = res.Panic == "" && res.Err == nil && e.NFails == 0
		// the code under test keeps a reference to the engine for ever
		e.deferred = nil
		e.kv = map[any]any{}
		e.Adv = nil
		e.Perturb = nil
		e.Step = nil
	}()
	if err := define(e.API); err != nil {
		res.Err = err
		return
	}
	for i := 0; i < len(e.deferred); i++ {
		if err := e.deferred[i](e.API); err != nil {
			res.Err = err
			return
		}
	}
	return
}

func where() string {
	pc := make([]uintptr, 24)
	n := runtime.Callers(3, pc)
	fr := runtime.CallersFrames(pc[:n])
	var parts []string
	for {
		f, more := fr.Next()
		if strings.Contains(f.File, "/repo/") || strings.Contains(f.Function, "gnark-plonky2-verifier") {
			fn := f.Function
			if i := strings.LastIndex(fn, "/"); i >= 0 {
				fn = fn[i+1:]
			}
			parts = append(parts, fmt.Sprintf("%s:%d", fn, f.Line))
			if len(parts) == 4 {
				break
			}
		}
		if !more {
			break
		}
	}
	return strings.Join(parts, "<")
}

func (e *Engine) fail(kind string) {
	e.NFails++
	if len(e.Fails) < 12 {
		e.Fails = append(e.Fails, Fail{kind, where()})
	}
	if e.StopOnFail {
		panic(stopRun{})
	}
}

// ---- values

type toBigInter interface {
	ToBigIntRegular(res *big.Int) *big.Int
}

func (e *Engine) get(v frontend.Variable) *Val {
	switch x := v.(type) {
	case *Val:
		return x
	case Val:
		return &x
	}
	r := &Val{C: true}
	switch x := v.(type) {
	case uint64:
		r.E.SetUint64(x)
	case int:
		r.E.SetInt64(int64(x))
	case *big.Int:
		r.E.SetBigInt(x)
	case big.Int:
		r.E.SetBigInt(&x)
	case uint8:
		r.E.SetUint64(uint64(x))
	case uint16:
		r.E.SetUint64(uint64(x))
	case uint32:
		r.E.SetUint64(uint64(x))
	case uint:
		r.E.SetUint64(uint64(x))
	case int8:
		r.E.SetInt64(int64(x))
	case int16:
		r.E.SetInt64(int64(x))
	case int32:
		r.E.SetInt64(int64(x))
	case int64:
		r.E.SetInt64(x)
	case string:
		b, ok := new(big.Int).SetString(x, 0)
		if !ok {
			panic("unable to set big.Int from string " + x)
		}
		r.E.SetBigInt(b)
	case []byte:
		r.E.SetBigInt(new(big.Int).SetBytes(x))
	case fr.Element:
		r.E = x
	default:
		if t, ok := v.(toBigInter); ok {
			var b big.Int
			t.ToBigIntRegular(&b)
			r.E.SetBigInt(&b)
			return r
		}
		panic(reflect.TypeOf(v).String() + " to field element not supported")
	}
	return r
}

// Var makes a witness variable.
func Var(x *big.Int) frontend.Variable {
	v := &Val{}
	v.E.SetBigInt(x)
	return v
}

// U makes a witness variable from a uint64.
func U(x uint64) frontend.Variable {
	v := &Val{}
	v.E.SetUint64(x)
	return v
}

// Get reads a value.
func (e *Engine) Get(v frontend.Variable) *big.Int { return e.get(v).Big() }

// ---- arithmetic

func (e *Engine) Add(i1, i2 frontend.Variable, in ...frontend.Variable) frontend.Variable {
	a, b := e.get(i1), e.get(i2)
	r := &Val{C: a.C && b.C}
	r.E.Add(&a.E, &b.E)
	for _, x := range in {
		c := e.get(x)
		r.E.Add(&r.E, &c.E)
		r.C = r.C && c.C
	}
	return r
}

func (e *Engine) MulAcc(a, b, c frontend.Variable) frontend.Variable {
	av, bv, cv := e.get(a), e.get(b), e.get(c)
	r := &Val{C: av.C && bv.C && cv.C}
	r.E.Mul(&bv.E, &cv.E)
	r.E.Add(&r.E, &av.E)
	e.NMul++
	return r
}

func (e *Engine) Neg(i1 frontend.Variable) frontend.Variable {
	a := e.get(i1)
	r := &Val{C: a.C}
	r.E.Neg(&a.E)
	return r
}

func (e *Engine) Sub(i1, i2 frontend.Variable, in ...frontend.Variable) frontend.Variable {
	a, b := e.get(i1), e.get(i2)
	r := &Val{C: a.C && b.C}
	r.E.Sub(&a.E, &b.E)
	for _, x := range in {
		c := e.get(x)
		r.E.Sub(&r.E, &c.E)
		r.C = r.C && c.C
	}
	return r
}

func (e *Engine) Mul(i1, i2 frontend.Variable, in ...frontend.Variable) frontend.Variable {
	a, b := e.get(i1), e.get(i2)
	r := &Val{C: a.C && b.C}
	r.E.Mul(&a.E, &b.E)
	e.NMul++
	for _, x := range in {
		c := e.get(x)
		r.E.Mul(&r.E, &c.E)
		r.C = r.C && c.C
	}
	return r
}

func (e *Engine) DivUnchecked(i1, i2 frontend.Variable) frontend.Variable {
	a, b := e.get(i1), e.get(i2)
	r := &Val{C: a.C && b.C}
	if b.E.IsZero() {
		if !a.E.IsZero() {
			e.fail("division by zero")
		}
		return r
	}
	r.E.Inverse(&b.E)
	r.E.Mul(&r.E, &a.E)
	return r
}

func (e *Engine) Div(i1, i2 frontend.Variable) frontend.Variable {
	if e.get(i2).E.IsZero() {
		e.fail("division by zero")
	}
	return e.DivUnchecked(i1, i2)
}

func (e *Engine) Inverse(i1 frontend.Variable) frontend.Variable {
	return e.Div(1, i1)
}

func (e *Engine) ToBinary(i1 frontend.Variable, n ...int) []frontend.Variable {
	nb := R.BitLen()
	if len(n) == 1 {
		nb = n[0]
		if nb < 0 {
			panic("invalid n")
		}
	}
	if e.Faith {
		return bits.ToBinary(e.API, i1, bits.WithNbDigits(nb))
	}
	v := e.get(i1)
	b := v.Big()
	e.NAssert++
	if b.BitLen() > nb {
		e.fail("ToBinary")
	}
	out := make([]frontend.Variable, nb)
	for i := range out {
		x := &Val{C: v.C}
		if b.Bit(i) == 1 {
			x.E.SetOne()
		}
		out[i] = x
	}
	return out
}

func (e *Engine) FromBinary(b ...frontend.Variable) frontend.Variable {
	return bits.FromBinary(e.API, b)
}

func (e *Engine) isBool(v *Val) bool { return v.E.IsZero() || v.E.IsOne() }

func (e *Engine) needBool(v *Val, what string) {
	e.NAssert++
	if !e.isBool(v) {
		e.fail(what + " of a non-boolean")
	}
}

func (e *Engine) Xor(a, b frontend.Variable) frontend.Variable {
	x, y := e.get(a), e.get(b)
	e.needBool(x, "xor")
	e.needBool(y, "xor")
	r := &Val{C: x.C && y.C}
	if x.E.IsZero() != y.E.IsZero() {
		r.E.SetOne()
	}
	return r
}

func (e *Engine) Or(a, b frontend.Variable) frontend.Variable {
	x, y := e.get(a), e.get(b)
	e.needBool(x, "or")
	e.needBool(y, "or")
	r := &Val{C: x.C && y.C}
	if !x.E.IsZero() || !y.E.IsZero() {
		r.E.SetOne()
	}
	return r
}

func (e *Engine) And(a, b frontend.Variable) frontend.Variable {
	x, y := e.get(a), e.get(b)
	e.needBool(x, "and")
	e.needBool(y, "and")
	r := &Val{C: x.C && y.C}
	if !x.E.IsZero() && !y.E.IsZero() {
		r.E.SetOne()
	}
	return r
}

// Select, as both builders of gnark do, constrains b to be boolean and then
// computes i2 + b (i1 - i2).
func (e *Engine) Select(b frontend.Variable, i1, i2 frontend.Variable) frontend.Variable {
	bv, x, y := e.get(b), e.get(i1), e.get(i2)
	e.needBool(bv, "select")
	r := &Val{C: bv.C && x.C && y.C}
	if bv.E.IsZero() {
		r.E = y.E
	} else {
		r.E = x.E
	}
	return r
}

func (e *Engine) Lookup2(b0, b1 frontend.Variable, i0, i1, i2, i3 frontend.Variable) frontend.Variable {
	s0, s1 := e.get(b0), e.get(b1)
	e.needBool(s0, "lookup2")
	e.needBool(s1, "lookup2")
	pick := [4]frontend.Variable{i0, i1, i2, i3}
	k := 0
	if !s0.E.IsZero() {
		k |= 1
	}
	if !s1.E.IsZero() {
		k |= 2
	}
	v := e.get(pick[k])
	return &Val{E: v.E, C: v.C && s0.C && s1.C}
}

func (e *Engine) IsZero(i1 frontend.Variable) frontend.Variable {
	v := e.get(i1)
	r := &Val{C: v.C}
	if v.E.IsZero() {
		r.E.SetOne()
	}
	return r
}

func (e *Engine) Cmp(i1, i2 frontend.Variable) frontend.Variable {
	a, b := e.get(i1), e.get(i2)
	r := &Val{C: a.C && b.C}
	r.E.SetInt64(int64(a.Big().Cmp(b.Big())))
	return r
}

// ---- assertions

func (e *Engine) AssertIsEqual(i1, i2 frontend.Variable) {
	e.NAssert++
	if e.Step != nil {
		e.Step()
	}
	a, b := e.get(i1), e.get(i2)
	if !a.E.Equal(&b.E) {
		e.fail("AssertIsEqual")
	}
}

func (e *Engine) AssertIsDifferent(i1, i2 frontend.Variable) {
	e.NAssert++
	a, b := e.get(i1), e.get(i2)
	if a.E.Equal(&b.E) {
		e.fail("AssertIsDifferent")
	}
}

func (e *Engine) AssertIsBoolean(i1 frontend.Variable) {
	e.needBool(e.get(i1), "AssertIsBoolean")
}

func (e *Engine) AssertIsLessOrEqual(v frontend.Variable, bound frontend.Variable) {
	e.NAssert++
	if e.get(v).Big().Cmp(e.get(bound).Big()) > 0 {
		e.fail("AssertIsLessOrEqual")
	}
}

func (e *Engine) MustBeLessOrEqCst(aBits []frontend.Variable, bound *big.Int, _ frontend.Variable) {
	e.NAssert++
	s := new(big.Int)
	for i, b := range aBits {
		v := e.get(b)
		if !e.isBool(v) {
			e.fail("non-boolean bit")
			return
		}
		if v.E.IsOne() {
			s.SetBit(s, i, 1)
		}
	}
	if s.Cmp(bound) > 0 {
		e.fail("MustBeLessOrEqCst")
	}
}

func (e *Engine) rangeCheck(v frontend.Variable, n int) {
	if e.Step != nil {
		e.Step()
	}
	e.NRange++
	e.RangeBits[n]++
	x := e.get(v)
	if n >= R.BitLen() {
		return
	}
	if n < 0 {
		panic("negative bit width")
	}
	if n <= 64 {
		b := x.E.Bits()
		if b[1]|b[2]|b[3] != 0 || (n < 64 && b[0]>>uint(n) != 0) {
			e.fail(fmt.Sprintf("range check %d bits", n))
		}
		return
	}
	if x.Big().BitLen() > n {
		e.fail(fmt.Sprintf("range check %d bits", n))
	}
}

func (e *Engine) Println(a ...frontend.Variable) {}

// ---- compiler

func (e *Engine) Compiler() frontend.Compiler {
	if e.Step != nil {
		e.Step()
	}
	return e.API.(frontend.Compiler)
}

func (e *Engine) MarkBoolean(v frontend.Variable)    {}
func (e *Engine) IsBoolean(v frontend.Variable) bool { return false }

func (e *Engine) ConstantValue(v frontend.Variable) (*big.Int, bool) {
	x := e.get(v)
	if e.NoConst || !x.C {
		return nil, false
	}
	return x.Big(), true
}

func (e *Engine) Field() *big.Int  { return new(big.Int).Set(R) }
func (e *Engine) FieldBitLen() int { return R.BitLen() }

func (e *Engine) Defer(cb func(frontend.API) error) {
	if e.Step != nil {
		e.Step()
	}
	e.NDefer++
	e.deferred = append(e.deferred, cb)
}
func (e *Engine) SetKeyValue(k, v any)  { e.kv[k] = v }
func (e *Engine) GetKeyValue(k any) any { return e.kv[k] }
func (e *Engine) SetGkrInfo(constraint.GkrInfo) error {
	return fmt.Errorf("not implemented")
}
func (e *Engine) InternalVariable(wireID uint32) frontend.Variable { panic("not implemented") }
func (e *Engine) ToCanonicalVariable(v frontend.Variable) frontend.CanonicalVariable {
	panic("not implemented")
}
func (e *Engine) AddBlueprint(b constraint.Blueprint) constraint.BlueprintID {
	panic("not implemented")
}
func (e *Engine) AddInstruction(bID constraint.BlueprintID, calldata []uint32) []uint32 {
	panic("not implemented")
}
func (e *Engine) NewHintForId(id solver.HintID, nbOutputs int, inputs ...frontend.Variable) ([]frontend.Variable, error) {
	f := solver.GetRegisteredHint(id)
	if f == nil {
		return nil, fmt.Errorf("no hint registered with id #%d", id)
	}
	return e.NewHint(f, nbOutputs, inputs...)
}

// ---- hints

var classes sync.Map // [2]uintptr -> hintClass

func callHint(f solver.Hint, in []*big.Int, nout int) (out []*big.Int, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("hint panic: %v", r)
		}
	}()
	out = make([]*big.Int, nout)
	for i := range out {
		out[i] = new(big.Int)
	}
	cp := make([]*big.Int, len(in))
	for i := range in {
		cp[i] = new(big.Int).Set(in[i])
	}
	err = f(new(big.Int).Set(R), cp, out)
	return out, err
}

func classify(f solver.Hint, nin, nout int) hintClass {
	key := [3]uintptr{reflect.ValueOf(f).Pointer(), uintptr(nin), uintptr(nout)}
	if c, ok := classes.Load(key); ok {
		return c.(hintClass)
	}
	c := hintClass{name: solver.GetHintName(f)}
	is := func(in []*big.Int, a, b *big.Int) (bool, bool) {
		out, err := callHint(f, in, 2)
		if err != nil {
			return false, false
		}
		if out[0].Cmp(a) == 0 && out[1].Cmp(b) == 0 {
			return true, false
		}
		if out[0].Cmp(b) == 0 && out[1].Cmp(a) == 0 {
			return true, true
		}
		return false, false
	}
	bi := func(x uint64) *big.Int { return new(big.Int).SetUint64(x) }
	switch {
	case strings.HasSuffix(c.name, "bits.nBits"):
		c.kind = HNBits
	case nin == 3 && nout == 2:
		a, b, d := bi(1<<40+3), bi(1<<50+5), bi(7)
		s := new(big.Int).Mul(a, b)
		s.Add(s, d)
		q, r := new(big.Int).DivMod(s, P, new(big.Int))
		if ok, sw := is([]*big.Int{a, b, d}, q, r); ok {
			c.kind, c.swap = HMulAdd, sw
		}
	case nin == 1 && nout == 2:
		x := bi(3<<32 + 9)
		if ok, sw := is([]*big.Int{x}, bi(3), bi(9)); ok {
			c.kind, c.swap = HSplit, sw
		} else {
			y := new(big.Int).Mul(P, bi(7))
			y.Add(y, bi(11))
			if ok, sw := is([]*big.Int{y}, bi(7), bi(11)); ok {
				c.kind, c.swap = HReduce, sw
			}
		}
	case nin == 1 && nout == 1:
		out, err := callHint(f, []*big.Int{bi(3)}, 1)
		if err == nil && out[0].Cmp(new(big.Int).ModInverse(bi(3), P)) == 0 {
			c.kind = HInverse
		}
	}
	classes.Store(key, c)
	return c
}

// Classify tells what a hint function computes, and whether its two outputs
// are in the opposite of the usual order.
func Classify(f solver.Hint, nin, nout int) (HintKind, bool) {
	c := classify(f, nin, nout)
	return c.kind, c.swap
}

var mask32 = new(big.Int).SetUint64(1<<32 - 1)

// Total answers a request of a known kind with the mathematically right
// values, whatever the inputs.
func Total(ev *HintEvent) []*big.Int {
	switch ev.Kind {
	case HMulAdd:
		s := new(big.Int).Mul(ev.In[0], ev.In[1])
		s.Add(s, ev.In[2])
		q, r := new(big.Int).DivMod(s, P, new(big.Int))
		return []*big.Int{q, r}
	case HReduce:
		q, r := new(big.Int).DivMod(ev.In[0], P, new(big.Int))
		return []*big.Int{q, r}
	case HInverse:
		x := new(big.Int).Mod(ev.In[0], P)
		if x.Sign() == 0 {
			return []*big.Int{x}
		}
		return []*big.Int{x.ModInverse(x, P)}
	case HSplit:
		hi := new(big.Int).Rsh(ev.In[0], 32)
		lo := new(big.Int).And(ev.In[0], mask32)
		return []*big.Int{hi, lo}
	case HNBits:
		out := make([]*big.Int, ev.NOut)
		for i := range out {
			out[i] = new(big.Int).SetUint64(uint64(ev.In[0].Bit(i)))
		}
		return out
	}
	return nil
}

func (e *Engine) NewHint(f solver.Hint, nbOutputs int, inputs ...frontend.Variable) ([]frontend.Variable, error) {
	if e.Step != nil {
		e.Step()
	}
	if nbOutputs <= 0 {
		return nil, fmt.Errorf("hint function must return at least one output")
	}
	cl := classify(f, len(inputs), nbOutputs)
	ev := &HintEvent{Idx: e.NHint, KIdx: e.KindN[cl.kind], Kind: cl.kind, NOut: nbOutputs}
	e.NHint++
	e.KindN[cl.kind]++
	ev.In = make([]*big.Int, len(inputs))
	for i, v := range inputs {
		ev.In[i] = e.get(v).Big()
	}
	var out []*big.Int
	swap := false
	if e.Adv != nil {
		if out = e.Adv(ev); out != nil {
			swap = cl.swap
		}
	}
	if out == nil && !e.Honest {
		if out = Total(ev); out != nil {
			swap = cl.swap
		}
	}
	if out == nil {
		var err error
		out, err = callHint(f, ev.In, nbOutputs)
		if err != nil {
			e.HintPanics++
			if e.Honest {
				e.fail("hint: " + err.Error())
			}
			for i := range out {
				out[i] = new(big.Int)
			}
		}
		if e.Perturb != nil && cl.kind == HUnknown {
			out = e.Perturb(ev, out)
		}
	}
	if len(out) != nbOutputs {
		panic(fmt.Sprintf("monitor: hint %s wants %d outputs, got %d", cl.name, nbOutputs, len(out)))
	}
	if swap && len(out) == 2 {
		out[0], out[1] = out[1], out[0]
	}
	res := make([]frontend.Variable, nbOutputs)
	for i := range res {
		v := &Val{}
		if out[i] != nil {
			v.E.SetBigInt(out[i])
		}
		res[i] = v
	}
	return res, nil
}

// Constant converts what circuits may use as a constant.
func Constant(v frontend.Variable) fr.Element { return (*Engine)(nil).get(v).E }
