// Package rec is a builder that only records: what it is asked to constrain
// is hashed in order, linear combinations are represented by their value at a
// pseudo-random point, so that two compilations have the same record exactly
// if they ask for the same constraints on the same linear combinations in the
// same order.
package rec

import (
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"hash"
	"math/big"

	"vharness/eng"

	"crypto/sha256"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark/constraint"
	"github.com/consensys/gnark/constraint/solver"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/frontend/cs/r1cs"
	"github.com/consensys/gnark/frontend/schema"
	"github.com/consensys/gnark/std/math/bits"
)

// V is a linear combination.
type V struct {
	E fr.Element
	C bool // constant
}

type kv interface {
	SetKeyValue(k, v any)
	GetKeyValue(k any) any
}

// B is the builder.
type B struct {
	frontend.Builder // for the callbacks; never constrained
	self             frontend.Builder
	kv               kv
	h                hash.Hash
	buf              []byte
	n                uint64 // variables
	N                int    // requests recorded
	Kinds            map[string]int
	marked           map[fr.Element]bool
	ins              map[*eng.Val]*V // inputs in order of their first use
}

// Modes as in package bridge.
const (
	Bits   = "bits"
	Native = "native"
	Commit = "commit"
)

type native struct{ *B }

func (n native) Check(v frontend.Variable, w int) { n.rec(fmt.Sprintf("check%d", w), 0, v) }

type committing struct{ *B }

func (c committing) Commit(v ...frontend.Variable) (frontend.Variable, error) {
	return c.rec("commit", 1, v...)[0], nil
}

// New makes a builder for frontend.Compile and stores it in *b.
func New(mode string, b **B) frontend.NewBuilder {
	return func(field *big.Int, cfg frontend.CompileConfig) (frontend.Builder, error) {
		inner, err := r1cs.NewBuilder(field, cfg)
		if err != nil {
			return nil, err
		}
		h := sha256.New()
		x := &B{Builder: inner, kv: inner.(kv), h: h, Kinds: map[string]int{}, marked: map[fr.Element]bool{}, ins: map[*eng.Val]*V{}}
		switch mode {
		case Native:
			x.self = &native{x}
		case Commit:
			x.self = &committing{x}
		default:
			x.self = x
		}
		*b = x
		return x.self, nil
	}
}

// splitmix.
func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ x>>30) * 0xbf58476d1ce4e5b9
	x = (x ^ x>>27) * 0x94d049bb133111eb
	return x ^ x>>31
}

func (b *B) fresh() *V {
	b.n++
	v := &V{}
	for i := 0; i < 4; i++ {
		v.E[i] = mix(b.n*4 + uint64(i))
	}
	v.E[3] >>= 4 // below the modulus
	return v
}

func (b *B) val(v frontend.Variable) V {
	switch x := v.(type) {
	case *V:
		return *x
	case *eng.Val:
		if x.C {
			return V{E: x.E, C: true}
		}
		if _, ok := b.ins[x]; !ok {
			b.ins[x] = b.rec("input", 1)[0].(*V)
		}
		return *b.ins[x]
	case nil:
		panic("nil variable")
	}
	return V{E: eng.Constant(v), C: true}
}

func (b *B) rec(op string, n int, in ...frontend.Variable) (o []frontend.Variable) {
	b.N++
	b.Kinds[op]++
	buf := b.buf[:0]
	buf = append(buf, op...)
	buf = append(buf, 0, byte(n), byte(len(in)))
	for _, v := range in {
		x := b.val(v)
		for i := range x.E {
			buf = binary.LittleEndian.AppendUint64(buf, x.E[i])
		}
		if x.C {
			buf = append(buf, 1)
		} else {
			buf = append(buf, 0)
		}
	}
	b.h.Write(buf)
	b.buf = buf
	for i := 0; i < n; i++ {
		o = append(o, b.fresh())
	}
	return
}

// Digest of what was recorded.
func (b *B) Digest() string {
	return fmt.Sprintf("%d requests, %d variables, %s", b.N, b.n, hex.EncodeToString(b.h.Sum(nil)[:12]))
}

func (b *B) input(kind string, l schema.LeafInfo) frontend.Variable {
	b.h.Write([]byte(l.FullName()))
	return b.rec(kind, 1)[0]
}
func (b *B) PublicVariable(l schema.LeafInfo) frontend.Variable {
	return b.input("public", l)
}
func (b *B) SecretVariable(l schema.LeafInfo) frontend.Variable {
	return b.input("secret", l)
}

func (b *B) Add(x, y frontend.Variable, in ...frontend.Variable) frontend.Variable {
	r := b.val(x)
	for _, v := range append([]frontend.Variable{y}, in...) {
		t := b.val(v)
		r.E.Add(&r.E, &t.E)
		r.C = r.C && t.C
	}
	return &r
}
func (b *B) Neg(x frontend.Variable) frontend.Variable {
	r := b.val(x)
	r.E.Neg(&r.E)
	return &r
}
func (b *B) Sub(x, y frontend.Variable, in ...frontend.Variable) frontend.Variable {
	r := b.val(x)
	for _, v := range append([]frontend.Variable{y}, in...) {
		t := b.val(v)
		r.E.Sub(&r.E, &t.E)
		r.C = r.C && t.C
	}
	return &r
}
func (b *B) mul(x, y V) V {
	if x.C || y.C {
		x.E.Mul(&x.E, &y.E)
		x.C = x.C && y.C
		return x
	}
	return *b.rec("mul", 1, &x, &y)[0].(*V)
}
func (b *B) Mul(x, y frontend.Variable, in ...frontend.Variable) frontend.Variable {
	r := b.mul(b.val(x), b.val(y))
	for _, v := range in {
		r = b.mul(r, b.val(v))
	}
	return &r
}
func (b *B) MulAcc(x, y, z frontend.Variable) frontend.Variable {
	p := b.mul(b.val(y), b.val(z))
	return b.Add(x, &p)
}
func (b *B) two(op string, x, y frontend.Variable) frontend.Variable {
	return b.rec(op, 1, x, y)[0]
}
func (b *B) DivUnchecked(x, y frontend.Variable) frontend.Variable { return b.two("divu", x, y) }
func (b *B) Div(x, y frontend.Variable) frontend.Variable          { return b.two("div", x, y) }
func (b *B) Inverse(x frontend.Variable) frontend.Variable         { return b.rec("inverse", 1, x)[0] }
func (b *B) ToBinary(x frontend.Variable, n ...int) []frontend.Variable {
	k := eng.R.BitLen()
	if len(n) == 1 {
		if k = n[0]; k < 0 {
			panic("invalid n")
		}
	}
	return b.rec(fmt.Sprintf("bits%d", k), k, x)
}
func (b *B) FromBinary(x ...frontend.Variable) frontend.Variable {
	return bits.FromBinary(b.self, x)
}
func (b *B) Xor(x, y frontend.Variable) frontend.Variable { return b.two("xor", x, y) }
func (b *B) Or(x, y frontend.Variable) frontend.Variable  { return b.two("or", x, y) }
func (b *B) And(x, y frontend.Variable) frontend.Variable { return b.two("and", x, y) }
func (b *B) Select(x, y, z frontend.Variable) frontend.Variable {
	return b.rec("select", 1, x, y, z)[0]
}
func (b *B) Lookup2(b0, b1 frontend.Variable, i0, i1, i2, i3 frontend.Variable) frontend.Variable {
	return b.rec("lookup2", 1, b0, b1, i0, i1, i2, i3)[0]
}
func (b *B) IsZero(x frontend.Variable) frontend.Variable { return b.rec("iszero", 1, x)[0] }
func (b *B) Cmp(x, y frontend.Variable) frontend.Variable { return b.two("cmp", x, y) }
func (b *B) AssertIsEqual(x, y frontend.Variable) {
	p, q := b.val(x), b.val(y)
	if p.C && q.C && !p.E.Equal(&q.E) {
		panic("constants differ")
	}
	b.rec("eq", 0, x, y)
}
func (b *B) AssertIsDifferent(x, y frontend.Variable)      { b.rec("ne", 0, x, y) }
func (b *B) AssertIsBoolean(x frontend.Variable)           { b.rec("bool", 0, x) }
func (b *B) AssertIsLessOrEqual(x, y frontend.Variable)    { b.rec("le", 0, x, y) }
func (b *B) Println(x ...frontend.Variable)                {}
func (b *B) Compiler() frontend.Compiler                   { return b.self }
func (b *B) MarkBoolean(x frontend.Variable)               { b.marked[b.val(x).E] = true }
func (b *B) SetKeyValue(k, v any)                          { b.kv.SetKeyValue(k, v) }
func (b *B) GetKeyValue(k any) any                         { return b.kv.GetKeyValue(k) }
func (b *B) Compile() (constraint.ConstraintSystem, error) { return nil, nil }
func (b *B) IsBoolean(x frontend.Variable) bool {
	v := b.val(x)
	return v.C && (v.E.IsZero() || v.E.IsOne()) || b.marked[v.E]
}
func (b *B) NewHint(f solver.Hint, n int, in ...frontend.Variable) ([]frontend.Variable, error) {
	return b.rec("hint "+solver.GetHintName(f), n, in...), nil
}
func (b *B) NewHintForId(id solver.HintID, n int, in ...frontend.Variable) ([]frontend.Variable, error) {
	return b.rec(fmt.Sprint("hint ", id), n, in...), nil
}
func (b *B) ConstantValue(x frontend.Variable) (*big.Int, bool) {
	v := b.val(x)
	if !v.C {
		return nil, false
	}
	return v.E.BigInt(new(big.Int)), true
}
func (b *B) ToCanonicalVariable(x frontend.Variable) frontend.CanonicalVariable {
	panic("not supported")
}
func (b *B) MustBeLessOrEqCst(x []frontend.Variable, bound *big.Int, d frontend.Variable) {
	b.rec("lecst "+bound.String(), 0, x...)
}
