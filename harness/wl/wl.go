// Package wl holds workload generators and the adversarial prover shared by
// the checks.
package wl

import (
	"fmt"
	"math/big"
	"math/rand"

	"vharness/chk"
	"vharness/eng"
	"vharness/ref"

	"github.com/consensys/gnark/frontend"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
)

// Edge are the canonical boundary values.
var Edge = []uint64{0, 1, 2, 3, 7, 1<<16 - 1, 1 << 16, 1<<31 - 1, 1 << 31, 1<<32 - 2, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<48 - 1, 1 << 48, 1<<63 - 1, 1 << 63, 1<<63 + 1,
	0xfffffffe00000000, 0xfffffffeffffffff, 0xffffffff00000000, 0xfffffffefffffffe, 0xfffffffeffffffff - 1<<32, 1753635133440165772, 0x7fffffff80000000, 0x7fffffff80000001}

// Core is a shorter list for higher arities.
var Core = []uint64{0, 1, 2, 1<<32 - 1, 1 << 32, 1 << 63, ref.P - 1, ref.P - 2}

// B makes a big integer.
func B(x uint64) *big.Int { return new(big.Int).SetUint64(x) }

// Bs makes big integers.
func Bs(x ...uint64) []*big.Int {
	o := make([]*big.Int, len(x))
	for i := range x {
		o[i] = B(x[i])
	}
	return o
}

// Modes are the range checking configurations the monitor engine can offer
// without a minimum workload.
var Modes = []string{"native", "bits"}

// Engine makes an engine.
func Engine(mode string) *eng.Engine {
	switch mode {
	case "native":
		return eng.NewNative()
	case "bits":
		e := eng.NewBits()
		e.Faith = true
		return e
	case "commit":
		return eng.NewCommit()
	}
	panic(mode)
}

// Pick chooses a boundary biased canonical value.
func Pick(r *rand.Rand) uint64 {
	if r.Intn(3) == 0 {
		return Edge[r.Intn(len(Edge))]
	}
	return ref.Rnd(r)
}

// Ext chooses an extension element, often degenerate.
func Ext(r *rand.Rand) ref.Ext {
	switch r.Intn(6) {
	case 0:
		return ref.Ext{Pick(r), 0}
	case 1:
		return ref.Ext{0, Pick(r)}
	}
	return ref.Ext{Pick(r), Pick(r)}
}

// In makes a limb, constant or variable.
func In(x uint64, constant bool) gl.Variable {
	if constant {
		return gl.NewVariable(x)
	}
	return gl.NewVariable(eng.U(x))
}

// InX makes an extension element.
func InX(x ref.Ext, constant bool) gl.QuadraticExtensionVariable {
	return gl.QuadraticExtensionVariable{In(x[0], constant), In(x[1], constant)}
}

// Prog is a program of the code under test: it returns the outputs.
type Prog func(api frontend.API) []frontend.Variable

// Job is a program with what it must compute.
type Job struct {
	Name string // kind of situation
	Prog Prog
	Want []*big.Int
	// Reject: no prover may make the run be accepted.
	Reject bool
	// Inputs for messages
	In string
}

func show(x []*big.Int) string {
	s := ""
	for i, v := range x {
		if i == 6 {
			return s + "..."
		}
		s += v.String() + " "
	}
	return s
}

// Honest runs a job with the code's own hints and compares.
func Honest(t *chk.T, mode string, j Job) (*eng.Engine, bool) {
	e := Engine(mode)
	e.StopOnFail = true
	var out []*big.Int
	res := e.Run(func(api frontend.API) error {
		for _, v := range j.Prog(api) {
			out = append(out, e.Get(v))
		}
		return nil
	})
	t.C.Stat("assertions", e.NAssert)
	t.C.Stat("range_checks", e.NRange)
	t.C.Stat("hints", e.NHint)
	if j.Reject {
		if res.Accepted {
			t.Fail("%s [%s]: accepted, must be rejected; in: %s", j.Name, mode, j.In)
			return e, false
		}
		t.OK("honest:" + mode + ":" + j.Name)
		return e, true
	}
	if !res.Accepted {
		t.Fail("%s [%s]: not satisfiable by the honest prover: %s; in: %s", j.Name, mode, res, j.In)
		return e, false
	}
	if !Same(out, j.Want) {
		t.Fail("%s [%s]: computed %s want %s; in: %s", j.Name, mode, show(out), show(j.Want), j.In)
		return e, false
	}
	t.OK("honest:" + mode + ":" + j.Name)
	return e, true
}

// Same compares outputs.
func Same(a, b []*big.Int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if b[i] != nil && a[i].Cmp(b[i]) != 0 {
			return false
		}
	}
	return true
}

var (
	p32  = new(big.Int).Lsh(big.NewInt(1), 32)
	p64  = new(big.Int).Lsh(big.NewInt(1), 64)
	inv  = new(big.Int).ModInverse(eng.P, eng.R)
	i32  = new(big.Int).ModInverse(p32, eng.R)
	m32  = new(big.Int).Sub(p32, big.NewInt(1))
	topH = new(big.Int).SetUint64(0xffffffff)
)

func modR(x *big.Int) *big.Int { return new(big.Int).Mod(x, eng.R) }

// quot returns (s - r)/P in the native field.
func quot(s, r *big.Int) *big.Int {
	d := new(big.Int).Sub(s, r)
	d.Mul(d, inv)
	return modR(d)
}

// Alternatives lists dishonest answers to a hint request.
func Alternatives(ev *eng.HintEvent, r *rand.Rand) (o [][]*big.Int) {
	add := func(x ...*big.Int) {
		for i := range x {
			x[i] = modR(x[i])
		}
		o = append(o, x)
	}
	one := big.NewInt(1)
	switch ev.Kind {
	case eng.HMulAdd, eng.HReduce:
		s := new(big.Int)
		if ev.Kind == eng.HMulAdd {
			s.Mul(ev.In[0], ev.In[1])
			s.Add(s, ev.In[2])
		} else {
			s.Set(ev.In[0])
		}
		q, m := new(big.Int).DivMod(s, eng.P, new(big.Int))
		for _, k := range []int64{1, -1, 2, 1 << 32} {
			kk := big.NewInt(k)
			add(new(big.Int).Sub(q, kk), new(big.Int).Add(m, new(big.Int).Mul(kk, eng.P)))
		}
		add(new(big.Int), new(big.Int).Set(s))
		for _, x := range []*big.Int{new(big.Int), one, new(big.Int).Add(m, one), new(big.Int).Sub(eng.P, one), B(ref.Rnd(r)), new(big.Int).Sub(eng.R, one), new(big.Int).Lsh(one, 64)} {
			if x.Cmp(m) != 0 {
				add(quot(s, x), new(big.Int).Set(x))
			}
		}
		for _, x := range []*big.Int{new(big.Int).Add(q, one), B(r.Uint64()), new(big.Int).Lsh(one, 144)} {
			add(new(big.Int).Set(x), new(big.Int).Sub(s, new(big.Int).Mul(x, eng.P)))
		}
		// integers congruent to s modulo the native field
		for _, k := range []int64{1, 2, 3, -1} {
			t := new(big.Int).Add(modR(s), new(big.Int).Mul(big.NewInt(k), eng.R))
			if t.Sign() >= 0 {
				qq, mm := new(big.Int).DivMod(t, eng.P, new(big.Int))
				add(qq, mm)
			}
		}
		for _, n := range []uint{190, 191, 192, 200, 208, 224, 240, 252} {
			k := new(big.Int).Lsh(eng.P, n)
			k.Div(k, eng.R)
			if k.Sign() > 0 {
				k.Rand(r, k)
				t := k.Mul(k, eng.R)
				t.Add(t, modR(s))
				qq, mm := new(big.Int).DivMod(t, eng.P, new(big.Int))
				add(qq, mm)
			}
		}
		add(new(big.Int).Set(m), new(big.Int).Set(q))
	case eng.HInverse:
		x := new(big.Int).Mod(ev.In[0], eng.P)
		v := new(big.Int)
		if x.Sign() != 0 {
			v.ModInverse(x, eng.P)
		}
		add(new(big.Int).Add(v, eng.P))
		add(new(big.Int).Add(v, one))
		add(new(big.Int))
		add(big.NewInt(1))
		add(B(ref.Rnd(r)))
		if ev.In[0].Sign() != 0 {
			add(new(big.Int).ModInverse(ev.In[0], eng.R))
		}
		add(new(big.Int).Sub(eng.P, v))
	case eng.HSplit:
		o = append(o, splits(ev.In[0])...)
	case eng.HNBits:
		o = append(o, nbits(ev)...)
	}
	return
}

// perturb lists dishonest answers to a request of unknown kind, given the
// honest one.
func perturb(out []*big.Int, r *rand.Rand) (o [][]*big.Int) {
	d := []*big.Int{big.NewInt(1), big.NewInt(-1), eng.P, new(big.Int).Neg(eng.P), p32, new(big.Int).Lsh(big.NewInt(1), 64)}
	n := len(out)
	ch := func(f func(c []*big.Int)) {
		c := make([]*big.Int, n)
		for i := range c {
			c[i] = new(big.Int).Set(out[i])
		}
		f(c)
		for i := range c {
			c[i] = modR(c[i])
		}
		o = append(o, c)
	}
	pos := []int{0}
	if n > 1 {
		pos = append(pos, n-1, r.Intn(n))
	}
	for _, i := range pos {
		for _, x := range d {
			ch(func(c []*big.Int) { c[i].Add(c[i], x) })
		}
		ch(func(c []*big.Int) { c[i] = new(big.Int) })
		ch(func(c []*big.Int) { c[i] = B(ref.Rnd(r)) })
	}
	if n >= 2 {
		for _, m := range []*big.Int{eng.P, p32} {
			ch(func(c []*big.Int) { c[0].Sub(c[0], big.NewInt(1)); c[1].Add(c[1], m) })
			ch(func(c []*big.Int) { c[0].Add(c[0], m); c[1].Sub(c[1], big.NewInt(1)) })
		}
		ch(func(c []*big.Int) { c[0], c[1] = c[1], c[0] })
	}
	return
}

func splits(x *big.Int) (o [][]*big.Int) {
	add := func(hi, lo *big.Int) { o = append(o, []*big.Int{modR(hi), modR(lo)}) }
	hi := new(big.Int).Rsh(x, 32)
	lo := new(big.Int).And(x, m32)
	one := big.NewInt(1)
	add(new(big.Int).Sub(hi, one), new(big.Int).Add(lo, p32))
	add(new(big.Int).Add(hi, one), new(big.Int).Sub(lo, p32))
	add(new(big.Int), x)
	add(new(big.Int).Mul(x, i32), new(big.Int))
	add(new(big.Int).Set(topH), new(big.Int).Sub(x, new(big.Int).Mul(topH, p32)))
	add(new(big.Int).Set(topH), new(big.Int))
	add(new(big.Int).Mul(new(big.Int).Sub(x, one), i32), one)
	xr := new(big.Int).Add(x, eng.R)
	add(new(big.Int).Rsh(xr, 32), new(big.Int).And(xr, m32))
	add(lo, hi)
	return
}

func nbits(ev *eng.HintEvent) (o [][]*big.Int) {
	x := ev.In[0]
	bitsOf := func(v *big.Int) []*big.Int {
		b := make([]*big.Int, ev.NOut)
		for i := range b {
			b[i] = big.NewInt(int64(v.Bit(i)))
		}
		return b
	}
	xr := new(big.Int).Add(x, eng.R)
	if xr.BitLen() <= ev.NOut {
		o = append(o, bitsOf(xr))
	}
	// all in the first digit
	b := bitsOf(new(big.Int))
	b[0] = new(big.Int).Set(x)
	o = append(o, b)
	if ev.NOut > 1 {
		// borrow between digits
		b = bitsOf(x)
		b[0] = new(big.Int).Add(b[0], big.NewInt(2))
		b[1] = modR(new(big.Int).Sub(b[1], big.NewInt(1)))
		o = append(o, b)
		// the top digit takes what is left
		b = bitsOf(x)
		n := ev.NOut - 1
		lowm := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(n)), big.NewInt(1))
		rest := new(big.Int).Sub(x, new(big.Int).And(x, lowm))
		rest.Mul(rest, new(big.Int).ModInverse(new(big.Int).Lsh(big.NewInt(1), uint(n)), eng.R))
		b[n] = modR(rest)
		o = append(o, b)
	}
	b = bitsOf(x)
	b[0] = big.NewInt(int64(1 - x.Bit(0)))
	o = append(o, b)
	return
}

// NPolicies is the number of ways the adversary answers the requests that
// follow from an out-of-range value.
const NPolicies = 5

// policy answers a follow-up request about an out-of-range value.
func policy(k int, ev *eng.HintEvent) []*big.Int {
	if k == 0 {
		return nil
	}
	switch ev.Kind {
	case eng.HSplit:
		if ev.In[0].Cmp(eng.P) < 0 {
			return nil
		}
		s := splits(ev.In[0])
		return s[[]int{0, 2, 3, 4}[(k-1)%4]]
	case eng.HNBits:
		if ev.In[0].BitLen() <= ev.NOut {
			return nil
		}
		n := nbits(ev)
		return n[(k-1)%len(n)]
	}
	return nil
}

// Events runs the job with a total prover and records the requests.
func Events(mode string, j Job) (evs []eng.HintEvent, accepted bool) {
	e := Engine(mode)
	e.Honest = false
	e.Adv = func(ev *eng.HintEvent) []*big.Int {
		evs = append(evs, eng.HintEvent{Idx: ev.Idx, Kind: ev.Kind, NOut: ev.NOut})
		return nil
	}
	res := e.Run(func(api frontend.API) error { j.Prog(api); return nil })
	return evs, res.Accepted
}

// Attack lets an adversarial prover answer: at each chosen request every
// dishonest alternative, combined with the follow-up policies. maxEv bounds
// the number of attacked requests (chosen at random among all beyond that).
func Attack(t *chk.T, mode string, j Job, maxEv int) {
	evs, _ := Events(mode, j)
	idx := t.R.Perm(len(evs))
	if len(idx) > maxEv {
		// keep every kind represented
		seen := map[eng.HintKind]int{}
		var keep []int
		for _, i := range idx {
			if seen[evs[i].Kind] < maxEv/2+1 && len(keep) < maxEv {
				seen[evs[i].Kind]++
				keep = append(keep, i)
			}
		}
		idx = keep
	}
	attack(t, mode, j, evs, idx, -1)
}

// AttackPart attacks every request whose index is part modulo parts, with one
// follow-up policy.
func AttackPart(t *chk.T, mode string, j Job, part, parts, pol int) {
	evs, _ := Events(mode, j)
	var idx []int
	for i := part; i < len(evs); i += parts {
		idx = append(idx, i)
	}
	attack(t, mode, j, evs, idx, pol)
}

func attack(t *chk.T, mode string, j Job, evs []eng.HintEvent, idx []int, only int) {
	run := func(target, alt, pol int) (n int, ok bool) {
		e := Engine(mode)
		e.Honest = false
		e.StopOnFail = true
		n = 0
		seed := t.R.Int63()
		kind := eng.HUnknown
		e.Adv = func(ev *eng.HintEvent) []*big.Int {
			if ev.Idx == target {
				kind = ev.Kind
				as := Alternatives(ev, rand.New(rand.NewSource(seed)))
				n = len(as)
				if alt < n {
					return as[alt]
				}
				return nil
			}
			return policy(pol, ev)
		}
		e.Perturb = func(ev *eng.HintEvent, out []*big.Int) []*big.Int {
			if ev.Idx != target {
				return out
			}
			as := perturb(out, rand.New(rand.NewSource(seed)))
			n = len(as)
			if alt < n {
				return as[alt]
			}
			return out
		}
		var out []*big.Int
		res := e.Run(func(api frontend.API) error {
			for _, v := range j.Prog(api) {
				out = append(out, e.Get(v))
			}
			return nil
		})
		t.C.Stat("adversarial_runs", 1)
		if target >= 0 && alt >= n {
			return n, true
		}
		what := fmt.Sprintf("request %d (%s) alternative %d policy %d", target, kind, alt, pol)
		if res.Accepted {
			t.C.Stat("adversarial_accepted_same_result", 1)
			if j.Reject {
				t.Fail("%s [%s]: a dishonest prover gets it accepted: %s; in: %s", j.Name, mode, what, j.In)
				return n, false
			}
			if !Same(out, j.Want) {
				t.Fail("%s [%s]: a dishonest prover obtains %s instead of %s: %s; in: %s", j.Name, mode, show(out), show(j.Want), what, j.In)
				return n, false
			}
		}
		t.OK(fmt.Sprintf("attack:%s:%s:%s:%d:%d", mode, j.Name, kind, alt, pol))
		return n, true
	}
	for pol := 0; pol < NPolicies; pol++ {
		if only >= 0 && pol != only {
			continue
		}
		if _, ok := run(-1, 0, pol); !ok {
			return
		}
	}
	for _, i := range idx {
		k := evs[i].Kind
		pols := NPolicies
		if k == eng.HSplit || k == eng.HNBits {
			pols = 1
		}
		for pol := 0; pol < pols; pol++ {
			if only >= 0 && pol != only && (pols > 1 || pol > 0) {
				continue
			}
			for alt := 0; ; alt++ {
				n, ok := run(evs[i].Idx, alt, pol)
				if !ok {
					return
				}
				if alt+1 >= n {
					break
				}
			}
		}
	}
}

// HonestBatch runs many jobs in one engine (one chip), each compared; jobs
// that must be rejected run alone.
func HonestBatch(t *chk.T, mode string, js []Job) {
	var acc []Job
	for _, j := range js {
		if j.Reject {
			Honest(t, mode, j)
		} else {
			acc = append(acc, j)
		}
	}
	if len(acc) == 0 {
		return
	}
	e := Engine(mode)
	e.StopOnFail = true
	k := 0
	bad := ""
	res := e.Run(func(api frontend.API) error {
		for k = range acc {
			var out []*big.Int
			for _, v := range acc[k].Prog(api) {
				out = append(out, e.Get(v))
			}
			if !Same(out, acc[k].Want) {
				bad = fmt.Sprintf("computed %s want %s", show(out), show(acc[k].Want))
				return nil
			}
		}
		k = len(acc)
		return nil
	})
	t.C.Stat("assertions", e.NAssert)
	t.C.Stat("range_checks", e.NRange)
	t.C.Stat("hints", e.NHint)
	for i := 0; i < k && i < len(acc); i++ {
		t.OK("honest:" + mode + ":" + acc[i].Name)
	}
	if bad != "" {
		t.Fail("%s [%s]: %s; in: %s", acc[k].Name, mode, bad, acc[k].In)
	} else if !res.Accepted {
		in, name := "", "deferred"
		if k < len(acc) {
			in, name = acc[k].In, acc[k].Name
		}
		t.Fail("%s [%s]: not satisfiable by the honest prover: %s; in: %s", name, mode, res, in)
	}
}

// Policy answers a follow-up request about an out-of-range value; nil means
// the correct answer.
func Policy(k int, ev *eng.HintEvent) []*big.Int { return policy(k, ev) }
