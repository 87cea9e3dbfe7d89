// C20: the constraint systems that gnark's real builders compile from the code
// accept exactly what direct execution accepts.
package main

import (
	"crypto/sha256"
	"fmt"
	"math/big"
	"math/rand"
	"strings"

	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"

	"vharness/adapt"
	"vharness/bridge"
	"vharness/chk"
	"vharness/e2e"
	"vharness/eng"
	"vharness/prover"
	"vharness/ref"
	"vharness/wl"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark/constraint"
	"github.com/consensys/gnark/constraint/solver"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/frontend/cs/r1cs"
	"github.com/consensys/gnark/frontend/cs/scs"
	"github.com/consensys/gnark/logger"
	"github.com/succinctlabs/gnark-plonky2-verifier/challenger"
	"github.com/succinctlabs/gnark-plonky2-verifier/types"
	"github.com/succinctlabs/gnark-plonky2-verifier/variables"
	"github.com/succinctlabs/gnark-plonky2-verifier/verifier"
)

func main() {
	chk.Main(chk.Opt{ID: "C20", Level: "exploration",
		Rule:        "one evaluation = one solution attempt, by gnark's solver with the registered hints, of a constraint system (R1CS or SCS) compiled by gnark's builder from the real code without knowledge of the values: with the reference outputs (must be solved), with another value of one output, with inputs that must be refused, with an invalid proof (must not be solved), or with a dishonest answer to one request (same verdict as the monitor); distinct = program x builder x range check path x form of the operands x attempt",
		Assumptions: []string{"gnark's builders and solvers do what they specify", "in mode 'free' range checks are not compiled (they are in modes 'bits', 'native' and 'commit')"},
		Need:        []string{"solved:r1cs/free:", "solved:scs/free:", "solved:r1cs/bits:", "solved:scs/bits:", "solved:r1cs/native:", "solved:r1cs/free/linear:", "solved:scs/free/linear:", "refused:r1cs/free:output", "refused:scs/free:output", "refused:r1cs/bits:input", "proof:r1cs/free", "proof:scs/free", "agree:", "commit:"}}, run)
}

func compile(o bridge.Opt, j wl.Job, room int) (*bridge.Sys, []*big.Int, error) {
	var want []*big.Int
	for _, w := range j.Want {
		if w != nil {
			want = append(want, w)
		}
	}
	prog := func(api frontend.API) (out []frontend.Variable) {
		for i, v := range j.Prog(api) {
			if !j.Reject && i < len(j.Want) && j.Want[i] != nil {
				out = append(out, v)
			}
		}
		return
	}
	if j.Reject {
		want = nil
	}
	for {
		s, err := bridge.Compile(o, prog, room, len(want))
		if err != nil && strings.Contains(err.Error(), "more inputs than announced") {
			room *= 4
			continue
		}
		return s, want, err
	}
}

func job(t *chk.T, o bridge.Opt, j wl.Job) bool {
	if o.Mode == bridge.Free && strings.HasPrefix(j.Name, "reduce_big_over") {
		return true // a matter of range checks
	}
	s, want, err := compile(o, j, 64)
	if err != nil {
		if j.Reject {
			t.OK("refused:" + o.String() + ":input:" + j.Name)
			return true
		}
		t.Fail("%s [%s]: does not compile: %v; in: %s", j.Name, o, err, j.In)
		return false
	}
	t.C.Stat("constraints", s.CS.GetNbConstraints())
	t.C.Stat("compilations", 1)
	split := func(int) *big.Int { return new(big.Int).Rand(t.R, eng.R) }
	g := s.Guard()
	err = s.Solve(s.Ins, want, split, g...)
	if j.Reject {
		if err == nil {
			t.Fail("%s [%s]: the constraint system is satisfied, must be refused; in: %s", j.Name, o, j.In)
			return false
		}
		t.OK("refused:" + o.String() + ":input:" + j.Name)
		return true
	}
	if err != nil {
		t.Fail("%s [%s]: the constraint system is not solved with the right outputs %v: %v; in: %s", j.Name, o, want, err, j.In)
		return false
	}
	t.OK("solved:" + o.String() + ":" + j.Name)
	for k := 0; k < 2 && len(want) > 0; k++ {
		i := t.R.Intn(len(want))
		if k == 1 {
			i = len(want) - 1
		}
		bad := append([]*big.Int(nil), want...)
		d := []*big.Int{big.NewInt(1), big.NewInt(-1), eng.P, p32, new(big.Int).Rand(t.R, eng.R)}[t.R.Intn(5)]
		bad[i] = new(big.Int).Add(bad[i], d)
		bad[i].Mod(bad[i], eng.R)
		if bad[i].Cmp(want[i]) == 0 {
			continue
		}
		if err := s.Solve(s.Ins, bad, split, g...); err == nil {
			t.Fail("%s [%s]: output %d: %v accepted instead of %v; in: %s", j.Name, o, i, bad[i], want[i], j.In)
			return false
		}
		t.OK("refused:" + o.String() + ":output:" + j.Name)
	}
	return true
}

var p32 = new(big.Int).Lsh(big.NewInt(1), 32)

var cheap = []bridge.Opt{{Mode: bridge.Free}, {Mode: bridge.Free, SCS: true}, {Mode: bridge.Free, Linear: true}, {Mode: bridge.Free, SCS: true, Linear: true}}
var dear = []bridge.Opt{{Mode: bridge.Bits}, {Mode: bridge.Bits, SCS: true}, {Mode: bridge.Native}, {Mode: bridge.Native, SCS: true}, {Mode: bridge.Bits, Linear: true}}

func exts(t *chk.T, n int) (o []ref.Ext) {
	for i := 0; i < n; i++ {
		o = append(o, wl.Ext(t.R))
	}
	return
}

func mask(t *chk.T) uint {
	switch t.R.Intn(3) {
	case 0:
		return 0
	case 1:
		return ^uint(0)
	}
	return uint(t.R.Uint32())
}

func elem(t *chk.T) (e fr.Element) {
	if t.R.Intn(4) == 0 {
		e.SetUint64(wl.Pick(t.R))
	} else {
		e.SetBigInt(new(big.Int).Rand(t.R, eng.R))
	}
	return
}

// jobs draws one instance of every kind of program but the gates.
func jobs(t *chk.T) (o []wl.Job) {
	for i := range wl.BaseOps {
		op := &wl.BaseOps[i]
		x := make([]uint64, op.Arity)
		for k := range x {
			x[k] = wl.Pick(t.R)
		}
		o = append(o, wl.BaseJob(op, x, mask(t)))
	}
	for i := range wl.ExtOps {
		op := &wl.ExtOps[i]
		x := exts(t, op.Arity)
		if strings.HasPrefix(op.Name, "asserteqx") && op.Arity == 2 && t.R.Intn(2) == 0 {
			x[1] = x[0]
		}
		if t.R.Intn(8) == 0 {
			x[op.Arity-1] = ref.Ext{}
		}
		o = append(o, wl.ExtJob(op, x, mask(t)))
	}
	for _, b := range []int{0, 64, 100, 128, 144} {
		n := b
		if n == 0 {
			n = 144
		}
		q := new(big.Int).Rand(t.R, new(big.Int).Lsh(big.NewInt(1), uint(n)))
		o = append(o, wl.ReduceJob(q.Add(q.Mul(q, eng.P), wl.B(wl.Pick(t.R))), b))
		q = new(big.Int).Lsh(big.NewInt(1), uint(n))
		o = append(o, wl.ReduceJob(q.Add(q.Mul(q, eng.P), wl.B(wl.Pick(t.R))), b))
	}
	for i := 0; i < 3; i++ {
		o = append(o, wl.ExpJob(wl.Ext(t.R), t.R.Uint64()>>uint(t.R.Intn(64)), t.R.Intn(3) == 0))
		o = append(o, wl.PowersJob(exts(t, 1+t.R.Intn(12)), wl.Ext(t.R), t.R.Intn(3) == 0))
		var ab [][2]ref.Ext
		for k := t.R.Intn(9); k >= 0; k-- {
			ab = append(ab, [2]ref.Ext{wl.Ext(t.R), wl.Ext(t.R)})
		}
		o = append(o, wl.InnerJob(wl.Pick(t.R), wl.Ext(t.R), ab, t.R.Intn(3) == 0))
		o = append(o, wl.InterpJob(t.R, 1+t.R.Intn(8)))
	}
	return
}

// hashes draws the hash programs.
func hashes(t *chk.T) (o []wl.Job) {
	var s [12]uint64
	for i := range s {
		s[i] = wl.Pick(t.R)
	}
	o = append(o, wl.GLPermJob(s, mask(t)))
	in := make([]uint64, t.R.Intn(20))
	for i := range in {
		in[i] = wl.Pick(t.R)
	}
	o = append(o, wl.GLHashJob(in, 1+t.R.Intn(13), uint64(mask(t))))
	var bi []*big.Int
	for range in {
		bi = append(bi, new(big.Int).Rand(t.R, new(big.Int).Lsh(eng.P, 143)))
	}
	o = append(o, wl.GLNoPadJob(bi))
	var b [4]fr.Element
	for i := range b {
		b[i] = elem(t)
	}
	o = append(o, wl.BNPermJob(b, int(mask(t)&15)), wl.BNNodeJob(b[0], b[1]), wl.BNVecJob(b[2]))
	leaf := make([]fr.Element, t.R.Intn(30))
	for i := range leaf {
		leaf[i].SetUint64(wl.Pick(t.R))
	}
	o = append(o, wl.BNLeafJob(leaf, false, uint64(mask(t))), wl.BNLeafJob(leaf, true, uint64(mask(t))))
	return
}

func history(t *chk.T) wl.Job {
	ops := wl.GenHist(t.R, 1+t.R.Intn(4))
	ops = append(ops, wl.HistOp{Kind: "get"})
	var rc ref.Challenger
	var want []*big.Int
	for _, o := range ops {
		want = append(want, wl.Bs(wl.RefHist(&rc, o)...)...)
	}
	return wl.Job{Name: "history", In: wl.HistShape(ops), Want: want, Prog: func(api frontend.API) (out []frontend.Variable) {
		ch := challenger.NewChip(api)
		for _, o := range ops {
			for _, v := range wl.RealHist(ch, o) {
				out = append(out, v.Limb)
			}
		}
		return
	}}
}

func run(c *chk.Check) {
	logger.Disable()
	f := 1
	if c.Thorough {
		f = 20
	}
	for k := 0; k < 2*f; k++ {
		c.Case(fmt.Sprintf("commit/%d", k), func(t *chk.T) { commit(t, k) })
	}
	for k := 8*f - 1; k >= 0; k-- {
		c.Case(fmt.Sprintf("hash/%d", k), func(t *chk.T) {
			for i, j := range append(hashes(t), history(t), history(t)) {
				for _, o := range cheap {
					job(t, o, j)
				}
				if i == 2+k || c.Thorough && i > 1 {
					job(t, dear[(i+k)%len(dear)], j)
				}
			}
		})
	}
	for k := 0; c.Thorough && k < 4; k++ {
		c.Case(fmt.Sprintf("proof/bits/%d", k), func(t *chk.T) { proofs(t, bridge.Opt{Mode: bridge.Bits, SCS: k%2 == 1}, k) })
	}
	for k := 0; k < 5*f; k++ {
		for i, o := range cheap {
			c.Case(fmt.Sprintf("proof/free/%d/%d", k, i), func(t *chk.T) { proofs(t, o, k) })
		}
	}
	for k := 0; k < 10*f; k++ {
		c.Case(fmt.Sprintf("ops/%d", k), func(t *chk.T) {
			for i, j := range jobs(t) {
				for _, o := range cheap {
					job(t, o, j)
				}
				job(t, dear[(i+k)%len(dear)], j)
			}
		})
		c.Case(fmt.Sprintf("agree/%d", k), func(t *chk.T) { agree(t) })
	}
	for i, g := range wl.AllGates(c.Thorough) {
		if !c.Thorough && g.NumWires() > 200 {
			continue
		}
		c.Case(fmt.Sprintf("gate/%s", g.ID()), func(t *chk.T) {
			for k, o := range cheap {
				if !c.Thorough && (i+k)%2 == 0 {
					continue
				}
				cs, ws, h := wl.GateRow(t.R, g, t.R.Intn(6))
				job(t, o, wl.GateJob(g.ID(), g, cs, ws, h, k == 0))
			}
			if g.NumWires() <= 24 || c.Thorough {
				cs, ws, h := wl.GateRow(t.R, g, t.R.Intn(6))
				job(t, dear[i%len(dear)], wl.GateJob(g.ID(), g, cs, ws, h, i%2 == 0))
			}
		})
	}
}

// proofs: one system for all proofs of a circuit; a valid proof solves it, an
// invalid one does not.
func proofs(t *chk.T, o bridge.Opt, k int) {
	ps := e2e.Random(t.R)
	if o.Mode == bridge.Bits || k%4 == 0 {
		ps = e2e.Small()
		ps.Queries, ps.NumPI = 1, t.R.Intn(3)
		if o.Mode == bridge.Bits {
			ps.Gates = []ref.Gate{ref.NoopGate{}, ref.ArithmeticGate{1}}
			ps.NumWires, ps.NumRouted, ps.NumChallenges, ps.Copies, ps.PowBits = 4, 4, 1, 2, 3
			ps.DegreeBits, ps.RateBits, ps.Arity, ps.NumPI = 2, 2, nil, 1
		}
	}
	ci := prover.Build(ps, t.R.Int63())
	const room = 30000
	// wires of a proof in the order of its conversion
	wires := func(p *ref.Proof) (pr variables.Proof, pis []gl.Variable, vd variables.VerifierOnlyCircuitData, vals []*eng.Val) {
		pr, pis, vd = adapt.Proof(p, func(e *fr.Element) frontend.Variable {
			v := &eng.Val{E: *e}
			vals = append(vals, v)
			return v
		})
		return
	}
	good := ci.Prove(nil)
	e2e.Must(ci.C, good)
	pr, pis, vd, vals := wires(good)
	s, err := bridge.Compile(o, func(api frontend.API) []frontend.Variable {
		verifier.NewVerifierChip(api, adapt.Common(ci.C)).Verify(pr, pis, vd)
		return nil
	}, room, 0)
	if err != nil {
		t.Fail("[%s] does not compile: %v; %s", o, err, e2e.Key(ci.C))
		return
	}
	t.C.Stat("constraints", s.CS.GetNbConstraints())
	t.C.Stat("compilations", 1)
	idx := map[*eng.Val]int{}
	for i, v := range vals {
		idx[v] = i
	}
	for _, v := range s.Ins {
		if _, ok := idx[v]; !ok {
			panic("an input that is not of the proof")
		}
	}
	g := s.Guard()
	split := func(int) *big.Int { return new(big.Int).Rand(t.R, eng.R) }
	if err := s.Solve(s.Ins, nil, split, g...); err != nil {
		t.Fail("[%s] a valid proof does not satisfy the constraint system: %v; %s", o, err, e2e.Key(ci.C))
		return
	}
	t.OK("proof:" + o.String() + ":valid:" + e2e.Key(ci.C))
	try := func(what string, p *ref.Proof) bool {
		f := ref.Verify(ci.C, p)
		if o.Mode == bridge.Free && len(f) > 0 && rangeOnly(f) {
			return true
		}
		_, _, _, w := wires(p)
		if len(w) != len(vals) {
			panic("another shape")
		}
		var ins []*eng.Val
		for _, v := range s.Ins {
			ins = append(ins, w[idx[v]])
		}
		err := s.Solve(ins, nil, split, g...)
		if (err == nil) != (len(f) == 0) {
			t.Fail("[%s] %s: solver says %v, plonky2's verifier fails %v; %s", o, what, err, f, e2e.Key(ci.C))
			return false
		}
		t.OK(fmt.Sprintf("proof:%s:%s:%v", o, what, len(f) == 0))
		return true
	}
	n := 4
	if o.Mode == bridge.Bits {
		n = 1
	}
	// the same system for another valid proof
	if !try("other", ci.Prove(&prover.Cheat{Rng: t.R})) {
		return
	}
	// another circuit of the same description
	c2 := prover.Build(ps, t.R.Int63())
	if fmt.Sprint(adapt.Common(c2.C)) == fmt.Sprint(adapt.Common(ci.C)) {
		if !try("key", c2.Prove(nil)) {
			return
		}
	}
	nm, cs := e2e.Cheats(t, ci)
	for _, i := range t.R.Perm(len(cs))[:min(n, len(cs))] {
		if !try(nm[i], ci.Prove(cs[i])) {
			return
		}
	}
	nm, ps2 := e2e.Posts(t, ci.C, good)
	for _, i := range t.R.Perm(len(ps2))[:min(n, len(ps2))] {
		if !try(nm[i], ps2[i]) {
			return
		}
	}
}

// rangeOnly: nothing but range checks can refuse it.
func rangeOnly(f ref.Fails) bool {
	for _, x := range f {
		if !strings.HasPrefix(x, "pow") && !strings.HasPrefix(x, "canon") {
			return false
		}
	}
	return true
}

// full is a user's circuit: everything of a proof is a witness.
type full struct {
	P  variables.Proof
	V  variables.VerifierOnlyCircuitData
	PI []gl.Variable `gnark:",public"`
	// not part of the circuit
	Common types.CommonCircuitData `gnark:"-"`
}

func (c *full) Define(api frontend.API) error {
	verifier.NewVerifierChip(api, c.Common).Verify(c.P, c.PI, c.V)
	return nil
}

func fullOf(c *ref.Common, p *ref.Proof) *full {
	pr, pis, vd := adapt.Proof(p, adapt.Const)
	return &full{P: pr, V: vd, PI: pis, Common: adapt.Common(c)}
}

// commit: the builders as they are, with range checks collected, committed to
// and done at the end.
func commit(t *chk.T, k int) {
	ps := e2e.Small()
	ps.NumPI, ps.PowBits, ps.Queries = 20, 0, 1
	ci := prover.Build(ps, t.R.Int63())
	p := ci.Prove(nil)
	e2e.Must(ci.C, p)
	mk := r1cs.NewBuilder
	name := "r1cs"
	if k%2 == 1 {
		mk, name = scs.NewBuilder, "scs"
	}
	cs, err := frontend.Compile(eng.R, mk, fullOf(ci.C, p))
	if err != nil {
		t.Fail("[%s/commit] does not compile: %v; %s", name, err, e2e.Key(ci.C))
		return
	}
	t.C.Stat("constraints", cs.GetNbConstraints())
	t.C.Stat("compilations", 1)
	// the commitment, as a backend would make it: any value that depends on
	// the committed values and is unpredictable
	opts := func() (o []solver.Option) {
		switch ci := cs.GetCommitments().(type) {
		case constraint.Groth16Commitments:
			for i := range ci {
				o = append(o, solver.OverrideHint(ci[i].HintID, hash))
			}
		case constraint.PlonkCommitments:
			for i := range ci {
				o = append(o, solver.OverrideHint(ci[i].HintID, hash))
			}
		}
		for _, f := range solver.GetRegisteredHints() {
			if strings.Contains(solver.GetHintName(f), "gnark-plonky2-verifier") {
				o = append(o, solver.OverrideHint(solver.GetHintID(f), func(m *big.Int, in, out []*big.Int) (err error) {
					defer func() {
						if r := recover(); r != nil {
							err = fmt.Errorf("hint panic: %v", r)
						}
					}()
					return f(m, in, out)
				}))
			}
		}
		return
	}()
	try := func(what string, p *ref.Proof) bool {
		f := ref.Verify(ci.C, p)
		w, err := frontend.NewWitness(fullOf(ci.C, p), eng.R)
		if err != nil {
			panic(err)
		}
		_, err = cs.Solve(w, opts...)
		if (err == nil) != (len(f) == 0) {
			t.Fail("[%s/commit] %s: solver says %v, plonky2's verifier fails %v; %s", name, what, err, f, e2e.Key(ci.C))
			return false
		}
		t.OK(fmt.Sprintf("commit:%s:%s:%v", name, what, len(f) == 0))
		return true
	}
	if !try("valid", p) {
		return
	}
	n := 2
	nm, ch := e2e.Cheats(t, ci)
	for _, i := range t.R.Perm(len(ch))[:n] {
		if !try(nm[i], ci.Prove(ch[i])) {
			return
		}
	}
	nm, ps2 := e2e.Posts(t, ci.C, p)
	for _, i := range t.R.Perm(len(ps2))[:n] {
		if !try(nm[i], ps2[i]) {
			return
		}
	}
}

func hash(m *big.Int, in, out []*big.Int) error {
	h := sha256.New()
	for _, x := range in {
		h.Write(x.Bytes())
		h.Write([]byte{1})
	}
	out[0].SetBytes(h.Sum(nil))
	out[0].Mod(out[0], m)
	return nil
}

// agree: a dishonest answer to one request leads to the same verdict on the
// compiled system as in the monitor.
func agree(t *chk.T) {
	js := jobs(t)
	js = append(js, hashes(t)[2:]...)
	for n := 0; n < 10; n++ {
		j := js[t.R.Intn(len(js))]
		if len(j.Want) > 8 && t.R.Intn(4) > 0 {
			continue
		}
		var evs []*eng.HintEvent
		e := wl.Engine("bits")
		e.Honest = false
		e.Adv = func(ev *eng.HintEvent) []*big.Int {
			if ev.Kind != eng.HUnknown {
				evs = append(evs, ev)
			}
			return nil
		}
		e.Run(func(api frontend.API) error { j.Prog(api); return nil })
		if len(evs) == 0 {
			continue
		}
		tg := evs[t.R.Intn(len(evs))]
		seed := t.R.Int63()
		as := wl.Alternatives(tg, rand.New(rand.NewSource(seed)))
		if len(as) == 0 {
			continue
		}
		k := t.R.Intn(len(as))
		same := func(kind eng.HintKind, in []*big.Int, nout int) bool {
			if kind != tg.Kind || len(in) != len(tg.In) || nout != tg.NOut {
				return false
			}
			for i := range in {
				if new(big.Int).Mod(in[i], eng.R).Cmp(tg.In[i]) != 0 {
					return false
				}
			}
			return true
		}
		// monitor
		e = wl.Engine("bits")
		e.Honest = false
		e.Adv = func(ev *eng.HintEvent) []*big.Int {
			if same(ev.Kind, ev.In, ev.NOut) {
				return as[k]
			}
			return nil
		}
		verdict := true
		res := e.Run(func(api frontend.API) error {
			for i, v := range j.Prog(api) {
				if !j.Reject && j.Want[i] != nil && e.Get(v).Cmp(j.Want[i]) != 0 {
					verdict = false
				}
			}
			return nil
		})
		verdict = verdict && res.Accepted
		// solver
		o := bridge.Opt{Mode: bridge.Bits, SCS: n%2 == 1}
		s, want, err := compile(o, j, 64)
		if err != nil {
			if verdict {
				t.Fail("%s [%s]: does not compile: %v, but the monitor accepts; in: %s", j.Name, o, err, j.In)
				return
			}
			continue
		}
		var opts []solver.Option
		for id, f := range s.Hints() {
			opts = append(opts, solver.OverrideHint(id, func(m *big.Int, in, out []*big.Int) (err error) {
				defer func() {
					if r := recover(); r != nil {
						err = fmt.Errorf("hint panic: %v", r)
					}
				}()
				kind, swap := eng.Classify(f, len(in), len(out))
				var ans []*big.Int
				if same(kind, in, len(out)) {
					ans = as[k]
				} else {
					ans = eng.Total(&eng.HintEvent{Kind: kind, In: in, NOut: len(out)})
				}
				if ans == nil {
					return f(m, in, out)
				}
				for i := range out {
					x := i
					if swap && len(out) == 2 {
						x = 1 - i
					}
					out[i].Set(ans[x])
				}
				return nil
			}))
		}
		err = s.Solve(s.Ins, want, nil, opts...)
		if (err == nil) != verdict {
			t.Fail("%s [%s]: request %s%v answered %v: solver says %v, monitor %v %s; in: %s", j.Name, o, tg.Kind, tg.In, as[k], err, verdict, res, j.In)
			return
		}
		t.OK(fmt.Sprintf("agree:%s:%s:%s:%d:%v", o, j.Name, tg.Kind, k, verdict))
	}
}
