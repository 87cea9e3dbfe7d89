// C19: compiling the same description always gives the same constraint system
// and solving it the same solution.
package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"os/exec"
	"reflect"
	"sort"
	"strings"
	"sync"

	"vharness/rec"

	"vharness/adapt"
	"vharness/bridge"
	"vharness/chk"
	"vharness/e2e"
	"vharness/eng"
	"vharness/prover"
	"vharness/ref"
	"vharness/wl"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark/constraint"
	"github.com/consensys/gnark/constraint/solver"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/frontend/cs/r1cs"
	"github.com/consensys/gnark/frontend/cs/scs"
	"github.com/consensys/gnark/logger"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
	"github.com/succinctlabs/gnark-plonky2-verifier/types"
	"github.com/succinctlabs/gnark-plonky2-verifier/variables"
	"github.com/succinctlabs/gnark-plonky2-verifier/verifier"
)

func main() {
	if s := os.Getenv("VERIF_C19_CHILD"); s != "" {
		child(s)
		return
	}
	chk.Main(chk.Opt{ID: "C19", Level: "exploration",
		Rule:        "one evaluation = one compilation by gnark's builder whose serialised constraint system (constraints, variables, hints, levels, commitments) was compared with the one of the first compilation of the same description, or one solution compared with the first solution of the same witness; distinct = description x builder x what differed (repetition, template, copy of the description, compilations before or meanwhile, process)",
		Assumptions: []string{"gnark's builders, serialisation and solver are deterministic (the gadgets alone are compared as well)", "in mode 'free' range checks are not compiled (they are in 'commit')"},
		Need:        []string{"same:r1cs/free:repeat", "same:scs/free:repeat", "same:r1cs/free:template", "same:scs/free:template", "same:r1cs/free:concurrent", "same:r1cs/free:after", "same:r1cs/free:process", "same:scs/free:process", "same:r1cs/commit:", "same:scs/commit:", "same:example:", "gadget:", "solution:"}}, run)
}

// full is a user's circuit: everything of a proof is a witness.
type full struct {
	P  variables.Proof
	V  variables.VerifierOnlyCircuitData
	PI []gl.Variable `gnark:",public"`
	// not part of the circuit
	Common types.CommonCircuitData `gnark:"-"`
}

func (c *full) Define(api frontend.API) error {
	verifier.NewVerifierChip(api, c.Common).Verify(c.P, c.PI, c.V)
	return nil
}

func fullOf(c *ref.Common, p *ref.Proof, m adapt.Mk) *full {
	pr, pis, vd := adapt.Proof(p, m)
	return &full{P: pr, V: vd, PI: pis, Common: adapt.Common(c)}
}

// templates of the same shape.
var templates = []struct {
	name string
	mk   func(r *rand.Rand) adapt.Mk
}{
	{"values", func(*rand.Rand) adapt.Mk { return adapt.Const }},
	{"nil", func(*rand.Rand) adapt.Mk { return func(*fr.Element) frontend.Variable { return nil } }},
	{"zero", func(*rand.Rand) adapt.Mk { return func(*fr.Element) frontend.Variable { return 0 } }},
	{"uint64", func(*rand.Rand) adapt.Mk { return func(e *fr.Element) frontend.Variable { return e.Uint64() } }},
	{"random", func(r *rand.Rand) adapt.Mk {
		return func(*fr.Element) frontend.Variable { return new(big.Int).Rand(r, eng.R) }
	}},
	{"same", func(r *rand.Rand) adapt.Mk {
		v := new(big.Int).Rand(r, eng.R)
		return func(*fr.Element) frontend.Variable { return v }
	}},
}

type build struct {
	scs    bool
	commit bool
	rec    string // not a builder of gnark: the recorder, in this mode
}

func (b build) String() string {
	if b.rec != "" {
		return "record/" + b.rec
	}
	s := "r1cs"
	if b.scs {
		s = "scs"
	}
	if b.commit {
		return s + "/commit"
	}
	return s + "/free"
}

func digest(cs constraint.ConstraintSystem) string {
	h := sha256.New()
	n, err := cs.WriteTo(h)
	if err != nil {
		panic(err)
	}
	return fmt.Sprintf("%d constraints, %d+%d+%d variables, %d coefficients, %d bytes, %s", cs.GetNbConstraints(), cs.GetNbPublicVariables(), cs.GetNbSecretVariables(), cs.GetNbInternalVariables(), cs.GetNbCoefficients(), n, hex.EncodeToString(h.Sum(nil)[:12]))
}

// compiled is what a compilation gave.
type compiled struct {
	cs constraint.ConstraintSystem
	r  *rec.B
	d  string
	n  int
}

func compile(b build, c frontend.Circuit) (o *compiled, err error) {
	defer func() {
		if r := recover(); r != nil {
			o, err = nil, fmt.Errorf("panic: %v", r)
		}
	}()
	o = &compiled{}
	var nb frontend.NewBuilder
	switch {
	case b.rec != "":
		nb = rec.New(b.rec, &o.r)
	case b.commit && b.scs:
		nb = scs.NewBuilder
	case b.commit:
		nb = r1cs.NewBuilder
	default:
		nb = bridge.NewBuilder(bridge.Opt{SCS: b.scs, Mode: bridge.Free}, nil)
	}
	o.cs, err = frontend.Compile(eng.R, nb, c, frontend.IgnoreUnconstrainedInputs())
	if err != nil {
		return nil, err
	}
	if b.rec != "" {
		o.d, o.n = o.r.Digest(), o.r.N
	} else {
		o.d, o.n = digest(o.cs), o.cs.GetNbConstraints()
	}
	return o, nil
}

// where tells where two systems differ.
func where(a, b *compiled) string {
	if a.r != nil {
		var o []string
		for k, n := range a.r.Kinds {
			if b.r.Kinds[k] != n {
				o = append(o, fmt.Sprintf("%s: %d/%d", k, n, b.r.Kinds[k]))
			}
		}
		sort.Strings(o)
		if len(o) == 0 {
			return "as many requests of each kind, in another order or on other values"
		}
		return strings.Join(o, ", ")
	}
	x, ok := a.cs.(constraint.R1CS)
	y, _ := b.cs.(constraint.R1CS)
	if !ok {
		return ""
	}
	p, q := x.GetR1Cs(), y.GetR1Cs()
	for i := 0; i < len(p) && i < len(q); i++ {
		if !reflect.DeepEqual(p[i], q[i]) {
			return fmt.Sprintf("first difference at constraint %d of %d/%d: %s | %s", i, len(p), len(q), p[i].String(x), q[i].String(y))
		}
	}
	return ""
}

type sys struct {
	b   build
	key string
	*compiled
}

func first(t *chk.T, b build, key string, c frontend.Circuit) *sys {
	o, err := compile(b, c)
	if err != nil {
		t.Fail("[%s] does not compile: %v; %s", b, err, key)
		return nil
	}
	t.C.Stat(stat(b), o.n)
	return &sys{b, key, o}
}

func stat(b build) string {
	if b.rec != "" {
		return "requests recorded"
	}
	return "constraints"
}

// same compiles again and compares.
func (s *sys) same(t *chk.T, what string, c frontend.Circuit) bool {
	o, err := compile(s.b, c)
	if err != nil {
		t.Fail("[%s] %s: compiled before, does not compile now: %v; %s", s.b, what, err, s.key)
		return false
	}
	t.C.Stat(stat(s.b), o.n)
	if o.d != s.d {
		t.Fail("[%s] %s: another constraint system: %s, before %s; %s; %s", s.b, what, o.d, s.d, where(s.compiled, o), s.key)
		return false
	}
	t.OK("same:" + s.b.String() + ":" + what + ":" + s.key)
	return true
}

func params(r *rand.Rand, k int) prover.Params {
	switch {
	case k == 0:
		ps := e2e.Small()
		ps.Queries = 1
		return ps
	case k == 1: // many kinds of gates
		ps := e2e.Small()
		ps.Gates = nil
		seen := map[string]bool{}
		for _, g := range wl.AllGates(false) {
			n := strings.FieldsFunc(g.ID(), func(r rune) bool { return !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z') })[0]
			if g.NumWires() <= 60 && g.Degree() <= 7 && !seen[n] {
				seen[n] = true
				ps.Gates = append(ps.Gates, g)
			}
		}
		ps.QDF, ps.NumWires, ps.NumRouted, ps.Queries, ps.NumChallenges = 8, 64, 16, 1, 1
		return ps
	}
	return e2e.Random(r)
}

func run(c *chk.Check) {
	logger.Disable()
	f := 1
	if c.Thorough {
		f = 12
	}
	for k := 0; k < f; k++ {
		c.Case(fmt.Sprintf("commit/%d", k), func(t *chk.T) { commit(t, k) })
	}
	for k := 0; k < f; k++ {
		c.Case(fmt.Sprintf("process/%d", k), func(t *chk.T) { process(t, k) })
	}
	for _, d := range []string{"decode_block", "step"} {
		c.Case("actual/"+d, func(t *chk.T) { actual(t, d, 2*f) })
	}
	for k := 0; k < 2*f; k++ {
		c.Case(fmt.Sprintf("circuit/%d", k), func(t *chk.T) { circuit(t, tiny(t.R), []build{{scs: k%2 == 1}}, 1) })
	}
	for k := 0; k < 16*f; k++ {
		c.Case(fmt.Sprintf("record/%d", k), func(t *chk.T) {
			ps, b, reps := params(t.R, k), build{rec: rec.Native}, 2
			switch {
			case k < 2:
				reps = 24
			case k%5 == 3 && (k == 3 || t.C.Thorough):
				ps, b.rec = committed(), rec.Commit
				ps.PowBits = k % 2 * 16
				ps.NumPI = t.R.Intn(8)
			case k%8 == 7 && t.C.Thorough:
				ps, b.rec, reps = tiny(t.R), rec.Bits, 1
			}
			circuit(t, ps, []build{b}, reps)
		})
	}
	for k := 0; k < 4*f; k++ {
		c.Case(fmt.Sprintf("example/%d", k), func(t *chk.T) { example(t, k) })
	}
	for i, g := range wl.AllGates(c.Thorough) {
		if !c.Thorough && i%2 == 1 && g.NumWires() > 40 {
			continue
		}
		c.Case("gadget/"+g.ID(), func(t *chk.T) {
			cs, ws, h := wl.GateRow(t.R, g, t.R.Intn(6))
			gadget(t, build{scs: t.R.Intn(2) == 1}, wl.GateJob(g.ID(), g, cs, ws, h, false))
		})
	}
	for k := 0; k < 2*f; k++ {
		c.Case(fmt.Sprintf("gadget/%d", k), func(t *chk.T) {
			for i, j := range ops(t) {
				gadget(t, build{scs: (i+k)%2 == 1}, j)
			}
		})
	}
}

func ops(t *chk.T) (o []wl.Job) {
	for i := range wl.BaseOps {
		op := &wl.BaseOps[i]
		x := make([]uint64, op.Arity)
		for k := range x {
			x[k] = wl.Pick(t.R)
		}
		o = append(o, wl.BaseJob(op, x, 0))
	}
	for i := range wl.ExtOps {
		op := &wl.ExtOps[i]
		var x []ref.Ext
		for len(x) < op.Arity {
			x = append(x, wl.Ext(t.R))
		}
		o = append(o, wl.ExtJob(op, x, 0))
	}
	var s [12]uint64
	in := make([]uint64, t.R.Intn(20))
	for i := range in {
		in[i] = wl.Pick(t.R)
	}
	var b [4]fr.Element
	for i := range b {
		b[i].SetBigInt(new(big.Int).Rand(t.R, eng.R))
	}
	leaf := make([]fr.Element, t.R.Intn(30))
	o = append(o, wl.GLPermJob(s, 0), wl.GLHashJob(in, 1+t.R.Intn(13), 0), wl.BNPermJob(b, 0), wl.BNNodeJob(b[0], b[1]), wl.BNVecJob(b[2]),
		wl.BNLeafJob(leaf, false, 0), wl.BNLeafJob(leaf, true, 0), wl.InterpJob(t.R, 1+t.R.Intn(6)), wl.ExpJob(wl.Ext(t.R), t.R.Uint64(), false))
	return
}

// gadgetCircuit is a program as a circuit.
type gadgetCircuit struct {
	In frontend.Variable
	f  func(api frontend.API)
}

func (c *gadgetCircuit) Define(api frontend.API) error { c.f(api); return nil }

// gadget records a program many times, and compiles it a few times.
func gadget(t *chk.T, b build, j wl.Job) {
	if j.Reject {
		return
	}
	var s0 *compiled
	check := func(k int, b build, o *compiled, err error) bool {
		if err != nil {
			t.Fail("%s [%s]: does not compile: %v; in: %s", j.Name, b, err, j.In)
			return false
		}
		t.C.Stat(stat(b), o.n)
		if k == 0 {
			s0 = o
			return true
		}
		if o.d != s0.d {
			t.Fail("%s [%s]: compilation %d gives another constraint system: %s, before %s; %s", j.Name, b, k, o.d, s0.d, where(s0, o))
			return false
		}
		t.OK("gadget:" + b.String() + ":" + j.Name)
		return true
	}
	for k := 0; k < 2; k++ {
		var o *compiled
		s, err := bridge.Compile(bridge.Opt{SCS: b.scs, Mode: bridge.Free}, func(api frontend.API) []frontend.Variable { j.Prog(api); return nil }, 4096, 0)
		if err == nil {
			o = &compiled{cs: s.CS, d: digest(s.CS), n: s.CS.GetNbConstraints()}
		}
		if !check(k, b, o, err) {
			return
		}
	}
	b = build{rec: []string{rec.Native, rec.Bits}[t.R.Intn(2)]}
	n := max(3, min(30, 100000/(1+s0.n)))
	if n < 10 {
		b.rec = rec.Native
	}
	for k := 0; k < n; k++ {
		o, err := compile(b, &gadgetCircuit{f: func(api frontend.API) { j.Prog(api) }})
		if !check(k, b, o, err) {
			return
		}
	}
}

// circuit: one description in one process.
func circuit(t *chk.T, ps prover.Params, bs []build, reps int) {
	ci := prover.Build(ps, t.R.Int63())
	p := ci.Prove(nil)
	e2e.Must(ci.C, p)
	p2 := ci.Prove(&prover.Cheat{Rng: t.R})
	key := e2e.Key(ci.C)
	other := prover.Build(e2e.Random(t.R), t.R.Int63())
	po := other.Prove(nil)
	for _, b := range bs {
		s := first(t, b, key, fullOf(ci.C, p, adapt.Const))
		if s == nil {
			return
		}
		for i := 0; i < reps; i++ {
			if !s.same(t, "repeat", fullOf(ci.C, p, adapt.Const)) {
				return
			}
		}
		// the very same circuit value, already used as a template
		one := fullOf(ci.C, p, adapt.Const)
		for i := 0; i < 2 && b.rec != ""; i++ {
			if !s.same(t, "reuse", one) {
				return
			}
		}
		tps := t.R.Perm(len(templates))
		if b.rec == "" {
			tps = tps[:1]
		}
		for _, i := range tps {
			q, tp := p, templates[i]
			if t.R.Intn(2) == 0 {
				q = p2
			}
			if !s.same(t, "template:"+tp.name, fullOf(ci.C, q, tp.mk(t.R))) {
				return
			}
		}
		// after other compilations: of another circuit, of one that fails,
		// of a run that is not a compilation at all
		ob := build{rec: []string{rec.Native, rec.Commit}[t.R.Intn(2)]}
		if b.rec == "" && t.R.Intn(2) == 0 {
			ob = build{scs: t.R.Intn(2) == 0}
		}
		compile(ob, fullOf(other.C, po, adapt.Const))
		if !s.same(t, "after:other", fullOf(ci.C, p, adapt.Const)) {
			return
		}
		bad := fullOf(ci.C, p, adapt.Const)
		switch t.R.Intn(3) {
		case 0:
			bad.P.OpeningProof.QueryRoundProofs[0].InitialTreesProof.EvalsProofs = bad.P.OpeningProof.QueryRoundProofs[0].InitialTreesProof.EvalsProofs[:3]
		case 1:
			bad.P.Openings.QuotientPolys = bad.P.Openings.QuotientPolys[:1]
		case 2:
			bad.P.OpeningProof.FinalPoly.Coeffs = nil
		}
		if _, err := compile(b, bad); err == nil {
			t.Fail("[%s] a malformed template compiles; %s", b, key)
			return
		}
		if b.rec != "" {
			e2e.Run(ci.C, p2, e2e.Opt{Mode: "bits"})
		}
		if !s.same(t, "after:failed", fullOf(ci.C, p, adapt.Const)) {
			return
		}
		// meanwhile
		var wg sync.WaitGroup
		for i := 0; i < 3; i++ {
			if i == 1 && b.rec == "" {
				continue
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				if i == 2 {
					compile(ob, fullOf(other.C, po, adapt.Const))
					return
				}
				s.same(t, "concurrent", fullOf(ci.C, p, adapt.Const))
			}()
		}
		wg.Wait()
		if b.rec == "" && !solutions(t, s, ci.C, p, guard()) {
			return
		}
	}
}

// actual: the circuits in testdata.
func actual(t *chk.T, dir string, n int) {
	c, p, err := adapt.LoadReal("/repo/testdata/" + dir)
	if err != nil {
		panic(err)
	}
	b := build{rec: rec.Commit}
	s := first(t, b, dir, fullOf(c, p, adapt.Const))
	if s == nil {
		return
	}
	for i := 0; i < n; i++ {
		tp := templates[t.R.Intn(len(templates))]
		if !s.same(t, "actual:"+tp.name, fullOf(c, p, tp.mk(t.R))) {
			return
		}
	}
}

// solutions: the same witness has the same solution.
func solutions(t *chk.T, s *sys, c *ref.Common, p *ref.Proof, opts []solver.Option) bool {
	w, err := frontend.NewWitness(fullOf(c, p, adapt.Const), eng.R)
	if err != nil {
		panic(err)
	}
	var d string
	for i := 0; i < 4; i++ {
		sol, err := s.cs.Solve(w, opts...)
		if err != nil {
			t.Fail("[%s] solution %d of a valid proof: %v; %s", s.b, i, err, s.key)
			return false
		}
		var buf bytes.Buffer
		h := sha256.New()
		solWrite(sol, &buf)
		h.Write(buf.Bytes())
		x := hex.EncodeToString(h.Sum(nil)[:12])
		if i == 0 {
			d = x
			continue
		}
		if x != d {
			t.Fail("[%s] the same witness has another solution at attempt %d; %s", s.b, i, s.key)
			return false
		}
		t.OK(fmt.Sprintf("solution:%s:%s", s.b, s.key))
	}
	return true
}

// solWrite writes all vectors of a solution.
func solWrite(sol any, w *bytes.Buffer) {
	v := reflect.Indirect(reflect.ValueOf(sol))
	n := 0
	for i := 0; i < v.NumField(); i++ {
		if x, ok := v.Field(i).Interface().(fr.Vector); ok {
			n += len(x)
			for k := range x {
				b := x[k].Bytes()
				w.Write(b[:])
			}
		}
	}
	if n == 0 {
		panic("nothing in a solution")
	}
}

// example is the circuit of the repository: the proof is part of its
// description, the values of the public inputs are not.
func example(t *chk.T, k int) {
	ps := params(t.R, k)
	b := []build{{}, {scs: true}, {rec: rec.Native}}[k%3]
	if b.rec == "" {
		ps = tiny(t.R)
	}
	if ps.NumPI == 0 {
		ps.NumPI = 3
	}
	ci := prover.Build(ps, t.R.Int63())
	p := ci.Prove(nil)
	e2e.Must(ci.C, p)
	mk := func(tp adapt.Mk) *verifier.ExampleVerifierCircuit {
		pr, pis, vd := adapt.Proof(p, adapt.Const)
		for i := range pis {
			pis[i] = gl.NewVariable(tp(&p.PIs[i]))
		}
		return &verifier.ExampleVerifierCircuit{PublicInputs: pis, Proof: pr, VerifierOnlyCircuitData: vd, CommonCircuitData: adapt.Common(ci.C)}
	}
	s := first(t, b, e2e.Key(ci.C), mk(adapt.Const))
	if s == nil {
		return
	}
	for _, tp := range templates {
		if b.rec == "" && t.R.Intn(3) > 0 {
			continue
		}
		o, err := compile(b, mk(tp.mk(t.R)))
		if err != nil {
			t.Fail("[%s] example, public inputs %s: %v; %s", b, tp.name, err, s.key)
			return
		}
		if o.d != s.d {
			t.Fail("[%s] example, public inputs %s: another constraint system: %s, before %s; %s; %s", b, tp.name, o.d, s.d, where(s.compiled, o), s.key)
			return
		}
		t.OK("same:example:" + b.String() + ":" + tp.name)
	}
	if b.rec != "" {
		return
	}
	// it is solved by the public inputs of the proof only
	for i := 0; i < 2; i++ {
		a := mk(adapt.Const)
		if i == 1 {
			k := t.R.Intn(len(a.PublicInputs))
			v := a.PublicInputs[k].Limb.(*big.Int)
			a.PublicInputs[k] = gl.NewVariable(new(big.Int).Mod(new(big.Int).Add(v, big.NewInt(1)), eng.P))
		}
		w, err := frontend.NewWitness(a, eng.R)
		if err != nil {
			panic(err)
		}
		_, err = func() (x any, err error) {
			defer func() {
				if r := recover(); r != nil {
					err = fmt.Errorf("panic: %v", r)
				}
			}()
			return s.cs.Solve(w, guard()...)
		}()
		if (err == nil) != (i == 0) {
			t.Fail("[%s] example, right public inputs %v: solver says %v; %s", b, i == 0, err, s.key)
			return
		}
		t.OK(fmt.Sprintf("solution:example:%s:%v", b, i == 0))
	}
}

// guard makes panics of the repository's hints errors.
func guard() (o []solver.Option) {
	for _, f := range solver.GetRegisteredHints() {
		if strings.Contains(solver.GetHintName(f), "gnark-plonky2-verifier") {
			o = append(o, solver.OverrideHint(solver.GetHintID(f), func(m *big.Int, in, out []*big.Int) (err error) {
				defer func() {
					if r := recover(); r != nil {
						err = fmt.Errorf("hint panic: %v", r)
					}
				}()
				return f(m, in, out)
			}))
		}
	}
	return
}

// job of a child process: the descriptions drawn from a seed, compiled with
// builds in an order, after other compilations.
type job struct {
	Seed   int64
	N      int
	Commit bool
	Before int
	Rev    bool
}

type item struct {
	key string
	b   build
	mk  func(adapt.Mk) *full
}

func (j job) items() (o []item) {
	r := rand.New(rand.NewSource(j.Seed))
	for k := 0; k < j.N; k++ {
		ps := params(r, k)
		bs := []build{{rec: rec.Native}}
		if k == 0 {
			ps = tiny(r)
			bs = append(bs, build{}, build{scs: true})
		}
		if j.Commit {
			ps = committed()
			bs = []build{{commit: true, scs: k%2 == 1}}
		}
		ci := prover.Build(ps, r.Int63())
		p := ci.Prove(nil)
		e2e.Must(ci.C, p)
		for _, b := range bs {
			o = append(o, item{fmt.Sprint(k, "/", b, "/", e2e.Key(ci.C)), b, func(m adapt.Mk) *full { return fullOf(ci.C, p, m) }})
		}
	}
	return
}

// child compiles in another process and prints the digests.
func child(s string) {
	logger.Disable()
	out := os.Stdout
	os.Stdout, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	var j job
	if err := json.Unmarshal([]byte(s), &j); err != nil {
		panic(err)
	}
	for i := 0; i < j.Before; i++ {
		r := rand.New(rand.NewSource(int64(i)))
		o := prover.Build(e2e.Random(r), r.Int63())
		compile(build{rec: []string{rec.Commit, rec.Native}[i%2]}, fullOf(o.C, o.Prove(nil), adapt.Const))
	}
	res := map[string]string{}
	is := j.items()
	if j.Rev {
		for a, b := 0, len(is)-1; a < b; a, b = a+1, b-1 {
			is[a], is[b] = is[b], is[a]
		}
	}
	for _, x := range is {
		o, err := compile(x.b, x.mk(adapt.Const))
		if err != nil {
			res[x.key] = err.Error()
			continue
		}
		res[x.key] = o.d
	}
	json.NewEncoder(out).Encode(res)
}

func committed() prover.Params {
	ps := e2e.Small()
	ps.NumPI, ps.PowBits, ps.Queries = 20, 0, 1
	return ps
}

func tiny(r *rand.Rand) prover.Params {
	ps := e2e.Small()
	ps.Queries, ps.NumPI = 1, 1+r.Intn(3)
	ps.Gates = []ref.Gate{ref.NoopGate{}, ref.ArithmeticGate{Ops: 1}}
	ps.NumWires, ps.NumRouted, ps.NumChallenges, ps.Copies, ps.PowBits = 4, 4, 1+r.Intn(2), 2, 3
	ps.DegreeBits, ps.RateBits, ps.Arity = 2, 2, nil
	return ps
}

func spawn(j job, env ...string) (map[string]string, error) {
	b, _ := json.Marshal(j)
	exe, err := os.Executable()
	if err != nil {
		return nil, err
	}
	cmd := exec.Command(exe)
	cmd.Env = append(append(os.Environ(), env...), "VERIF_C19_CHILD="+string(b))
	cmd.Dir = "/"
	var e bytes.Buffer
	cmd.Stderr = &e
	o, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("%v: %.500s", err, e.String())
	}
	var res map[string]string
	return res, json.Unmarshal(o, &res)
}

var envs = [][]string{{}, {"GOMAXPROCS=1"}, {"GOMAXPROCS=3", "GOGC=20", "TZ=Asia/Tokyo"}, {"LANG=tr_TR.UTF-8", "HOME=/nonexistent", "GODEBUG=randautoseed=0"}}

func process(t *chk.T, k int) {
	j := job{Seed: t.R.Int63(), N: 3}
	want := map[string]string{}
	for _, x := range j.items() {
		s := first(t, x.b, x.key, x.mk(adapt.Const))
		if s == nil {
			return
		}
		want[x.key] = s.d
	}
	for i, e := range envs {
		j.Before, j.Rev = i%3, i%2 == 1
		j.compare(t, want, e)
	}
}

func (j job) compare(t *chk.T, want map[string]string, env []string) {
	res, err := spawn(j, env...)
	if err != nil {
		panic(err)
	}
	for _, x := range j.items() {
		if d := res[x.key]; d != want[x.key] {
			t.Fail("[%s] another process (%v, %d compilations before) gets another constraint system: %s, here %s; %s", x.b, env, j.Before, d, want[x.key], x.key)
			return
		}
		t.OK("same:" + x.b.String() + ":process:" + strings.Join(env, ","))
	}
}

// commit: the builders as they are.
func commit(t *chk.T, k int) {
	j := job{Seed: t.R.Int63(), N: 2, Commit: true}
	want := map[string]string{}
	for i, x := range j.items() {
		s := first(t, x.b, x.key, x.mk(adapt.Const))
		if s == nil {
			return
		}
		want[x.key] = s.d
		if !s.same(t, "repeat", x.mk(adapt.Const)) {
			return
		}
		if i == k%2 || t.C.Thorough {
			tp := templates[t.R.Intn(len(templates))]
			if !s.same(t, "template:"+tp.name, x.mk(tp.mk(t.R))) {
				return
			}
		}
	}
	j.compare(t, want, nil)
}
