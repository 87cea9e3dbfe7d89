// C18: circuits built at the same time, in the same process or in the same
// builder do not influence one another, and inputs are left as they were.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strings"
	"sync"

	"vharness/adapt"
	"vharness/chk"
	"vharness/e2e"
	"vharness/eng"
	"vharness/prover"
	"vharness/ref"
	"vharness/wl"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark/frontend"
	"github.com/succinctlabs/gnark-plonky2-verifier/challenger"
	"github.com/succinctlabs/gnark-plonky2-verifier/fri"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
	"github.com/succinctlabs/gnark-plonky2-verifier/plonk"
	"github.com/succinctlabs/gnark-plonky2-verifier/plonk/gates"
	"github.com/succinctlabs/gnark-plonky2-verifier/poseidon"
	"github.com/succinctlabs/gnark-plonky2-verifier/types"
	"github.com/succinctlabs/gnark-plonky2-verifier/variables"
	"github.com/succinctlabs/gnark-plonky2-verifier/verifier"
)

// main runs the check in a child process: unsynchronised maps end the process
// that uses them, which is an observation too.
func main() {
	if os.Getenv("C18_COLD") != "" {
		cold()
		return
	}
	do := run
	if os.Getenv("C18_CHILD") == "" {
		cmd := exec.Command(os.Args[0], os.Args[1:]...)
		cmd.Env = append(os.Environ(), "C18_CHILD=1")
		var out, errs bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &errs
		err := cmd.Run()
		at := strings.Index(errs.String(), "fatal error: concurrent map")
		if at < 0 {
			os.Stdout.Write(out.Bytes())
			os.Stderr.Write(errs.Bytes())
			if err != nil && cmd.ProcessState.ExitCode() != 1 {
				os.Exit(2)
			}
			os.Exit(cmd.ProcessState.ExitCode())
		}
		do = func(c *chk.Check) {
			c.Serial("process", func(t *chk.T) {
				t.Fail("concurrent use ends the process: %.1500s", errs.String()[at:])
			})
		}
	}
	chk.Main(chk.Opt{ID: "C18", Level: "exploration",
		Rule:        "one evaluation = one construction of a circuit (operation, hash, challenger, gate, whole verification; accepted or rejected) at the same time as others, under the race detector on free running goroutines or under a scheduler that switches at requests and assertions, whose verdict, outputs and numbers of constraints were compared with a run alone and with the reference; or one call whose inputs, with the memory behind them, were compared before and after; or one history of several verifications in a builder; distinct = kind of task x kind of concurrency, each interleaving by the hash of its switches",
		Assumptions: []string{"the race detector reports the races of the schedules that occurred"},
		Need:        []string{"stress:", "interleaved:", "schedule:", "isolated:", "shared:", "unchanged:", "history:", "repeat:", "cold:", "race:stress", "race:shared", "race:race"}}, do)
}

type task struct {
	name, mode string
	prog       func(api frontend.API) []frontend.Variable
	want       []*big.Int
	reject     bool
}

type sig struct {
	accepted, stopped bool
	out               []*big.Int
	counts            string
}

func (s sig) String() string {
	o := ""
	for i, x := range s.out {
		if i < 4 {
			o += x.String() + " "
		}
	}
	return fmt.Sprintf("accepted %v, %s, outputs %s", s.accepted, s.counts, o)
}

func (s sig) same(o sig) bool {
	return s.accepted == o.accepted && s.counts == o.counts && wl.Same(s.out, o.out)
}

// do runs a task on an engine of its own.
func (k *task) do(step func()) (s sig) {
	e := wl.Engine(k.mode)
	e.Honest = !k.reject
	e.Step = step
	res := e.Run(func(api frontend.API) error {
		for _, v := range k.prog(api) {
			s.out = append(s.out, e.Get(v))
		}
		return nil
	})
	s.accepted = res.Accepted
	s.stopped = res.Panic != ""
	s.counts = fmt.Sprintf("assertions %d checks %d %v requests %d deferred %d failed %d panic %q", e.NAssert, e.NRange, e.RangeBits, e.NHint, e.NDefer, e.NFails, res.Panic)
	return
}

// judge compares with the run alone and the reference.
func (k *task) judge(t *chk.T, s, solo sig, how string) bool {
	if s.accepted == k.reject {
		t.Fail("%s [%s] %s: must be %s; %s; alone: %s", k.name, k.mode, how, map[bool]string{true: "rejected", false: "accepted"}[k.reject], s, solo)
		return false
	}
	if !k.reject && k.want != nil && !wl.Same(s.out, k.want) {
		t.Fail("%s [%s] %s: wrong outputs: %s", k.name, k.mode, how, s)
		return false
	}
	if !s.same(solo) {
		t.Fail("%s [%s] %s: differs from the same task alone: %s; alone: %s", k.name, k.mode, how, s, solo)
		return false
	}
	return true
}

func job(mode string, js ...wl.Job) *task {
	k := &task{mode: mode, name: js[0].Name}
	for _, j := range js {
		k.want = append(k.want, j.Want...)
	}
	k.prog = func(api frontend.API) (o []frontend.Variable) {
		for _, j := range js {
			o = append(o, j.Prog(api)...)
		}
		return
	}
	return k
}

type circuit struct {
	c    *ref.Common
	cd   types.CommonCircuitData
	good []*ref.Proof
	bad  []*ref.Proof
}

var circuits []*circuit

func params(k int) prover.Params {
	p := e2e.Small()
	p.Queries = 1
	p.PowBits = 2
	switch k {
	case 1:
		p.Gates = []ref.Gate{ref.PublicInputGate{}, ref.ArithmeticGate{1}}
		p.NumPI, p.DegreeBits, p.RateBits, p.Arity = 1, 3, 3, nil
		p.NumChallenges = 1
	case 2:
		p.Gates = []ref.Gate{ref.ConstantGate{1}, ref.NoopGate{}, ref.PublicInputGate{}}
		p.NumPI, p.DegreeBits, p.RateBits, p.Arity = 9, 3, 4, nil
		p.Queries = 2
	}
	return p
}

func mkCircuits() {
	for k := 0; k < 3; k++ {
		ci := prover.Build(params(k), int64(100+k))
		x := &circuit{}
		for i := 0; i < 2; i++ {
			p := ci.Prove(&prover.Cheat{Rng: rand.New(rand.NewSource(int64(i)))})
			e2e.Must(ci.C, p)
			x.c = ci.C
			x.good = append(x.good, p)
		}
		x.cd = adapt.Common(x.c)
		for i := 0; i < 3; i++ {
			p := ci.Prove(&prover.Cheat{Rng: rand.New(rand.NewSource(int64(10 + i)))})
			one := fr.One()
			switch i {
			case 0:
				p.Wires[0][1].Add(&p.Wires[0][1], &one)
			case 1:
				p.Rounds[len(p.Rounds)-1].Init[1].Path[0].Add(&p.Rounds[len(p.Rounds)-1].Init[1].Path[0], &one)
			case 2:
				p.PIs[0].Add(&p.PIs[0], &one)
			}
			if len(ref.Verify(x.c, p)) == 0 {
				panic("a changed proof verifies")
			}
			x.bad = append(x.bad, p)
		}
		circuits = append(circuits, x)
	}
}

func verify(mode string, x *circuit, p *ref.Proof, reject bool) *task {
	return &task{name: fmt.Sprintf("verify%d", len(x.c.Gates)), mode: mode, reject: reject, prog: func(api frontend.API) []frontend.Variable {
		pr, pis, vd := adapt.Proof(p, adapt.Wire)
		verifier.NewVerifierChip(api, x.cd).Verify(pr, pis, vd)
		return nil
	}}
}

var gateList []ref.Gate

// pick draws a task; heavy ones are whole verifications.
func pick(r *rand.Rand, heavy bool) *task {
	n := 9
	if !heavy {
		n = 7
	}
	return draw(r, r.Intn(n), heavy)
}

// draw draws a task of a kind.
func draw(r *rand.Rand, kind int, heavy bool) *task {
	mode := wl.Modes[r.Intn(5)/4]
	switch kind {
	case 0:
		var js []wl.Job
		for i := 0; i < 12; i++ {
			op := &wl.BaseOps[r.Intn(len(wl.BaseOps))]
			x := make([]uint64, op.Arity)
			for i := range x {
				x[i] = 1 + wl.Pick(r)%(ref.P-1)
			}
			j := wl.BaseJob(op, x, uint(r.Intn(4)))
			if !j.Reject {
				js = append(js, j)
			}
		}
		if len(js) == 0 {
			return pick(r, heavy)
		}
		return job(mode, js...)
	case 1:
		var js []wl.Job
		for i := 0; i < 6; i++ {
			op := &wl.ExtOps[r.Intn(len(wl.ExtOps))]
			x := make([]ref.Ext, op.Arity)
			for i := range x {
				x[i] = ref.Ext{1 + wl.Pick(r)%(ref.P-1), wl.Pick(r)}
			}
			j := wl.ExtJob(op, x, 0)
			if !j.Reject {
				js = append(js, j)
			}
		}
		if len(js) == 0 {
			return pick(r, heavy)
		}
		return job(mode, js...)
	case 2: // sponge
		in := make([]uint64, 1+r.Intn(20))
		for i := range in {
			in[i] = wl.Pick(r)
		}
		m := 1 + r.Intn(12)
		return job(mode, wl.Job{Name: "hash", Want: wl.Bs(ref.HashNToM(in, m)...), Prog: func(api frontend.API) (o []frontend.Variable) {
			for _, v := range poseidon.NewGoldilocksChip(api).HashNToMNoPad(adapt.Us(in, adapt.Wire), m) {
				o = append(o, v.Limb)
			}
			return
		}})
	case 3: // leaf
		in := make([]uint64, r.Intn(25))
		es := make([]fr.Element, len(in))
		for i := range in {
			in[i] = wl.Pick(r)
			es[i].SetUint64(in[i])
		}
		w := ref.BNHashOrNoop(es)
		return job(mode, wl.Job{Name: "leaf", Want: []*big.Int{w.BigInt(new(big.Int))}, Prog: func(api frontend.API) []frontend.Variable {
			return []frontend.Variable{poseidon.NewBN254Chip(api).HashOrNoop(adapt.Us(in, adapt.Wire))}
		}})
	case 4: // challenger
		var xs []uint64
		var h fr.Element
		h.SetUint64(r.Uint64())
		h.Square(&h)
		h.Square(&h)
		for i := 0; i < 3+r.Intn(12); i++ {
			xs = append(xs, wl.Pick(r))
		}
		rc := &ref.Challenger{}
		rc.Observe(xs...)
		w := rc.GetN(3)
		rc.ObserveBN(h)
		w = append(w, rc.GetN(9)...)
		return job(mode, wl.Job{Name: "challenger", Want: wl.Bs(w...), Prog: func(api frontend.API) (o []frontend.Variable) {
			c := challenger.NewChip(api)
			c.ObserveElements(adapt.Us(xs, adapt.Wire))
			v := c.GetNChallenges(3)
			c.ObserveBN254Hash(adapt.Wire(&h))
			v = append(v, c.GetNChallenges(9)...)
			for i := range v {
				o = append(o, v[i].Limb)
			}
			return
		}})
	case 5, 6:
		g := gateList[r.Intn(len(gateList))]
		cs, ws, ph := wl.GateRow(r, g, r.Intn(6))
		return job(mode, wl.GateJob(g.ID(), g, cs, ws, ph, false))
	default:
		x := circuits[r.Intn(len(circuits))]
		if r.Intn(2) == 0 {
			return verify(mode, x, x.good[r.Intn(2)], false)
		}
		return verify(mode, x, x.bad[r.Intn(3)], true)
	}
}

// batch makes many deferred checks, at most one of them on a bad value.
func batch(seed int64, bad bool) *task {
	return &task{name: "batch", mode: "commit", reject: bad, prog: func(api frontend.API) (o []frontend.Variable) {
		r := rand.New(rand.NewSource(seed))
		n := 33000
		at := r.Intn(n)
		ch := gl.New(api)
		for i := 0; i < n; i++ {
			x := wl.Pick(r)
			if bad && i == at {
				x = ref.P + uint64(r.Intn(1000))
			}
			if i%3000 == 0 {
				ch = gl.New(api)
			}
			ch.RangeCheck(gl.NewVariable(eng.U(x)))
		}
		return
	}}
}

func run(c *chk.Check) {
	for _, g := range wl.AllGates(false) {
		if g.NumWires() <= 40 {
			gateList = append(gateList, g)
		}
	}
	if c.Thorough {
		gateList = wl.AllGates(false)
	}
	mkCircuits()
	f := 1
	if c.Thorough {
		f = 20
	}
	if os.Getenv("C18_RACE") != "" {
		// the instrumented binary: free running goroutines
		for k := 0; k < 2*f; k++ {
			c.Serial(fmt.Sprintf("stress/%d", k), func(t *chk.T) { stress(t, k) })
		}
		for k := 0; k < f; k++ {
			c.Serial(fmt.Sprintf("shared/%d", k), func(t *chk.T) { shared(t, k) })
		}
		c.Serial("race", races)
		return
	}
	c.Case("instrumented", instrumented)
	for k := 0; k < 2*coldKinds*f; k++ {
		if k%coldKinds == 12 && !c.Thorough {
			continue
		}
		c.Case(fmt.Sprintf("cold/%d", k), func(t *chk.T) { first(t, k) })
	}
	// the runs alone happen first, one after the other
	for k := 0; k < 20*f; k++ {
		c.Serial(fmt.Sprintf("repeat/%d", k), func(t *chk.T) { repeat(t, k) })
	}
	for k := 0; k < 4*f; k++ {
		c.Serial(fmt.Sprintf("stress/%d", k), func(t *chk.T) { stress(t, k) })
	}
	for k := 0; k < 120*f; k++ {
		c.Case(fmt.Sprintf("interleave/%d", k), func(t *chk.T) { interleaved(t, k) })
	}
	for k := 0; k < 6*f; k++ {
		c.Case(fmt.Sprintf("deferred/%d", k), func(t *chk.T) { deferred(t, k) })
	}
	c.Wait()
	for k := 0; k < 3*f; k++ {
		c.Serial(fmt.Sprintf("shared/%d", k), func(t *chk.T) { shared(t, k) })
	}
	for k := 0; k < 8*f; k++ {
		c.Case(fmt.Sprintf("inputs/%d", k), func(t *chk.T) { inputs(t, k) })
	}
	c.Case("results", results)
	for k := 0; k < 36*f; k++ {
		c.Case(fmt.Sprintf("history/%d", k), func(t *chk.T) { history(t, k) })
	}
	c.Wait()
	c.Serial("globals", func(t *chk.T) {
		if gl.MODULUS.String() != "18446744069414584321" || gl.MULTIPLICATIVE_GROUP_GENERATOR.Uint64() != 7 || gl.POWER_OF_TWO_GENERATOR.Uint64() != 1753635133440165772 {
			t.Fail("the constants of the field have changed")
		}
		t.OK("unchanged:globals")
	})
}

// instrumented runs this check's concurrent parts in the binary built with the
// race detector and takes over what it observed.
func instrumented(t *chk.T) {
	sc := os.Getenv("VERIF_SCRATCH")
	d := filepath.Join(sc, "instrumented")
	os.MkdirAll(d, 0o755)
	cmd := exec.Command(filepath.Join(sc, "check-race"), t.C.Tier)
	cmd.Env = append(os.Environ(), "C18_RACE=1", "C18_CHILD=1", "VERIF_DIR="+d, "VERIF_CASE=", fmt.Sprintf("VERIF_SEED=%d", t.C.Seed), "GORACE=log_path="+sc+"/race exitcode=0 halt_on_error=0")
	out, err := cmd.CombinedOutput()
	var ev struct {
		Coverage struct {
			Evals  int            `json:"evaluations"`
			Groups map[string]int `json:"evaluations_by_group"`
			Dist   map[string]int `json:"distinct_by_group"`
			Obs    map[string]int `json:"observed"`
		}
		Violations []struct{ Case, Detail string }
	}
	b, e := os.ReadFile(filepath.Join(d, "evidence", "C18.json"))
	if e != nil || json.Unmarshal(b, &ev) != nil {
		if strings.Contains(string(out), "fatal error: concurrent map") || strings.Contains(string(out), "fatal error: all goroutines are asleep") {
			t.Fail("concurrent use crashes the process: %.1500s", out)
			return
		}
		panic(fmt.Sprintf("the instrumented run gave no answer: %v %.2000s", err, out))
	}
	for _, v := range ev.Violations {
		t.Fail("[race detector build] %s: %s", v.Case, v.Detail)
	}
	if len(ev.Violations) > 0 {
		return
	}
	if err != nil && cmd.ProcessState.ExitCode() != 2 {
		panic(fmt.Sprintf("the instrumented run failed: %v %.2000s", err, out))
	}
	t.C.Stat("race_reports", ev.Coverage.Obs["race_reports"])
	for g, n := range ev.Coverage.Groups {
		for i := 0; i < n; i++ {
			t.OK(fmt.Sprintf("race:%s:%d", g, i%ev.Coverage.Dist[g]))
		}
	}
}

// races reads what the race detector wrote.
func races(t *chk.T) {
	fs, _ := filepath.Glob(filepath.Join(os.Getenv("VERIF_SCRATCH"), "race.*"))
	n := 0
	for _, f := range fs {
		b, _ := os.ReadFile(f)
		for _, rep := range strings.Split(string(b), "==================") {
			if strings.Contains(rep, "DATA RACE") && strings.Contains(rep, "succinctlabs/gnark-plonky2-verifier") {
				n++
				if len(rep) > 2500 {
					rep = rep[:2500]
				}
				t.Fail("the race detector reports: %s", rep)
			}
		}
	}
	if n == 0 {
		t.OK("race:none")
	}
	t.C.Stat("race_reports", n)
}

// repeat: the same task gives the same, whatever ran before.
func repeat(t *chk.T, k int) {
	a := pick(t.R, k%3 == 0)
	solo := a.do(nil)
	if !a.judge(t, solo, solo, "first") {
		return
	}
	for i := 0; i < 3; i++ {
		b := pick(t.R, false)
		s := b.do(nil)
		b.judge(t, s, s, "in between")
		if !a.judge(t, a.do(nil), solo, "again") {
			return
		}
		t.OK("repeat:" + a.name)
	}
}

// stress: free running goroutines under the race detector.
func stress(t *chk.T, k int) {
	n := 12
	ks := make([]*task, n)
	solo := make([]sig, n)
	for i := range ks {
		ks[i] = pick(t.R, i%4 == 0)
		solo[i] = ks[i].do(nil)
	}
	orders := make([][]int, n)
	for i := range orders {
		orders[i] = t.R.Perm(n)[:6]
	}
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i := range orders {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for _, j := range orders[i] {
				ks[j].judge(t, ks[j].do(nil), solo[j], "among other goroutines")
				t.OK("stress:" + ks[j].name)
				g := gateList[(i*7+j)%len(gateList)]
				if got := gates.GateInstanceFromId(g.ID()); got.Id() == "" {
					t.Fail("gate %s read without a name", g.ID())
				}
			}
		}()
	}
	for i := 0; i < 3; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for _, d := range []string{"step", "decode_block"} {
				cd := types.ReadCommonCircuitData("/repo/testdata/" + d + "/common_circuit_data.json")
				v := variables.DeserializeVerifierOnlyCircuitData(types.ReadVerifierOnlyCircuitData("/repo/testdata/" + d + "/verifier_only_circuit_data.json"))
				if len(cd.KIs) == 0 || len(v.ConstantSigmasCap) != 16 {
					t.Fail("files read wrongly among other goroutines")
				}
				t.OK("stress:read")
			}
		}()
	}
	close(start)
	wg.Wait()
}

// interleaved: 2 to 4 engines, switched by the generator.
func interleaved(t *chk.T, k int) {
	n := 2 + t.R.Intn(3)
	ks := make([]*task, n)
	solo := make([]sig, n)
	for i := range ks {
		ks[i] = pick(t.R, k%4 == 0 && i < 2)
		if i > 0 && t.R.Intn(4) == 0 {
			ks[i] = ks[0] // the same task twice
		}
		solo[i] = ks[i].do(nil)
	}
	got := make([]sig, n)
	var runs []func(func())
	for i := range ks {
		runs = append(runs, func(step func()) { got[i] = ks[i].do(step) })
	}
	d := k % 5
	if k%4 == 0 && d < 2 {
		d = 2
	}
	tr, sw := interleave(t.R, d, runs)
	t.C.Stat("switches", sw)
	t.OK("schedule:" + tr)
	anyBad, anyGood := false, false
	for i := range ks {
		ks[i].judge(t, got[i], solo[i], fmt.Sprintf("interleaved with %d others", n-1))
		t.OK(fmt.Sprintf("interleaved:%s:%d", ks[i].name, n))
		if ks[i].reject {
			anyBad = true
		} else {
			anyGood = true
		}
	}
	if anyBad && anyGood {
		t.OK("isolated:verify")
	}
}

// deferred: checks deferred to the end belong to their own circuit.
func deferred(t *chk.T, k int) {
	n := 3
	bad := t.R.Intn(n)
	ks := make([]*task, n)
	for i := range ks {
		ks[i] = batch(t.R.Int63(), i == bad)
	}
	got := make([]sig, n)
	var runs []func(func())
	for i := range ks {
		runs = append(runs, func(step func()) { got[i] = ks[i].do(step) })
	}
	tr, sw := interleave(t.R, 3, runs)
	t.C.Stat("switches", sw)
	t.OK("schedule:" + tr)
	for i := range ks {
		if got[i].accepted == ks[i].reject {
			t.Fail("deferred checks of %d circuits built at the same time: circuit %d accepted: %v, but the bad value is in circuit %d; %s", n, i, got[i].accepted, bad, got[i])
			continue
		}
		t.OK(fmt.Sprintf("isolated:batch:%v", i == bad))
	}
}

// shared: many verifications of the same proof and description objects.
func shared(t *chk.T, k int) {
	x := circuits[k%len(circuits)]
	pr, pis, vd := adapt.Proof(x.good[0], adapt.Wire)
	prog := func(api frontend.API) []frontend.Variable {
		verifier.NewVerifierChip(api, x.cd).Verify(pr, pis, vd)
		return nil
	}
	ks := []*task{{name: "shared", mode: "native", prog: prog}, {name: "shared", mode: wl.Modes[k%2], prog: prog}}
	solo := []sig{ks[0].do(nil), ks[1].do(nil)}
	var wg sync.WaitGroup
	for i := 0; i < 6; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			ks[i%2].judge(t, ks[i%2].do(nil), solo[i%2], "sharing proof and description")
			t.OK("shared:" + ks[i%2].mode)
		}()
	}
	wg.Wait()
}

// inputs: what is passed in is not changed, nor the memory behind it.
func inputs(t *chk.T, k int) {
	x := circuits[k%len(circuits)]
	mode := wl.Modes[k%2]
	mk := adapt.Wire
	if k%3 == 2 {
		mk = adapt.Const
	}
	pr, pis, vd := adapt.Proof(x.good[k%2], mk)
	cd := adapt.Common(x.c)
	type all struct {
		Proof variables.Proof
		PIs   []gl.Variable
		VD    variables.VerifierOnlyCircuitData
		CD    types.CommonCircuitData
	}
	a := all{pr, pis, vd, cd}
	pad(reflect.ValueOf(&a).Elem())
	if k%2 == 1 {
		// all openings in one array, each list followed by the next
		o := &a.Proof.Openings
		var one []gl.QuadraticExtensionVariable
		lists := []*[]gl.QuadraticExtensionVariable{&o.Constants, &o.PlonkSigmas, &o.Wires, &o.PlonkZs, &o.PlonkZsNext, &o.PartialProducts, &o.QuotientPolys}
		t.R.Shuffle(len(lists), func(i, j int) { lists[i], lists[j] = lists[j], lists[i] })
		for _, l := range lists {
			one = append(one, *l...)
		}
		i := 0
		for _, l := range lists {
			n := len(*l)
			*l = one[i : i+n]
			i += n
		}
	}
	before := take("input", &a)
	e := wl.Engine(mode)
	res := e.Run(func(api frontend.API) error {
		v := verifier.NewVerifierChip(api, a.CD)
		v.Verify(a.Proof, a.PIs, a.VD)
		return nil
	})
	if d := before.diff(take("input", &a)); d != "" {
		t.Fail("verification changed its input: %s", d)
		return
	}
	if !res.Accepted {
		t.Fail("a valid proof with other memory layout is not accepted: %s", res)
	}
	t.C.Stat("places_compared", len(before.vals))
	t.OK(fmt.Sprintf("unchanged:verify:%d:%s", k%len(circuits), mode))
	// the parts one by one
	e = wl.Engine(mode)
	e.Run(func(api frontend.API) error {
		check := func(what string, f func()) {
			f()
			if d := before.diff(take("input", &a)); d != "" {
				t.Fail("%s changed its input: %s", what, d)
			}
			t.OK("unchanged:" + what)
		}
		v := verifier.NewVerifierChip(api, a.CD)
		var pih poseidon.GoldilocksHashOut
		var pc variables.ProofChallenges
		check("public input hash", func() { pih = v.GetPublicInputsHash(a.PIs) })
		check("challenges", func() { pc = v.GetChallenges(a.Proof, pih, a.VD) })
		pcImg := take("challenges", &pc)
		fc := fri.NewChip(api, &a.CD, &a.CD.FriParams)
		var op fri.Openings
		var inst fri.InstanceInfo
		check("openings", func() { op = fc.ToOpenings(a.Proof.Openings) })
		check("instance", func() { inst = fc.GetInstance(pc.PlonkZeta) })
		caps := []variables.FriMerkleCap{a.VD.ConstantSigmasCap, a.Proof.WiresCap, a.Proof.PlonkZsPartialProductsCap, a.Proof.QuotientPolysCap}
		opImg, inImg := take("openings", &op), take("instance", &inst)
		check("opening check", func() { fc.VerifyFriProof(inst, op, &pc.FriChallenges, caps, &a.Proof.OpeningProof) })
		check("identity", func() { plonk.NewPlonkChip(api, a.CD).Verify(pc, a.Proof.Openings, pih) })
		for _, d := range []string{pcImg.diff(take("challenges", &pc)), opImg.diff(take("openings", &op)), inImg.diff(take("instance", &inst))} {
			if d != "" {
				t.Fail("a verification step changed its input: %s", d)
			}
		}
		// lists given to hashes and the challenger
		xs := adapt.Us([]uint64{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13}, adapt.Wire)
		pad(reflect.ValueOf(&xs).Elem())
		im := take("list", &xs)
		lists := map[string]func(){
			"sponge":           func() { poseidon.NewGoldilocksChip(api).HashNToMNoPad(xs, 9) },
			"hash":             func() { poseidon.NewGoldilocksChip(api).HashNoPad(xs) },
			"leaf":             func() { poseidon.NewBN254Chip(api).HashNoPad(xs) },
			"leaf_or_noop":     func() { poseidon.NewBN254Chip(api).HashOrNoop(xs[:2]) },
			"observe elements": func() { c := challenger.NewChip(api); c.ObserveElements(xs); c.GetNChallenges(11) },
			"observe parts": func() {
				c := challenger.NewChip(api)
				for i := range xs {
					c.ObserveElements(xs[i : i+1])
					c.ObserveElement(xs[i])
					if i%3 == 0 {
						c.GetChallenge()
					}
				}
			},
		}
		qs := adapt.Xs([]ref.Ext{{1, 2}, {3, 4}, {5, 6}, {7, 8}}, adapt.Wire)
		pad(reflect.ValueOf(&qs).Elem())
		qi := take("list", &qs)
		lists["powers"] = func() { gl.New(api).ReduceWithPowers(qs, qs[1]) }
		lists["observe extension"] = func() { c := challenger.NewChip(api); c.ObserveExtensionElements(qs); c.GetExtensionChallenge() }
		for what, f := range lists {
			f()
			if d := im.diff(take("list", &xs)); d != "" {
				t.Fail("%s changed its input: %s", what, d)
			}
			if d := qi.diff(take("list", &qs)); d != "" {
				t.Fail("%s changed its input: %s", what, d)
			}
			t.OK("unchanged:" + what)
		}
		return nil
	})
}

// results: what is handed out is the caller's; writing to it influences nothing.
func results(t *chk.T) {
	for n := uint64(0); n <= 6; n++ {
		a := gl.TwoAdicSubgroup(n)
		w := append(a[:0:0], a...)
		for i := range a {
			a[i].SetUint64(99)
		}
		b := gl.TwoAdicSubgroup(n)
		if !reflect.DeepEqual(b, w) {
			t.Fail("writing to a returned subgroup of order 2^%d changes later ones", n)
		}
		t.OK("repeat:subgroup")
	}
	rc := &ref.Challenger{}
	rc.Observe(1, 2, 3)
	want := rc.GetN(20)
	e := wl.Engine("native")
	e.Run(func(api frontend.API) error {
		c := challenger.NewChip(api)
		c.ObserveElements(adapt.Us([]uint64{1, 2, 3}, adapt.Wire))
		for i := 0; i < 20; {
			v := c.GetNChallenges(uint64(1 + i%4))
			for j := range v {
				if i+j < 20 && e.Get(v[j].Limb).Uint64() != want[i+j] {
					t.Fail("challenge %d changed by writing to earlier ones", i+j)
				}
				v[j] = gl.NewVariable(12345)
			}
			v = append(v, gl.NewVariable(1), gl.NewVariable(2))
			i += len(v) - 2
			t.OK("repeat:challenges")
		}
		// two chips on one builder
		p := poseidon.NewGoldilocksChip(api)
		in := adapt.Us([]uint64{4, 5, 6}, adapt.Wire)
		h := p.HashNoPad(in)
		o := p.ToVec(h)
		for i := range o {
			o[i] = gl.NewVariable(7)
		}
		h2 := p.HashNoPad(in)
		w := ref.HashNoPad([]uint64{4, 5, 6})
		for i := range h2 {
			if e.Get(h2[i].Limb).Uint64() != w[i] {
				t.Fail("a hash changed by writing to an earlier one")
			}
		}
		t.OK("repeat:hash")
		return nil
	})
	if e.NFails > 0 {
		t.Fail("unsatisfied: %v", e.Fails)
	}
	for _, g := range gateList {
		a, b := gates.GateInstanceFromId(g.ID()), gates.GateInstanceFromId(g.ID())
		if a.Id() != b.Id() {
			t.Fail("gate %s read twice gives %s and %s", g.ID(), a.Id(), b.Id())
		}
		t.OK("repeat:gate")
	}
}

// history: several verifications in one builder.
func history(t *chk.T, k int) {
	mode := wl.Modes[(k%8)/7]
	n := 2 + t.R.Intn(2)
	badAt := t.R.Intn(2*n) - n // negative: none
	same := t.R.Intn(2) == 0
	e := wl.Engine(mode)
	e.StopOnFail = true
	e.Honest = badAt < 0
	var chips [3]*verifier.VerifierChip
	desc := ""
	res := e.Run(func(api frontend.API) error {
		for i := 0; i < n; i++ {
			ci := t.R.Intn(len(circuits))
			x := circuits[ci]
			if chips[ci] == nil || !same {
				chips[ci] = verifier.NewVerifierChip(api, x.cd)
			}
			p := x.good[t.R.Intn(2)]
			if i == badAt {
				p = x.bad[t.R.Intn(3)]
			}
			desc += fmt.Sprintf("%d", ci)
			pr, pis, vd := adapt.Proof(p, adapt.Wire)
			chips[ci].Verify(pr, pis, vd)
		}
		return nil
	})
	if res.Accepted != (badAt < 0) {
		t.Fail("%d verifications in one circuit [%s], invalid one: %d of circuits %s, same chip %v: %s", n, mode, badAt, desc, same, res)
		return
	}
	t.OK(fmt.Sprintf("history:%s:%d:%d:%v", mode, n, badAt, same))
}
