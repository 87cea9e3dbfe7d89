// C01: every valid proof is accepted.
package main

import (
	"fmt"

	"vharness/adapt"
	"vharness/chk"
	"vharness/e2e"
	"vharness/prover"
	"vharness/ref"
	"vharness/wl"
)

func main() {
	chk.Main(chk.Opt{ID: "C01", Level: "exploration",
		Rule:        "one evaluation = one valid proof (made by an independent prover for a circuit drawn at random, or recorded from plonky2, accepted by the reference verifier) run through the whole real verifier with the code's own hints, every emitted constraint monitored and satisfied; distinct = circuit shape x range checking mode",
		Assumptions: []string{"circuits within what the repository supports: cap height 4, arity 16, routed wires a multiple of the quotient degree factor, no lookups, no hiding"},
		Need:        []string{"accept:native:gates", "accept:bits:", "accept:commit:", "accept:native:real:step", "accept:native:real:decode_block"}}, run)
}

func accept(t *chk.T, c *ref.Common, p *ref.Proof, mode, key string) bool {
	res, e := e2e.Run(c, p, e2e.Opt{Mode: mode, ConstVK: t.R.Intn(2) == 0})
	t.C.Stat("assertions", e.NAssert)
	t.C.Stat("range_checks", e.NRange)
	t.C.Stat("hints", e.NHint)
	if !res.Accepted {
		t.Fail("%s [%s]: a valid proof is not accepted: %s", key, mode, res)
		return false
	}
	t.OK("accept:" + mode + ":" + key)
	return true
}

func run(c *chk.Check) {
	n := 140
	if c.Thorough {
		n = 3000
	}
	for _, d := range []string{"step", "decode_block"} {
		c.Case("real/"+d, func(t *chk.T) {
			cm, p, err := adapt.LoadReal("/repo/testdata/" + d)
			if err != nil {
				panic(err)
			}
			e2e.Must(cm, p)
			accept(t, cm, p, "native", "real:"+d)
		})
	}
	for k := 0; k < n; k++ {
		c.Case(fmt.Sprintf("random/%d", k), func(t *chk.T) {
			ci := prover.Build(e2e.Random(t.R), t.R.Int63())
			p := ci.Prove(nil)
			e2e.Must(ci.C, p)
			if !accept(t, ci.C, p, "native", e2e.Key(ci.C)) {
				return
			}
			if k%20 == 3 {
				accept(t, ci.C, p, "bits", e2e.Key(ci.C))
			}
		})
	}
	// every gate in a circuit of its own
	for gi, g := range wl.AllGates(false) {
		if g.NumWires() > 140 || g.Degree() > 8 || (!c.Thorough && gi%12 != 0) {
			continue
		}
		c.Case("gate/"+g.ID(), func(t *chk.T) {
			p := e2e.Small()
			p.Gates = []ref.Gate{g, ref.NoopGate{}, ref.PublicInputGate{}}
			p.QDF, p.NumRouted, p.Queries, p.DegreeBits, p.RateBits, p.Arity = 8, 8, 1, 3, 2, nil
			if g.NumWires() > p.NumWires {
				p.NumWires = g.NumWires()
			}
			ci := prover.Build(p, t.R.Int63())
			pr := ci.Prove(nil)
			e2e.Must(ci.C, pr)
			accept(t, ci.C, pr, "native", "single:"+g.ID())
		})
	}
	// the plonky2 standard recursion configuration with its gates
	std := prover.Params{Gates: []ref.Gate{ref.NoopGate{}, ref.ConstantGate{2}, ref.PoseidonMdsGate{}, ref.PublicInputGate{}, ref.BaseSumGate{63, 2}, ref.ReducingExtGate{32}, ref.ReducingGate{43}, ref.ArithmeticExtGate{10}, ref.ArithmeticGate{20}, ref.MulExtGate{13}, ref.ExpGate{66}, ref.RandomAccessGate{4, 4, 2}, ref.CosetInterpGate{4, 6}, ref.PoseidonGate{}},
		DegreeBits: 5, RateBits: 3, PowBits: 16, Queries: 3, Arity: []int{4}, NumWires: 135, NumRouted: 80, QDF: 8, NumChallenges: 2, NumPI: 36, Copies: 40}
	reps := 4
	if c.Thorough {
		reps = 60
	}
	for k := 0; k < reps; k++ {
		c.Case(fmt.Sprintf("standard/%d", k), func(t *chk.T) {
			ci := prover.Build(std, t.R.Int63())
			p := ci.Prove(nil)
			e2e.Must(ci.C, p)
			mode := "native"
			if k%2 == 1 {
				mode = "commit"
			}
			accept(t, ci.C, p, mode, "standard")
		})
	}
}
