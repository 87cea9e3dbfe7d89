// C15: every gate's constraints equal plonky2's, for all parameters.
package main

import (
	"fmt"

	"vharness/chk"
	"vharness/wl"
)

func main() {
	chk.Main(chk.Opt{ID: "C15", Level: "exploration",
		Rule:        "one evaluation = one execution of a real gate evaluation on a row (arbitrary, satisfying, satisfying but for one wire, extreme, small values), all constraints compared in order and number with an independent model of plonky2's gate; or the same with a dishonest prover at one request; distinct = gate with parameters x mode x request kind x alternative x policy",
		Assumptions: []string{"the gate models were written from plonky2's definitions and cross-checked on two real plonky2 proofs and on satisfying rows"},
		Need:        []string{"honest:native:gate_", "honest:bits:gate_", "attack:native:gate_", "zero:"}}, run)
}

func run(c *chk.Check) {
	reps, att := 12, 3
	if c.Thorough {
		reps, att = 300, 20
	}
	for gi, g := range wl.AllGates(c.Thorough) {
		c.Case("gate/"+g.ID(), func(t *chk.T) {
			id := g.ID()
			var js []wl.Job
			for k := 0; k < reps; k++ {
				cs, ws, h := wl.GateRow(t.R, g, k%6)
				if k%6 == 2 {
					for i, x := range g.Eval(cs, ws, h) {
						if !x.IsZero() {
							panic(fmt.Sprintf("reference: %s constraint %d not zero on a satisfying row", id, i))
						}
					}
					t.OK("zero:" + id)
				}
				js = append(js, wl.GateJob(id, g, cs, ws, h, k%6 == 1))
			}
			wl.HonestBatch(t, "native", js)
			if gi%7 == 0 {
				wl.HonestBatch(t, "bits", js[:1])
			}
			if gi%3 == 0 || c.Thorough {
				wl.Attack(t, "native", js[1], att)
			}
		})
	}
}
