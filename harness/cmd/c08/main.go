// C08: quadratic extension arithmetic and its algebra are exact, and
// determined by the operands whatever the prover answers.
package main

import (
	"fmt"

	"vharness/chk"
	"vharness/ref"
	"vharness/wl"
)

func main() {
	chk.Main(chk.Opt{ID: "C08", Level: "exploration",
		Rule:        "one evaluation = one execution of a real extension/algebra operation (honest: output compared with the reference; attack: dishonest prover, accepted output must equal the reference); distinct = mode x operation (with its length or exponent) x request kind x alternative x policy",
		Assumptions: []string{"operands are canonical, as the code requires"},
		Need:        []string{"honest:native:", "honest:bits:", "attack:native:"}}, run)
}

func run(c *chk.Check) {
	nr, na := 60, 3
	if c.Thorough {
		nr, na = 3000, 60
	}
	core := []ref.Ext{{0, 0}, {1, 0}, {0, 1}, {ref.P - 1, 0}, {0, ref.P - 1}, {ref.P - 1, ref.P - 1}, {1 << 32, 1<<32 - 1}, {ref.P - 2, 3}}
	for i := range wl.ExtOps {
		op := &wl.ExtOps[i]
		for _, mode := range wl.Modes {
			c.Case(fmt.Sprintf("op/%s/%s", op.Name, mode), func(t *chk.T) {
				var js []wl.Job
				n := 1
				for k := 0; k < op.Arity && k < 2; k++ {
					n *= len(core)
				}
				if mode == "bits" {
					n = 4
				}
				for k := 0; k < n+nr; k++ {
					x := make([]ref.Ext, op.Arity)
					for a, kk := 0, k; a < op.Arity; a, kk = a+1, kk/len(core) {
						if k < n && a < 2 {
							x[a] = core[kk%len(core)]
						} else {
							x[a] = wl.Ext(t.R)
						}
					}
					if k >= n && mode == "bits" && k > n+nr/8 {
						break
					}
					js = append(js, wl.ExtJob(op, x, uint(t.R.Intn(1<<uint(op.Arity)))))
				}
				wl.HonestBatch(t, mode, js)
			})
		}
		for k := 0; k < na; k++ {
			c.Case(fmt.Sprintf("attack/%s/%d", op.Name, k), func(t *chk.T) {
				x := make([]ref.Ext, op.Arity)
				for a := range x {
					x[a] = wl.Ext(t.R)
					if k == 0 {
						x[a] = core[t.R.Intn(len(core))]
					}
				}
				mode := "native"
				if k == 2 {
					mode = "bits"
				}
				wl.Attack(t, mode, wl.ExtJob(op, x, 0), 6)
			})
		}
	}
	// zero has no inverse, whatever the prover says
	for k := 0; k < 4; k++ {
		c.Case(fmt.Sprintf("zero_inverse/%d", k), func(t *chk.T) {
			for i := range wl.ExtOps {
				op := &wl.ExtOps[i]
				if op.Name == "inversex" {
					wl.Attack(t, "native", wl.ExtJob(op, []ref.Ext{{}}, 0), 8)
				}
				if op.Name == "divx" {
					wl.Attack(t, "native", wl.ExtJob(op, []ref.Ext{wl.Ext(t.R), {}}, 0), 8)
				}
			}
		})
	}
	// exponents
	exps := []uint64{}
	for e := uint64(0); e < 70; e++ {
		exps = append(exps, e)
	}
	for b := uint(6); b < 64; b++ {
		exps = append(exps, 1<<b, 1<<b-1, 1<<b+1)
	}
	exps = append(exps, ref.P-1, ref.P-2, ref.P, ^uint64(0), 0xaaaaaaaaaaaaaaaa, 0x5555555555555555)
	c.Case("exp", func(t *chk.T) {
		var js []wl.Job
		for _, e := range exps {
			js = append(js, wl.ExpJob(wl.Ext(t.R), e, t.R.Intn(2) == 0), wl.ExpJob(core[t.R.Intn(len(core))], e, false))
		}
		for k := 0; k < nr/4; k++ {
			js = append(js, wl.ExpJob(wl.Ext(t.R), t.R.Uint64()>>uint(t.R.Intn(64)), false))
		}
		wl.HonestBatch(t, "native", js)
	})
	c.Case("powers", func(t *chk.T) {
		var js []wl.Job
		for n := 0; n < 80; n++ {
			ts := make([]ref.Ext, n)
			for i := range ts {
				ts[i] = wl.Ext(t.R)
			}
			js = append(js, wl.PowersJob(ts, wl.Ext(t.R), t.R.Intn(3) == 0), wl.PowersJob(ts, ref.Ext{}, false))
		}
		wl.HonestBatch(t, "native", js)
	})
	c.Case("inner", func(t *chk.T) {
		var js []wl.Job
		for n := 0; n < 40; n++ {
			ab := make([][2]ref.Ext, n)
			big := make([][2]ref.Ext, n)
			for i := range ab {
				ab[i] = [2]ref.Ext{wl.Ext(t.R), wl.Ext(t.R)}
				big[i] = [2]ref.Ext{{ref.P - 1, ref.P - 1}, {ref.P - 1, ref.P - 1}}
			}
			for _, k := range []uint64{0, 1, 7, ref.P - 1, wl.Pick(t.R)} {
				js = append(js, wl.InnerJob(k, wl.Ext(t.R), ab, t.R.Intn(3) == 0))
			}
			js = append(js, wl.InnerJob(ref.P-1, ref.Ext{ref.P - 1, ref.P - 1}, big, false))
		}
		wl.HonestBatch(t, "native", js)
	})
	c.Case("interp", func(t *chk.T) {
		var js []wl.Job
		for n := 1; n <= 33; n++ {
			js = append(js, wl.InterpJob(t.R, n), wl.InterpJob(t.R, n))
		}
		wl.HonestBatch(t, "native", js)
	})
	for k := 0; k < na; k++ {
		c.Case(fmt.Sprintf("attack_exp/%d", k), func(t *chk.T) { wl.Attack(t, "native", wl.ExpJob(wl.Ext(t.R), 5, false), 6) })
		c.Case(fmt.Sprintf("attack_powers/%d", k), func(t *chk.T) {
			wl.Attack(t, "native", wl.PowersJob([]ref.Ext{wl.Ext(t.R), wl.Ext(t.R), wl.Ext(t.R)}, wl.Ext(t.R), false), 6)
		})
		c.Case(fmt.Sprintf("attack_inner/%d", k), func(t *chk.T) {
			wl.Attack(t, "native", wl.InnerJob(7, wl.Ext(t.R), [][2]ref.Ext{{wl.Ext(t.R), wl.Ext(t.R)}}, false), 6)
		})
		c.Case(fmt.Sprintf("attack_interp/%d", k), func(t *chk.T) { wl.Attack(t, "native", wl.InterpJob(t.R, 2), 6) })
	}
	// range checking an extension element covers both components
	c.Case("rangecheckqe", func(t *chk.T) { rangeQE(t) })
}
