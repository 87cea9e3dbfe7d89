// C06: the result of base field arithmetic is determined by the operands,
// whatever the prover answers.
package main

import (
	"fmt"
	"math/big"

	"vharness/chk"
	"vharness/eng"
	"vharness/ref"
	"vharness/wl"
)

func main() {
	chk.Main(chk.Opt{ID: "C06", Level: "exploration",
		Rule:        "one evaluation = one execution of a real base field operation in which a dishonest prover answered one request with a chosen alternative (and follow-ups by a policy); a violation is an execution in which no constraint failed and the output differs from the reference; distinct = mode x operation x request kind x alternative x policy",
		Assumptions: []string{"dishonest answers are drawn from the families listed in DESIGN.md; gnark's own gadgets are trusted"},
		Need:        []string{"attack:native:", "attack:bits:"}}, run)
}

func run(c *chk.Check) {
	reps := 6
	if c.Thorough {
		reps = 200
	}
	for i := range wl.BaseOps {
		op := &wl.BaseOps[i]
		for _, mode := range wl.Modes {
			for rep := 0; rep < reps; rep++ {
				if mode == "bits" && rep >= 2+reps/8 {
					break
				}
				c.Case(fmt.Sprintf("op/%s/%s/%d", op.Name, mode, rep), func(t *chk.T) {
					x := make([]uint64, op.Arity)
					for a := range x {
						x[a] = wl.Pick(t.R)
					}
					if op.Arity >= 2 {
						// small results have a non-canonical 64 bit alias
						small := []uint64{0, 1, 5, 1<<32 - 2, 1<<32 - 1, ref.P - 1}
						e := small[rep%len(small)]
						switch op.Name {
						case "add", "reduce_add":
							x[1] = ref.Sub(e, x[0])
						case "sub", "reduce_sub":
							x[1] = ref.Sub(x[0], e)
						case "mul", "reduce_mul", "reduce64_mul":
							if x[0] != 0 {
								x[1] = ref.Mul(e, ref.Inv(x[0]))
							}
						case "muladd", "reduce_muladd":
							x[2] = ref.Sub(e, ref.Mul(x[0], x[1]))
						}
					} else if rep%2 == 0 {
						x[0] = wl.Core[rep/2%len(wl.Core)]
					}
					mask := uint(0)
					if rep%3 == 2 {
						mask = uint(t.R.Intn(1 << uint(op.Arity)))
					}
					j := wl.BaseJob(op, x, mask)
					wl.Attack(t, mode, j, 14)
				})
			}
		}
	}
	widths := []int{0, 16, 32, 64, 96, 128, 144, 160, 176, 184}
	for _, w := range widths {
		for rep := 0; rep < reps; rep++ {
			c.Case(fmt.Sprintf("reduce/%d/%d", w, rep), func(t *chk.T) {
				b := w
				if b == 0 {
					b = 144
				}
				x := new(big.Int).Rand(t.R, new(big.Int).Lsh(big.NewInt(1), uint(1+t.R.Intn(b+63))))
				if rep%2 == 1 {
					x.Div(x, eng.P)
					x.Mul(x, eng.P)
					x.Add(x, big.NewInt(int64(t.R.Intn(3))))
				}
				wl.Attack(t, "native", wl.ReduceJob(x, w), 10)
			})
		}
	}
}
