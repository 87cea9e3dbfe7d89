// C11: the Fiat-Shamir challenger follows plonky2's duplex sponge on every
// history of observations and requests.
package main

import (
	"fmt"

	"vharness/chk"
	"vharness/ref"
	"vharness/wl"

	"github.com/consensys/gnark/frontend"
	"github.com/succinctlabs/gnark-plonky2-verifier/challenger"
)

func main() {
	chk.Main(chk.Opt{ID: "C11", Level: "exploration",
		Rule:        "one evaluation = one history of observations and challenge requests run on one or two real challengers and, step by step, on the reference duplex sponge, every challenge compared; distinct = the shape of the history (sequence of operations and sizes) x mode",
		Assumptions: []string{"observed elements are within the range the code documents for reduction"},
		Need:        []string{"history:native", "history:bits", "attack:native:"}}, run)
}

type op = wl.HistOp

var gen, refRun, realRun = wl.GenHist, wl.RefHist, wl.RealHist

func shape(ops []op) string { return wl.HistShape(ops) }

func one(t *chk.T, mode string, ops [][]op) {
	e := wl.Engine(mode)
	e.StopOnFail = true
	bad := ""
	got := 0
	res := e.Run(func(api frontend.API) error {
		var cs []*challenger.Chip
		rs := make([]ref.Challenger, len(ops))
		for range ops {
			cs = append(cs, challenger.NewChip(api))
		}
		pos := make([]int, len(ops))
		for bad == "" {
			var live []int
			for i := range ops {
				if pos[i] < len(ops[i]) {
					live = append(live, i)
				}
			}
			if len(live) == 0 {
				return nil
			}
			i := live[t.R.Intn(len(live))]
			o := ops[i][pos[i]]
			pos[i]++
			want := refRun(&rs[i], o)
			out := realRun(cs[i], o)
			if len(out) != len(want) {
				bad = fmt.Sprintf("step %d %s%v: %d challenges, want %d", pos[i], o.Kind, o.M, len(out), len(want))
				return nil
			}
			for k := range want {
				got++
				if e.Get(out[k].Limb).Cmp(wl.B(want[k])) != 0 {
					bad = fmt.Sprintf("step %d %s%d%v: challenge %d is %v, want %d", pos[i], o.Kind, o.N, o.M, k, e.Get(out[k].Limb), want[k])
					return nil
				}
			}
		}
		return nil
	})
	s := ""
	for _, o := range ops {
		s += shape(o) + " || "
	}
	if bad != "" {
		t.Fail("[%s] %s; history %s", mode, bad, s)
		return
	}
	if !res.Accepted {
		t.Fail("[%s] not satisfiable by the honest prover: %s; history %s", mode, res, s)
		return
	}
	t.C.Stat("challenges_compared", got)
	t.OK("history:" + mode + ":" + s)
	if len(s) < 200 {
		t.C.Sample(s)
	}
}

func run(c *chk.Check) {
	n := 30
	if c.Thorough {
		n = 2500
	}
	for ch := 0; ch < 16; ch++ {
		c.Case(fmt.Sprintf("history/%d", ch), func(t *chk.T) {
			for k := 0; k < n; k++ {
				steps := 2 + t.R.Intn(14)
				h := [][]op{gen(t.R, steps)}
				if k%5 == 4 {
					h = append(h, gen(t.R, steps))
				}
				mode := "native"
				if k%20 == 7 {
					mode = "bits"
				}
				one(t, mode, h)
			}
		})
	}
	// systematic: a elements, b challenges, c elements, d challenges
	for a := 0; a <= 17; a++ {
		c.Case(fmt.Sprintf("grid/%d", a), func(t *chk.T) {
			for _, b := range []int{0, 1, 7, 8, 9} {
				for _, cc := range []int{0, 1, 4, 7, 8, 9} {
					for _, d := range []int{1, 8, 9} {
						mk := func(k string, n int) op {
							o := op{Kind: k, N: n}
							if k == "elems" {
								for i := 0; i < n; i++ {
									o.U = append(o.U, wl.B(wl.Pick(t.R)))
								}
							}
							return o
						}
						one(t, "native", [][]op{{mk("elems", a), mk("getn", b), mk("elems", cc), mk("getn", d)}})
					}
				}
			}
		})
	}
	// dishonest prover
	att := 16
	if c.Thorough {
		att = 300
	}
	for k := 0; k < att; k++ {
		c.Case(fmt.Sprintf("attack/%d", k), func(t *chk.T) {
			ops := gen(t.R, 1+t.R.Intn(3))
			ops = append(ops, op{Kind: "get"})
			var rc ref.Challenger
			var want []uint64
			for _, o := range ops {
				want = append(want, refRun(&rc, o)...)
			}
			mode := "native"
			ev := 3
			if k%8 == 7 {
				mode, ev = "bits", 1
			}
			wl.Attack(t, mode, wl.Job{Name: "history", In: shape(ops), Want: wl.Bs(want...), Prog: func(api frontend.API) (out []frontend.Variable) {
				ch := challenger.NewChip(api)
				for _, o := range ops {
					for _, v := range realRun(ch, o) {
						out = append(out, v.Limb)
					}
				}
				return
			}}, ev)
		})
	}
}
