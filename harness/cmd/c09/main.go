// C09: Poseidon over Goldilocks.
package main

import (
	"fmt"
	"math/big"

	"vharness/chk"
	"vharness/eng"
	"vharness/wl"
)

func main() {
	chk.Main(chk.Opt{ID: "C09", Level: "exploration",
		Rule:        "one evaluation = one execution of the real permutation, sponge or extension layer (honest: accepted and equal to the definition of Poseidon with plonky2's constants; attack: dishonest prover at one request, accepted only with the reference result); distinct = mode x operation x input/output length x request kind x alternative x policy",
		Assumptions: []string{"the reference uses the naive round structure, not the optimised partial rounds of the code", "dishonest answers are drawn from the families listed in DESIGN.md"},
		Need:        []string{"honest:native:permute", "honest:bits:permute", "honest:native:hash_n_to_m", "honest:native:hash_no_pad", "attack:native:permute", "layer:"}}, run)
}

var permJob, ntomJob, nopadJob = wl.GLPermJob, wl.GLHashJob, wl.GLNoPadJob

func state(t *chk.T) (s [12]uint64) {
	k := t.R.Intn(6)
	for i := range s {
		switch k {
		case 0:
			s[i] = wl.Edge[t.R.Intn(len(wl.Edge))]
		case 1:
			s[i] = wl.Core[t.R.Intn(len(wl.Core))]
		default:
			s[i] = wl.Pick(t.R)
		}
	}
	return
}

func run(c *chk.Check) {
	np, att := 60, 1
	if c.Thorough {
		np, att = 4000, 150
	}
	for _, mode := range wl.Modes {
		for ch := 0; ch < 8; ch++ {
			c.Case(fmt.Sprintf("permute/%s/%d", mode, ch), func(t *chk.T) {
				n := np
				if mode == "bits" {
					n = np / 10
				}
				for k := 0; k < n; k++ {
					s := state(t)
					if ch == 0 && k < len(wl.Edge) {
						for i := range s {
							s[i] = wl.Edge[k]
						}
					}
					if ch == 1 && k < 12 {
						s = [12]uint64{}
						s[k] = wl.Edge[t.R.Intn(len(wl.Edge))]
					}
					m := uint(t.R.Intn(4096))
					switch k % 3 {
					case 0:
						m = 0
					case 1:
						m = 4095
					}
					wl.Honest(t, mode, permJob(s, m))
				}
			})
		}
	}
	maxLen := 72
	for n := 0; n <= maxLen; n++ {
		c.Case(fmt.Sprintf("hash/%d", n), func(t *chk.T) {
			outs := []int{1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 17, 20, 24, 25, 33}
			for _, m := range outs {
				if n > 24 && m > 12 && n%8 > 1 {
					continue
				}
				in := make([]uint64, n)
				for i := range in {
					in[i] = wl.Pick(t.R)
				}
				mask := t.R.Uint64()
				if m%2 == 0 {
					mask = 0
				}
				mode := "native"
				if n%8 == 3 && m == 4 {
					mode = "bits"
				}
				wl.Honest(t, mode, ntomJob(in, m, mask))
			}
			in := make([]*big.Int, n)
			for rep := 0; rep < 3; rep++ {
				for i := range in {
					x := wl.B(wl.Pick(t.R))
					if rep > 0 {
						switch t.R.Intn(5) {
						case 0:
							x.Add(x, eng.P)
						case 1:
							x = new(big.Int).SetUint64(t.R.Uint64() | 0xffffffff00000000)
						case 2:
							x.Rand(t.R, new(big.Int).Lsh(eng.P, 143))
						case 3:
							x.Mul(eng.P, wl.B(t.R.Uint64()))
						}
					}
					in[i] = x
				}
				wl.Honest(t, "native", nopadJob(in))
			}
		})
	}
	// dishonest prover at every request of a permutation
	for k := 0; k < att; k++ {
		parts := 16
		for p := 0; p < parts; p++ {
			c.Case(fmt.Sprintf("attack/permute/%d/%d", k, p), func(t *chk.T) {
				s := state(t)
				wl.AttackPart(t, "native", permJob(s, 0), p, parts, k%wl.NPolicies)
			})
		}
	}
	for k := 0; k < 4*att; k++ {
		c.Case(fmt.Sprintf("attack/permute_bits/%d", k), func(t *chk.T) {
			wl.Attack(t, "bits", permJob(state(t), 0), 6)
		})
		c.Case(fmt.Sprintf("attack/hash/%d", k), func(t *chk.T) {
			n := 1 + t.R.Intn(10)
			in := make([]*big.Int, n)
			for i := range in {
				in[i] = wl.B(wl.Pick(t.R))
			}
			wl.Attack(t, "native", nopadJob(in), 8)
			u := make([]uint64, n)
			for i := range u {
				u[i] = wl.Pick(t.R)
			}
			wl.Attack(t, "native", ntomJob(u, 1+t.R.Intn(12), 0), 4)
		})
	}
	layers(c)
}
