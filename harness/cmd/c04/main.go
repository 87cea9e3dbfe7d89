// C04: a proof with a limb outside the Goldilocks field is rejected, wherever
// it is, even if everything else holds modulo the field.
package main

import (
	"fmt"
	"math/big"
	"strings"

	"vharness/chk"
	"vharness/e2e"
	"vharness/eng"
	"vharness/prover"
	"vharness/ref"
	"vharness/wl"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark/frontend"
)

func main() {
	chk.Main(chk.Opt{ID: "C04", Level: "exploration",
		Rule:        "one evaluation = one proof that is valid but for one limb (of the openings, of a queried leaf, of a folding step, of the final polynomial, or the proof of work witness) being replaced by a representative outside the field, committed to as such where it is committed, run through the whole real verifier by a total prover and under the follow-up answers of a dishonest one; distinct = place x representative x range checking mode",
		Assumptions: []string{"public inputs are excluded: the repository documents that the caller checks them"},
		Need:        []string{"reject:native:constants", "reject:native:sigmas", "reject:native:wires", "reject:native:zs:", "reject:native:zsnext", "reject:native:partial", "reject:native:quotients", "reject:native:leaf", "reject:native:stepeval", "reject:native:final", "reject:native:pow", "reject:bits:", "reject:commit:", "committed:"}}, run)
}

func fe(b *big.Int) (e fr.Element) {
	e.SetBigInt(b)
	return
}

// shifts are multiples of the field modulus.
func shifts(t *chk.T) (names []string, s []fr.Element) {
	add := func(n string, k *big.Int) {
		names, s = append(names, n), append(s, fe(new(big.Int).Mul(k, eng.P)))
	}
	one := big.NewInt(1)
	add("p", one)
	add("-p", big.NewInt(-1))
	add("2p", big.NewInt(2))
	add("2^32p", new(big.Int).Lsh(one, 32))
	add("2^64p", new(big.Int).Lsh(one, 64))
	add("2^80p", new(big.Int).Lsh(one, 80))
	add("2^144p", new(big.Int).Lsh(one, 144))
	add("random", new(big.Int).Rand(t.R, new(big.Int).Lsh(one, 189)))
	return
}

func run1(t *chk.T, c *ref.Common, p *ref.Proof, mode, what string, pols int) bool {
	f := ref.Verify(c, p)
	if len(f) == 0 || !strings.HasPrefix(f[0], "canon") {
		panic(fmt.Sprint("reference: ", f, " ", what))
	}
	for pol := -1; pol < pols; pol++ {
		e := wl.Engine(mode)
		if pol > 0 {
			e.Adv = func(ev *eng.HintEvent) []*big.Int { return wl.Policy(pol, ev) }
		}
		res, _ := e2e.Run(c, p, e2e.Opt{E: e, Total: pol >= 0})
		t.C.Stat("range_checks", e.NRange)
		if res.Accepted {
			t.Fail("%s [%s, policy %d]: accepted; %s", what, mode, pol, e2e.Key(c))
			return false
		}
	}
	t.OK("reject:" + mode + ":" + what)
	return true
}

// trivial is a circuit whose committed values are mostly 0 and 1, so that
// their aliases fit in 64 bits.
func trivial(t *chk.T, arity bool, queries int) (*prover.Circuit, *prover.Cheat) {
	pa := prover.Params{Gates: []ref.Gate{ref.NoopGate{}}, DegreeBits: 3, RateBits: 2, PowBits: 2, Queries: queries, NumWires: 6, NumRouted: 4, QDF: 2, NumChallenges: 2, NumPI: 2, ExtraConsts: 1}
	if arity {
		pa.DegreeBits, pa.RateBits, pa.Arity = 5, 3, []int{4}
	}
	return prover.Build(pa, t.R.Int63()), &prover.Cheat{Wires: func(w [][]uint64) {
		for i := range w {
			for j := range w[i] {
				w[i][j] = 0
			}
		}
	}}
}

func run(c *chk.Check) {
	rep := 1
	if c.Thorough {
		rep = 12
	}
	for r := 0; r < rep; r++ {
		for k := 0; k < 6; k++ {
			c.Case(fmt.Sprintf("limbs/%d/%d", k, r), func(t *chk.T) {
				var ci *prover.Circuit
				var hp *ref.Proof
				kind := "random"
				if k%2 == 0 {
					pa := e2e.Small()
					pa.PowBits = 3
					if k == 2 {
						pa = e2e.Random(t.R)
					}
					ci = prover.Build(pa, t.R.Int63())
					hp = ci.Prove(nil)
				} else {
					var ch *prover.Cheat
					ci, ch = trivial(t, k != 1, 1+k/2)
					hp = ci.Prove(ch)
					kind = "trivial"
				}
				e2e.Must(ci.C, hp)
				names, sh := shifts(t)
				n := 0
				hp.GLs(func(string, *fr.Element) { n++ })
				stop := false
				seen := map[string]int{}
				for i := 0; i < n && !stop; i++ {
					for s := range sh {
						if s > 0 && (i+s)%4 != 0 && !c.Thorough {
							continue
						}
						q := hp.Clone()
						j, place, small := 0, "", false
						q.GLs(func(nm string, v *fr.Element) {
							if j == i {
								place = nm
								small = v.IsUint64() && v.Uint64() < 1<<32-1
								v.Add(v, &sh[s])
							}
							j++
						})
						what := fmt.Sprintf("%s:%s:%s", place, names[s], kind)
						if small && s == 0 {
							what += ":64bit"
						}
						// a sample of each situation with all provers: the first
						// range check stops the others
						pols := 1
						if seen[what] < 2 {
							pols = wl.NPolicies
						}
						seen[what]++
						if !run1(t, ci.C, q, "native", what, pols) {
							stop = true
							break
						}
						if seen[what] == 1 && s < 2 {
							run1(t, ci.C, q, "bits", what, 1)
						}
					}
				}
			})
		}
		// limbs that the prover commits to as they are
		for k := 0; k < 8; k++ {
			c.Case(fmt.Sprintf("committed/%d/%d", k, r), func(t *chk.T) {
				names, sh := shifts(t)
				arity := k%2 == 1
				ci, ch := trivial(t, arity, 1)
				if k >= 4 {
					pa := e2e.Small()
					pa.PowBits, pa.Queries = 3, 1
					ci, ch = prover.Build(pa, t.R.Int63()), &prover.Cheat{}
				}
				widths := []int{ci.C.NumConstants + ci.C.NumRouted, ci.C.NumWires, ci.C.NumChallenges * (1 + ci.C.NPP), ci.C.NumChallenges * ci.C.QDF}
				for s := range sh {
					if s > 2 && (s+k)%3 != 0 && !c.Thorough {
						continue
					}
					for o := 0; o < 4; o++ {
						for col := 0; col < widths[o]; col++ {
							if col > 0 && col != widths[o]-1 && t.R.Intn(widths[o]) > 1 {
								continue
							}
							x := *ch
							x.Add[o] = map[int]fr.Element{col: sh[s]}
							p := ci.Prove(&x)
							if !run1(t, ci.C, p, "native", fmt.Sprintf("leaf%d:%s:committed", o, names[s]), 1) {
								return
							}
							t.OK("committed:" + names[s])
						}
					}
					for st := range ci.C.Arity {
						for _, l := range []int{0, 1, 30, 31, t.R.Intn(32)} {
							x := *ch
							x.StepAdd = map[int]map[int]fr.Element{st: {l: sh[s]}}
							p := ci.Prove(&x)
							if !run1(t, ci.C, p, "native", fmt.Sprintf("stepeval:%s:committed", names[s]), 1) {
								return
							}
							t.OK("committed:" + names[s])
						}
					}
				}
			})
		}
		// range checks done at the end
		for k := 0; k < 4; k++ {
			c.Case(fmt.Sprintf("deferred/%d/%d", k, r), func(t *chk.T) {
				pa := e2e.Small()
				// widths of the range checks must be multiples of 16 here
				pa.PowBits, pa.NumPI = 16*(k%2), 20
				ci := prover.Build(pa, t.R.Int63())
				hp := ci.Prove(nil)
				if res, _ := e2e.Run(ci.C, hp, e2e.Opt{Mode: "commit"}); !res.Accepted {
					t.Fail("a valid proof is not accepted [commit]: %s", res)
					return
				}
				t.OK("accept:commit")
				names, sh := shifts(t)
				for rr := 0; rr < 4; rr++ {
					q := hp.Clone()
					n := 0
					q.GLs(func(string, *fr.Element) { n++ })
					i, j, s, place := t.R.Intn(n), 0, t.R.Intn(len(sh)), ""
					q.GLs(func(nm string, v *fr.Element) {
						if j == i {
							place = nm
							v.Add(v, &sh[s])
						}
						j++
					})
					if !run1(t, ci.C, q, "commit", fmt.Sprintf("%s:%s:deferred", place, names[s]), 1) {
						return
					}
				}
			})
		}
	}
	// honest proofs of the same circuits are accepted
	c.Case("honest", func(t *chk.T) {
		for _, a := range []bool{false, true} {
			ci, ch := trivial(t, a, 2)
			p := ci.Prove(ch)
			e2e.Must(ci.C, p)
			for _, mode := range wl.Modes {
				res, _ := e2e.Run(ci.C, p, e2e.Opt{Mode: mode})
				if !res.Accepted {
					t.Fail("a valid proof with boundary values is not accepted [%s]: %s", mode, res)
				}
				t.OK("accept:" + mode)
			}
		}
	})
	_ = frontend.Variable(nil)
}
