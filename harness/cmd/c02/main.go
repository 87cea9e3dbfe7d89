// C02: no invalid proof is accepted, whatever the prover answers.
package main

import (
	"fmt"
	"math/big"
	"strings"

	"vharness/adapt"
	"vharness/chk"
	"vharness/e2e"
	"vharness/prover"
	"vharness/ref"
	"vharness/wl"

	"github.com/consensys/gnark/frontend"
)

func main() {
	chk.Main(chk.Opt{ID: "C02", Level: "exploration",
		Rule:        "one evaluation = one invalid proof (made by a cheating prover that deviates in one place and is otherwise consistent, so that few of plonky2's checks fail, or changed afterwards) run through the whole real verifier by an honest and by a total prover, verdict compared with the reference verifier, which names the failing checks; distinct = deviation x failing checks x circuit shape class",
		Assumptions: []string{"a prover that cannot find hash collisions or challenges: deviations that the transcript randomises are only detected with overwhelming probability, by plonky2 as well"},
		Need:        []string{"reject:gate:", "reject:copy", "reject:quotient", "reject:zscale", "reject:step", "reject:final", "reject:opening", "reject:pow", "reject:sibling", "reject:cap", "reject:real", "attack:"}}, run)
}

func class(f ref.Fails) string {
	if len(f) == 0 {
		return "none"
	}
	k := f[0]
	if i := strings.LastIndex(k, ":q"); i > 0 {
		k = k[:i]
	}
	if len(f) > 1 {
		k += fmt.Sprintf("+%d", min(len(f)-1, 3))
	}
	return k
}

func try(t *chk.T, c *ref.Common, p *ref.Proof, what string) bool {
	f, ok := e2e.Verdict(t, c, p, "native", what)
	if !ok {
		return false
	}
	if len(f) == 0 {
		t.OK("accept:" + what)
	} else {
		t.OK("reject:" + what + ":" + class(f) + ":" + fmt.Sprintf("steps%d", len(c.Arity)))
	}
	return true
}

func job(c *ref.Common, p *ref.Proof, what string) wl.Job {
	return wl.Job{Name: what, Reject: true, Want: []*big.Int{}, In: e2e.Key(c), Prog: func(api frontend.API) []frontend.Variable {
		e2e.Prog(api, c, p, e2e.Opt{})
		return nil
	}}
}

var cheats, posts = e2e.Cheats, e2e.Posts

func run(c *chk.Check) {
	n, nAtt := 12, 1
	if c.Thorough {
		n, nAtt = 200, 8
	}
	// the recorded proofs, changed
	for k := 0; k < 6*nAtt; k++ {
		c.Case(fmt.Sprintf("real/%d", k), func(t *chk.T) {
			cm, p, err := adapt.LoadReal("/repo/testdata/" + []string{"step", "decode_block"}[k%2])
			if err != nil {
				panic(err)
			}
			if k < 3 {
				// the last query only
				names, ps := posts(t, cm, p)
				for i := len(ps) - 1; i >= 0; i-- {
					if strings.HasPrefix(names[i], "sibling_init") && k < 2 || strings.HasPrefix(names[i], "sibling_step") && k == 2 {
						try(t, cm, ps[i], "real_"+names[i])
						break
					}
				}
				return
			}
			names, ps := posts(t, cm, p)
			i := t.R.Intn(len(ps))
			try(t, cm, ps[i], "real_"+names[i])
		})
	}
	for k := 0; k < n; k++ {
		pa := e2e.Small()
		c.Case(fmt.Sprintf("circuit/%d", k), func(t *chk.T) {
			if k%3 != 0 {
				pa = e2e.Random(t.R)
			}
			if pa.PowBits < 3 {
				pa.PowBits = 3
			}
			if k%2 == 0 {
				pa.Queries = 1
			}
			ci := prover.Build(pa, t.R.Int63())
			names, cs := cheats(t, ci)
			for i := range cs {
				p := ci.Prove(cs[i])
				if !try(t, ci.C, p, names[i]) {
					return
				}
			}
			hp := ci.Prove(nil)
			names, ps := posts(t, ci.C, hp)
			for i := range ps {
				if !try(t, ci.C, ps[i], names[i]) {
					return
				}
			}
		})
	}
	// dishonest answers on proofs that fail one check
	for k := 0; k < 2*nAtt; k++ {
		c.Case(fmt.Sprintf("attack/%d", k), func(t *chk.T) {
			pa := e2e.Small()
			pa.Queries, pa.DegreeBits, pa.RateBits, pa.Arity, pa.NumChallenges, pa.NumWires, pa.NumPI = 1, 2, 2, nil, 1, 8, 1
			ci := prover.Build(pa, t.R.Int63())
			names, cs := cheats(t, ci)
			i := t.R.Intn(len(cs))
			p := ci.Prove(cs[i])
			if len(ref.Verify(ci.C, p)) == 0 {
				return
			}
			wl.Attack(t, "native", job(ci.C, p, names[i]), nAtt)
		})
	}
	// range checks that are collected and done at the end
	for k := 0; k < 2*nAtt; k++ {
		c.Case(fmt.Sprintf("commit/%d", k), func(t *chk.T) {
			pa := e2e.Small()
			// widths of the range checks must be multiples of 16 here
			pa.NumPI, pa.PowBits = 20, 16*(k%2)
			ci := prover.Build(pa, t.R.Int63())
			hp := ci.Prove(nil)
			e2e.Must(ci.C, hp)
			if res, _ := e2e.Run(ci.C, hp, e2e.Opt{Mode: "commit"}); !res.Accepted {
				t.Fail("a valid proof is not accepted [commit]: %s", res)
				return
			}
			t.OK("accept:commit")
			names, cs := cheats(t, ci)
			for r := 0; r < 3; r++ {
				i := t.R.Intn(len(cs))
				p := ci.Prove(cs[i])
				if _, ok := e2e.Verdict(t, ci.C, p, "commit", names[i]); !ok {
					return
				}
				t.OK("commit:" + names[i])
			}
		})
	}
}
