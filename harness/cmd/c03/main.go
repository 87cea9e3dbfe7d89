// C03: an accepted proof is a proof for exactly these public inputs, this
// verifier key and this circuit.
package main

import (
	"fmt"
	"math/big"
	"strings"

	"vharness/adapt"
	"vharness/chk"
	"vharness/e2e"
	"vharness/prover"
	"vharness/ref"
	"vharness/wl"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark/frontend"
)

func main() {
	chk.Main(chk.Opt{ID: "C03", Level: "exploration",
		Rule:        "one evaluation = one otherwise valid proof presented to the whole real verifier with one public input, one entry of the verifier key or one parameter of the circuit changed (after the fact, or by a prover who claims the other value from the start), verdict compared with the reference verifier for an honest and a total prover; distinct = what was changed x where x circuit shape",
		Assumptions: []string{"public inputs are canonical field elements (the repository documents that the caller checks this)", "a proof does not depend on cap entries that no query reaches, in plonky2 as well"},
		Need:        []string{"reject:pi_post", "reject:pi_claim", "reject:digest", "reject:constcap", "reject:foreign", "reject:kis", "reject:gates", "accept:honest", "accept:unused_constcap", "attack:"}}, run)
}

func try(t *chk.T, c *ref.Common, p *ref.Proof, mode, what, key string) (bool, bool) {
	f, ok := e2e.Verdict(t, c, p, mode, what)
	if !ok {
		return false, false
	}
	if len(f) == 0 {
		t.OK("accept:" + what + ":" + key)
	} else {
		t.OK("reject:" + what + ":" + key + ":" + strings.SplitN(f[0], ":", 2)[0])
	}
	return len(f) > 0, true
}

func other(t *chk.T, v uint64) uint64 {
	for {
		w := wl.Pick(t.R)
		switch t.R.Intn(4) {
		case 0:
			w = ref.Add(v, 1)
		case 1:
			w = ref.Sub(v, 1)
		case 2:
			w = v ^ 1<<uint(t.R.Intn(63))
		}
		if w != v && w < ref.P {
			return w
		}
	}
}

func params(t *chk.T, npi int) prover.Params {
	pa := e2e.Small()
	pa.NumPI = npi
	pa.Queries = 1 + t.R.Intn(2)
	pa.DegreeBits, pa.RateBits, pa.Arity = 3, 2, nil
	if t.R.Intn(3) == 0 {
		pa.DegreeBits, pa.RateBits, pa.Arity = 4, 4, []int{4}
	}
	return pa
}

func run(c *chk.Check) {
	rep := 1
	if c.Thorough {
		rep = 20
	}
	npis := []int{0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 24, 25, 36, 64}
	for r := 0; r < rep; r++ {
		for _, npi := range npis {
			c.Case(fmt.Sprintf("pi/%d/%d", npi, r), func(t *chk.T) {
				ci := prover.Build(params(t, npi), t.R.Int63())
				hp := ci.Prove(nil)
				e2e.Must(ci.C, hp)
				key := fmt.Sprintf("pis%d", npi)
				if _, ok := try(t, ci.C, hp, "native", "honest", key); !ok {
					return
				}
				idx := t.R.Perm(npi)
				for n, i := range idx {
					if n > 4 && i != npi-1 && i != 0 && i%8 != 0 && i%8 != 7 {
						continue
					}
					if n > 8 && !c.Thorough && i != npi-1 {
						continue
					}
					q := hp.Clone()
					q.PIs[i].SetUint64(other(t, ci.PIs[i]))
					if _, ok := try(t, ci.C, q, "native", "pi_post", fmt.Sprintf("%s:%d", key, i)); !ok {
						return
					}
					pis := append([]uint64(nil), ci.PIs...)
					pis[i] = other(t, pis[i])
					if _, ok := try(t, ci.C, ci.Prove(&prover.Cheat{PIs: pis, Rng: t.R}), "native", "pi_claim", fmt.Sprintf("%s:%d", key, i)); !ok {
						return
					}
				}
				if npi > 1 {
					q := hp.Clone()
					i, j := idx[0], idx[1]
					q.PIs[i], q.PIs[j] = q.PIs[j], q.PIs[i]
					try(t, ci.C, q, "native", "pi_post_swapped", key)
					pis := append([]uint64(nil), ci.PIs...)
					pis[i], pis[j] = pis[j], pis[i]
					try(t, ci.C, ci.Prove(&prover.Cheat{PIs: pis, Rng: t.R}), "native", "pi_claim_swapped", key)
				}
			})
		}
	}
	for k := 0; k < 10*rep; k++ {
		c.Case(fmt.Sprintf("key/%d", k), func(t *chk.T) {
			pa := params(t, 3)
			ci := prover.Build(pa, t.R.Int63())
			hp := ci.Prove(nil)
			e2e.Must(ci.C, hp)
			key := fmt.Sprintf("steps%d q%d", len(pa.Arity), pa.Queries)
			// digest
			for _, d := range []string{"1", "18446744069414584321", "72057594037927936", "5192296858534827628530496329220096", "14474011154664524427946373126085988481658748083205070504932198000989141204992"} {
				q := hp.Clone()
				b, _ := new(big.Int).SetString(d, 10)
				var e fr.Element
				e.SetBigInt(b)
				if t.R.Intn(2) == 0 {
					q.Digest.Add(&q.Digest, &e)
				} else {
					q.Digest.Sub(&q.Digest, &e)
				}
				if _, ok := try(t, ci.C, q, "native", "digest", key); !ok {
					return
				}
			}
			var zero fr.Element
			q := ci.Prove(&prover.Cheat{Digest: &zero, Rng: t.R})
			try(t, ci.C, q, "native", "digest_zero", key) // valid for that key
			q.Digest = ci.Digest
			try(t, ci.C, q, "native", "digest_of_other_key", key)
			// cap entries
			ch := ref.GetChallenges(ci.C, hp)
			used := map[int]bool{}
			l := ci.C.LdeBits()
			for _, x := range ch.Indices {
				used[int(x&(1<<uint(l)-1))>>uint(l-4)] = true
			}
			q = hp.Clone()
			for i := range q.ConstCap {
				if !used[i] {
					q.ConstCap[i].SetUint64(uint64(i))
				}
			}
			if _, ok := try(t, ci.C, q, "native", "unused_constcap", key); !ok {
				return
			}
			for i := range used {
				q := hp.Clone()
				var e fr.Element
				e.SetUint64(1)
				q.ConstCap[i].Add(&q.ConstCap[i], &e)
				if _, ok := try(t, ci.C, q, "native", "constcap", key); !ok {
					return
				}
				if k%5 == 0 {
					wl.Attack(t, "native", wl.Job{Name: "constcap", Reject: true, Want: []*big.Int{}, In: key, Prog: func(api frontend.API) []frontend.Variable {
						e2e.Prog(api, ci.C, q, e2e.Opt{})
						return nil
					}}, 1)
				}
				break
			}
			// a proof of another circuit of the same shape
			cj := prover.Build(pa, t.R.Int63())
			q = cj.Prove(&prover.Cheat{Digest: &ci.Digest, Rng: t.R})
			q.ConstCap = hp.ConstCap
			try(t, ci.C, q, "native", "foreign", key)
			q = cj.Prove(nil)
			q.ConstCap, q.Digest = hp.ConstCap, hp.Digest
			try(t, ci.C, q, "native", "foreign_digest", key)
			// the constants of another circuit with the wires of this one
			q = hp.Clone()
			q.ConstCap = cj.Prove(&prover.Cheat{NoGrind: true}).ConstCap
			try(t, ci.C, q, "native", "foreign_constants", key)
			// circuit parameters
			cm := *ci.C
			cm.KIs = append([]uint64(nil), cm.KIs...)
			i := t.R.Intn(len(cm.KIs))
			cm.KIs[i] = other(t, cm.KIs[i])
			try(t, &cm, hp, "native", "kis", key)
			cm = *ci.C
			cm.KIs = append([]uint64(nil), cm.KIs...)
			i, j := t.R.Intn(len(cm.KIs)), t.R.Intn(len(cm.KIs))
			cm.KIs[i], cm.KIs[j] = cm.KIs[j], cm.KIs[i]
			try(t, &cm, hp, "native", "kis_swapped", key)
			cm = *ci.C
			cm.Gates = append([]ref.Gate(nil), cm.Gates...)
			cm.Gates[2] = ref.ArithmeticGate{1}
			try(t, &cm, hp, "native", "gates_weaker", key)
			cm.Gates[2] = ref.MulExtGate{1}
			try(t, &cm, hp, "native", "gates", key)
			cm.Gates[2], cm.Gates[1] = ci.C.Gates[1], ci.C.Gates[2]
			try(t, &cm, hp, "native", "gates_swapped", key)
			cm = *ci.C
			cm.PowBits = 40
			try(t, &cm, hp, "native", "difficulty", key)
		})
	}
	// the recorded proof with another claim
	c.Case("real", func(t *chk.T) {
		cm, p, err := adapt.LoadReal("/repo/testdata/step")
		if err != nil {
			panic(err)
		}
		q := p.Clone()
		i := t.R.Intn(len(q.PIs))
		q.PIs[i].SetUint64(other(t, q.PIs[i].Uint64()))
		try(t, cm, q, "native", "pi_post", "real")
	})
}
