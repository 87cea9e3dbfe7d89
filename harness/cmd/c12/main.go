// C12: the challenges are the ones plonky2 derives from the same digest,
// public inputs and proof, whatever their shapes and values.
package main

import (
	"fmt"
	"math/big"

	"vharness/adapt"
	"vharness/chk"
	"vharness/prover"
	"vharness/ref"
	"vharness/wl"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark/frontend"
	"github.com/succinctlabs/gnark-plonky2-verifier/verifier"
)

func main() {
	chk.Main(chk.Opt{ID: "C12", Level: "exploration",
		Rule:        "one evaluation = one execution of the real public input hashing and challenge derivation on a proof of random shape and values, all challenges compared with the reference transcript; or a run with one place of the proof changed; or a run with dishonest hint answers that must not be accepted with other challenges; distinct = shape class x changed place x prover",
		Assumptions: []string{"proof limbs are canonical (C04)", "the reference transcript reproduces the two recorded proofs of the repository"},
		Need:        []string{"honest:native:shape", "honest:bits:shape", "honest:native:changed", "attack:", "honest:native:real", "honest:native:pi"}}, run)
}

func rndV(t *chk.T) (v fr.Element) {
	v.SetUint64(wl.Pick(t.R))
	return
}

var edgeH = func() (o []fr.Element) {
	one := big.NewInt(1)
	for _, k := range []uint{0, 1, 55, 56, 57, 63, 64, 65, 111, 112, 113, 167, 168, 169, 223, 224, 225, 252, 253} {
		var e fr.Element
		b := new(big.Int).Lsh(one, k)
		e.SetBigInt(b)
		o = append(o, e)
		e.SetBigInt(new(big.Int).Sub(b, one))
		o = append(o, e)
	}
	var e fr.Element
	e.SetBigInt(new(big.Int).Sub(fr.Modulus(), one))
	return append(o, e)
}()

func rndH(t *chk.T) (h fr.Element) {
	if t.R.Intn(6) == 0 {
		return edgeH[t.R.Intn(len(edgeH))]
	}
	h.SetBigInt(new(big.Int).Rand(t.R, fr.Modulus()))
	return
}

func hs(t *chk.T, n int) []fr.Element {
	o := make([]fr.Element, n)
	for i := range o {
		o[i] = rndH(t)
	}
	return o
}

func v2(t *chk.T, n int) []ref.V2 {
	o := make([]ref.V2, n)
	for i := range o {
		o[i] = ref.ToV2(wl.Ext(t.R))
	}
	return o
}

// random proof of a random shape; only what the transcript reads.
func random(t *chk.T, big bool) (*ref.Common, *ref.Proof) {
	m := 6
	if big {
		m = 60
	}
	r := func() int { return 1 + t.R.Intn(m) }
	c := &ref.Common{NumChallenges: 1 + t.R.Intn(4), QDF: 1 + t.R.Intn(8), CapHeight: 4, RateBits: 3, NumQueries: 1 + t.R.Intn(28), PowBits: 1 + t.R.Intn(20), Gates: []ref.Gate{ref.NoopGate{}}, Groups: [][2]int{{0, 1}}, SelIdx: []int{0}}
	if !big {
		c.NumQueries = 1 + t.R.Intn(8)
	}
	k := t.R.Intn(4)
	c.DegreeBits = 4*k + t.R.Intn(4)
	for i := 0; i < k; i++ {
		c.Arity = append(c.Arity, 4)
	}
	c.NumConstants, c.NumRouted, c.NumWires, c.NPP = r(), r(), r(), t.R.Intn(m)
	c.NumPI = t.R.Intn(2 * m)
	p := &ref.Proof{WiresCap: hs(t, 16), ZsCap: hs(t, 16), QuotCap: hs(t, 16), ConstCap: hs(t, 16), Digest: rndH(t)}
	p.Constants, p.Sigmas, p.Wires = v2(t, c.NumConstants), v2(t, c.NumRouted), v2(t, c.NumWires)
	p.Zs, p.ZsNext = v2(t, c.NumChallenges), v2(t, c.NumChallenges)
	p.PartialProducts, p.Quotients = v2(t, c.NumChallenges*c.NPP), v2(t, c.NumChallenges*c.QDF)
	for i := 0; i < k; i++ {
		p.CommitCaps = append(p.CommitCaps, hs(t, 16))
	}
	p.Final = v2(t, c.FinalLen())
	p.Pow = rndV(t)
	for i := 0; i < c.NumPI; i++ {
		p.PIs = append(p.PIs, rndV(t))
	}
	return c, p
}

func want(c *ref.Common, p *ref.Proof) (o []*big.Int) {
	h := ref.PIHash(p.PIs)
	ch := ref.GetChallenges(c, p)
	add := func(x ...uint64) { o = append(o, wl.Bs(x...)...) }
	add(h[:]...)
	add(ch.Betas...)
	add(ch.Gammas...)
	add(ch.Alphas...)
	add(ch.Zeta[:]...)
	add(ch.FriAlpha[:]...)
	for _, b := range ch.FriBetas {
		add(b[:]...)
	}
	add(ch.PowResp)
	add(ch.Indices...)
	return
}

func job(name string, c *ref.Common, p *ref.Proof, konst bool) wl.Job {
	in := fmt.Sprintf("ch%d qdf%d steps%d q%d pis%d", c.NumChallenges, c.QDF, len(c.Arity), c.NumQueries, c.NumPI)
	return wl.Job{Name: name, Want: want(c, p), In: in, Prog: func(api frontend.API) (o []frontend.Variable) {
		m := adapt.Mk(adapt.Wire)
		pr, pis, vd := adapt.Proof(p, m)
		if konst {
			_, _, vd = adapt.Proof(p, adapt.Const)
		}
		v := verifier.NewVerifierChip(api, adapt.Common(c))
		h := v.GetPublicInputsHash(pis)
		ch := v.GetChallenges(pr, h, vd)
		for _, x := range h {
			o = append(o, x.Limb)
		}
		for _, x := range ch.PlonkBetas {
			o = append(o, x.Limb)
		}
		for _, x := range ch.PlonkGammas {
			o = append(o, x.Limb)
		}
		for _, x := range ch.PlonkAlphas {
			o = append(o, x.Limb)
		}
		o = append(o, ch.PlonkZeta[0].Limb, ch.PlonkZeta[1].Limb)
		f := ch.FriChallenges
		o = append(o, f.FriAlpha[0].Limb, f.FriAlpha[1].Limb)
		for _, b := range f.FriBetas {
			o = append(o, b[0].Limb, b[1].Limb)
		}
		o = append(o, f.FriPowResponse.Limb)
		for _, x := range f.FriQueryIndices {
			o = append(o, x.Limb)
		}
		return
	}}
}

func run(c *chk.Check) {
	n, nb, nc, na := 150, 8, 8, 2
	if c.Thorough {
		n, nb, nc, na = 4000, 400, 200, 80
	}
	for k := 0; k < n; k++ {
		c.Case(fmt.Sprintf("shape/%d", k), func(t *chk.T) {
			cm, p := random(t, k%15 == 14)
			mode := "native"
			if k < nb {
				mode = "bits"
				cm, p = random(t, false)
			}
			key := fmt.Sprintf("shape:ch%d:steps%d:pis%d", cm.NumChallenges, len(cm.Arity), cm.NumPI%8)
			wl.Honest(t, mode, job(key, cm, p, k%2 == 0))
		})
	}
	// every place of a proof
	for k := 0; k < nc; k++ {
		c.Case(fmt.Sprintf("changed/%d", k), func(t *chk.T) {
			cm, p := random(t, false)
			lists := p.Lists()
			names := []string{"constants", "sigmas", "wires", "zs", "partial", "quotients", "zsnext"}
			ok := true
			try := func(what string, f func(q *ref.Proof)) {
				if !ok {
					return
				}
				q := p.Clone()
				f(q)
				_, ok = wl.Honest(t, "native", job("changed:"+what, cm, q, false))
			}
			for i := range lists {
				if len(*lists[i]) == 0 {
					continue
				}
				for _, j := range []int{0, len(*lists[i]) - 1} {
					for comp := 0; comp < 2; comp++ {
						try(names[i], func(q *ref.Proof) { (*q.Lists()[i])[j][comp] = rndV(t) })
					}
				}
			}
			pos := t.R.Intn(16)
			for _, j := range []int{0, 15, pos} {
				try("wirescap", func(q *ref.Proof) { q.WiresCap[j] = rndH(t) })
				try("zscap", func(q *ref.Proof) { q.ZsCap[j] = rndH(t) })
				try("quotcap", func(q *ref.Proof) { q.QuotCap[j] = rndH(t) })
				try("constcap", func(q *ref.Proof) { q.ConstCap[j] = rndH(t) })
				for s := range p.CommitCaps {
					try("commitcap", func(q *ref.Proof) { q.CommitCaps[s][j] = rndH(t) })
				}
			}
			for _, j := range []int{0, len(p.Final) - 1} {
				try("final", func(q *ref.Proof) { q.Final[j][t.R.Intn(2)] = rndV(t) })
			}
			try("pow", func(q *ref.Proof) { q.Pow = rndV(t) })
			for _, h := range edgeH {
				if t.R.Intn(4) == 0 {
					try("digest", func(q *ref.Proof) { q.Digest = h })
				}
			}
			if len(p.PIs) > 0 {
				for _, j := range []int{0, len(p.PIs) - 1} {
					try("pi", func(q *ref.Proof) { q.PIs[j] = rndV(t) })
				}
			}
		})
	}
	// public inputs: every number of them
	for k := 0; k <= 70; k++ {
		if !c.Thorough && k > 20 && k%3 != 1 {
			continue
		}
		c.Case(fmt.Sprintf("pi/%d", k), func(t *chk.T) {
			cm, p := random(t, false)
			p.PIs = nil
			cm.NumPI = k
			for i := 0; i < k; i++ {
				p.PIs = append(p.PIs, rndV(t))
			}
			wl.Honest(t, "native", job(fmt.Sprintf("pi:%d", k), cm, p, false))
		})
	}
	// the recorded proofs and ones made here
	for _, d := range []string{"step", "decode_block"} {
		c.Case("real/"+d, func(t *chk.T) {
			cm, p, err := adapt.LoadReal("/repo/testdata/" + d)
			if err != nil {
				panic(err)
			}
			if _, ok := wl.Honest(t, "native", job("real:"+d, cm, p, true)); !ok {
				return
			}
			for k := 0; k < 4; k++ {
				q := p.Clone()
				l := *q.Lists()[t.R.Intn(7)]
				l[t.R.Intn(len(l))][t.R.Intn(2)] = rndV(t)
				q.Digest = rndH(t)
				wl.Honest(t, "native", job("real_changed:"+d, cm, q, true))
			}
		})
	}
	c.Case("made", func(t *chk.T) {
		ci := prover.Build(prover.Params{Gates: []ref.Gate{ref.NoopGate{}, ref.ArithmeticGate{2}}, DegreeBits: 5, RateBits: 3, Queries: 4, Arity: []int{4}, QDF: 4, NumChallenges: 2, NumPI: 5, PowBits: 4}, t.R.Int63())
		wl.Honest(t, "native", job("made", ci.C, ci.Prove(nil), false))
	})
	for k := 0; k < na; k++ {
		c.Case(fmt.Sprintf("attack/%d", k), func(t *chk.T) {
			cm, p := random(t, false)
			cm.Arity, p.CommitCaps = nil, nil
			cm.DegreeBits = 1
			p.Final = v2(t, 2)
			wl.Attack(t, "native", job("attack", cm, p, false), 1)
		})
	}
}
