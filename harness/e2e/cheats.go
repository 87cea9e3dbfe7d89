package e2e

import (
	"fmt"
	"strings"

	"vharness/chk"
	"vharness/prover"
	"vharness/ref"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
)

func addU(v *fr.Element, d uint64) {
	x := ref.Add(ref.ModP(v), d)
	v.SetUint64(x)
}

func addH(v *fr.Element, d uint64) {
	var e fr.Element
	e.SetUint64(d)
	v.Add(v, &e)
}

func nz(t *chk.T) uint64 {
	if t.R.Intn(3) == 0 {
		return []uint64{1, ref.P - 1, 1 << 32}[t.R.Intn(3)]
	}
	return 1 + t.R.Uint64()%(ref.P-1)
}

// Cheats of a prover that keeps everything else consistent.
func Cheats(t *chk.T, ci *prover.Circuit) (names []string, cs []*prover.Cheat) {
	c := ci.C
	n := 1 << c.DegreeBits
	add := func(name string, ch *prover.Cheat) {
		ch.Rng = t.R
		names, cs = append(names, name), append(cs, ch)
	}
	// a constraint of each gate
	seen := map[int]bool{}
	for _, row := range t.R.Perm(n) {
		g := ci.RowG[row]
		if seen[g] || c.Gates[g].NumWires() == 0 {
			continue
		}
		seen[g] = true
		col := t.R.Intn(c.Gates[g].NumWires())
		d := nz(t)
		add("gate:"+strings.SplitN(c.Gates[g].ID(), "G", 2)[0], &prover.Cheat{Wires: func(w [][]uint64) { w[col][row] = ref.Add(w[col][row], d) }})
	}
	// a copy constraint
	if ci.Copies > 0 {
		for k := 0; k < 2; k++ {
			for try := 0; try < 4000; try++ {
				row, col := t.R.Intn(n), t.R.Intn(c.NumRouted)
				if ci.Sigma[col][row] == ref.Mul(c.KIs[col], ref.Subgroup(c.DegreeBits)[row]) || col < c.Gates[ci.RowG[row]].NumWires() {
					continue
				}
				d := nz(t)
				add("copy", &prover.Cheat{Wires: func(w [][]uint64) { w[col][row] = ref.Add(w[col][row], d) }})
				break
			}
		}
	}
	for k := 0; k < c.NumChallenges; k++ {
		add(fmt.Sprintf("quotient%d", k), &prover.Cheat{Quot: map[int]bool{k: true}})
		add(fmt.Sprintf("zscale%d", k), &prover.Cheat{ZScale: map[int]uint64{k: 2 + t.R.Uint64()%1000}})
	}
	add("zscale_zero", &prover.Cheat{ZeroZs: true})
	for s := range c.Arity {
		for comp := 0; comp < 2; comp++ {
			add(fmt.Sprintf("step%d.%d", s, comp), &prover.Cheat{StepDelta: map[int]int{s: comp}})
		}
	}
	for comp := 1; comp <= 2; comp++ {
		add(fmt.Sprintf("final.%d", comp-1), &prover.Cheat{FinalComp: comp})
	}
	for li := 0; li < 7; li++ {
		add(fmt.Sprintf("opening%d", li), &prover.Cheat{Open: func(p *ref.Proof) {
			l := *p.Lists()[li]
			if len(l) > 0 {
				addU(&l[t.R.Intn(len(l))][t.R.Intn(2)], nz(t))
			}
		}})
	}
	if c.PowBits > 0 {
		if c.PowBits > 1 {
			add("pow", &prover.Cheat{PowZeros: c.PowBits - 1})
		}
		add("pow_none", &prover.Cheat{NoGrind: true})
	}
	add("cap", &prover.Cheat{CapTweak: func(name string, step int, cap []fr.Element) {
		if name == "wires" {
			for i := range cap {
				addH(&cap[i], 1)
			}
		}
	}})
	for _, nm := range []string{"zs", "quot", "commit"} {
		add("cap_"+nm, &prover.Cheat{CapTweak: func(name string, step int, cap []fr.Element) {
			if name == nm {
				for i := range cap {
					addH(&cap[i], 1)
				}
			}
		}})
	}
	return
}

// Posts are changes of a finished proof that leave the transcript alone.
func Posts(t *chk.T, c *ref.Common, p *ref.Proof) (names []string, ps []*ref.Proof) {
	add := func(name string, f func(q *ref.Proof)) {
		q := p.Clone()
		f(q)
		names, ps = append(names, name), append(ps, q)
	}
	for q := range p.Rounds {
		if q > 1 && q != len(p.Rounds)-1 {
			continue
		}
		for o := range p.Rounds[q].Init {
			if n := len(p.Rounds[q].Init[o].Path); n > 0 {
				l := t.R.Intn(n)
				add(fmt.Sprintf("sibling_init%d", o), func(x *ref.Proof) { addH(&x.Rounds[q].Init[o].Path[l], nz(t)) })
			}
			n := len(p.Rounds[q].Init[o].Leaf)
			j := t.R.Intn(n)
			add(fmt.Sprintf("leaf%d", o), func(x *ref.Proof) { addU(&x.Rounds[q].Init[o].Leaf[j], nz(t)) })
		}
		for s := range p.Rounds[q].Steps {
			if n := len(p.Rounds[q].Steps[s].Path); n > 0 {
				l := t.R.Intn(n)
				add(fmt.Sprintf("sibling_step%d", s), func(x *ref.Proof) { addH(&x.Rounds[q].Steps[s].Path[l], nz(t)) })
			}
			j := t.R.Intn(16)
			add(fmt.Sprintf("stepeval%d", s), func(x *ref.Proof) { addU(&x.Rounds[q].Steps[s].Evals[j][t.R.Intn(2)], nz(t)) })
		}
	}
	if len(p.Rounds) > 1 {
		add("rounds", func(x *ref.Proof) { x.Rounds[0], x.Rounds[1] = x.Rounds[1], x.Rounds[0] })
	}
	caps := func(x *ref.Proof) [][]fr.Element {
		return append([][]fr.Element{x.WiresCap, x.ZsCap, x.QuotCap}, x.CommitCaps...)
	}
	for i := range caps(p) {
		add(fmt.Sprintf("cap%d", min(i, 3)), func(x *ref.Proof) { addH(&caps(x)[i][t.R.Intn(16)], nz(t)) })
	}
	add("final_post", func(x *ref.Proof) { addU(&x.Final[t.R.Intn(len(x.Final))][t.R.Intn(2)], nz(t)) })
	add("pow_post", func(x *ref.Proof) { addU(&x.Pow, nz(t)) })
	add("opening_post", func(x *ref.Proof) {
		l := *x.Lists()[t.R.Intn(7)]
		if len(l) > 0 {
			addU(&l[t.R.Intn(len(l))][t.R.Intn(2)], nz(t))
		}
	})
	return
}
