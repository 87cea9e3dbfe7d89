// C13: the opening check accepts exactly the proofs plonky2's FRI verifier
// accepts, for chosen challenges.
package main

import (
	"fmt"
	"math/big"
	"strings"

	"vharness/adapt"
	"vharness/chk"
	"vharness/prover"
	"vharness/ref"
	"vharness/wl"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark/frontend"
	"github.com/succinctlabs/gnark-plonky2-verifier/fri"
	"github.com/succinctlabs/gnark-plonky2-verifier/variables"
)

func main() {
	chk.Main(chk.Opt{ID: "C13", Level: "exploration",
		Rule:        "one evaluation = one execution of the real opening check on a proof made for chosen challenges (query positions, folding and combination challenges, evaluation point, proof of work response), whose verdict was compared with the reference FRI verifier: honest proofs, and proofs that fail exactly one of its checks (one sibling, cap entry, column, folding value, component, coefficient, opening, proof of work bit), with an honest and with a dishonest prover; distinct = changed place class x FRI shape x prover",
		Assumptions: []string{"challenges are canonical and proof limbs are range checked (C12, C04)", "folding challenges outside the queried coset (plonky2 interpolates there, this repository refuses; probability 2^-124)", "cap height 4 and arity 16, the only ones the repository supports"},
		Need:        []string{"accept:", "reject:merkle:init", "reject:merkle:step", "reject:fri:step", "reject:fri:final", "reject:pow", "reject:fri:denominator", "attack:"}}, run)
}

type shape struct {
	d, rate int
	arity   []int
	q       int
	pow     int
	wires   int
	routed  int
	qdf     int
	nc      int
	extra   int
}

func (s shape) String() string {
	return fmt.Sprintf("deg%d rate%d steps%d q%d pow%d w%d r%d f%d c%d", s.d, s.rate, len(s.arity), s.q, s.pow, s.wires, s.routed, s.qdf, s.nc)
}

type inst struct {
	s  shape
	ci *prover.Circuit
	c  *ref.Common
	ch ref.Challenges
	p  *ref.Proof
}

func (x *inst) clone() *inst {
	y := *x
	y.p = x.p.Clone()
	y.ch.FriBetas = append([]ref.Ext(nil), x.ch.FriBetas...)
	y.ch.Indices = append([]uint64(nil), x.ch.Indices...)
	return &y
}

func (x *inst) prog(api frontend.API) []frontend.Variable {
	m := adapt.Mk(adapt.Wire)
	cd := adapt.Common(x.c)
	chip := fri.NewChip(api, &cd, &cd.FriParams)
	pr, _, vd := adapt.Proof(x.p, m)
	zeta := adapt.X(x.ch.Zeta, m)
	fc := variables.FriChallenges{FriAlpha: adapt.X(x.ch.FriAlpha, m), FriBetas: adapt.Xs(x.ch.FriBetas, m), FriPowResponse: adapt.U(x.ch.PowResp, m), FriQueryIndices: adapt.Us(x.ch.Indices, m)}
	caps := []variables.FriMerkleCap{vd.ConstantSigmasCap, pr.WiresCap, pr.PlonkZsPartialProductsCap, pr.QuotientPolysCap}
	chip.VerifyFriProof(chip.GetInstance(zeta), chip.ToOpenings(pr.Openings), &fc, caps, &pr.OpeningProof)
	return nil
}

func (x *inst) fails() ref.Fails {
	var f ref.Fails
	ref.FriChecks(x.c, x.p, &x.ch, &f)
	return f
}

func class(f ref.Fails) string {
	if len(f) == 0 {
		return ""
	}
	k := f[0]
	if i := strings.LastIndex(k, ":q"); i > 0 {
		k = k[:i]
	}
	if len(f) > 1 {
		k += "+"
	}
	return k
}

// verdict compares; single demands that exactly one reference check fails.
func (x *inst) verdict(t *chk.T, mode, what string, single bool) bool {
	f := x.fails()
	if single && len(f) != 1 {
		panic(fmt.Sprintf("%s: reference fails %v", what, f))
	}
	rej := len(f) > 0
	for _, total := range []bool{false, true} {
		if total && !rej {
			break
		}
		e := wl.Engine(mode)
		e.StopOnFail = true
		e.Honest = !total
		res := e.Run(func(api frontend.API) error { x.prog(api); return nil })
		t.C.Stat("assertions", e.NAssert)
		t.C.Stat("range_checks", e.NRange)
		if res.Accepted == rej {
			t.Fail("%s [%s, total prover %v]: %s, but the reference fails %v; %s; indices %v", what, mode, total, res, f, x.s, x.ch.Indices)
			return false
		}
		if rej {
			t.OK(fmt.Sprintf("reject:%s:%s:steps%d:%v", class(f), what, len(x.s.arity), total))
		} else {
			t.OK(fmt.Sprintf("accept:%s:%s:%s", mode, what, x.s))
		}
	}
	return true
}

func (x *inst) job(name string) wl.Job {
	return wl.Job{Name: name, Reject: len(x.fails()) > 0, Want: []*big.Int{}, In: x.s.String(), Prog: x.prog}
}

func (x *inst) capIdx(q int) int {
	return int(x.ch.Indices[q]&(1<<uint(x.c.LdeBits())-1)) >> uint(x.c.LdeBits()-4)
}

func (x *inst) idx(q int) uint64 { return x.ch.Indices[q] & (1<<uint(x.c.LdeBits()) - 1) }

func (x *inst) initCap(o int) []fr.Element {
	return [][]fr.Element{x.p.ConstCap, x.p.WiresCap, x.p.ZsCap, x.p.QuotCap}[o]
}

// rerootInit makes the Merkle check of an initial oracle pass.
func (x *inst) rerootInit(o, q int) {
	e := x.p.Rounds[q].Init[o]
	x.initCap(o)[x.capIdx(q)] = ref.MerkleRoot(e.Leaf, x.idx(q), e.Path)
}

func (x *inst) rerootStep(s, q int) {
	st := x.p.Rounds[q].Steps[s]
	var leaf []fr.Element
	for i := range st.Evals {
		leaf = append(leaf, st.Evals[i][0], st.Evals[i][1])
	}
	x.p.CommitCaps[s][x.capIdx(q)] = ref.MerkleRoot(leaf, x.idx(q)>>uint(4*(s+1)), st.Path)
}

func val(e *fr.Element) uint64 { return e.Uint64() }

func set(e *fr.Element, v uint64) { e.SetUint64(v) }

// point is the query point of q entering step s.
func (x *inst) point(q, s int) uint64 {
	l := x.c.LdeBits()
	v := ref.Mul(ref.Gen, ref.Exp(ref.Root(l), uint64(ref.RevBits(int(x.idx(q)), l))))
	for i := 0; i < 4*s; i++ {
		v = ref.Mul(v, v)
	}
	return v
}

// coset is the points of the leaf of step s in the order of the evaluations.
func (x *inst) coset(q, s int) []uint64 {
	pt := x.point(q, s)
	in := int(x.idx(q)>>uint(4*s)) & 15
	g := ref.Root(4)
	start := ref.Mul(pt, ref.Exp(ref.Inv(g), uint64(ref.RevBits(in, 4))))
	o := make([]uint64, 16)
	for j := range o {
		o[j] = ref.Mul(start, ref.Exp(g, uint64(ref.RevBits(j, 4))))
	}
	return o
}

func delta(t *chk.T) uint64 {
	switch t.R.Intn(5) {
	case 0:
		return 1
	case 1:
		return ref.P - 1
	case 2:
		return 1 << 32
	}
	return 1 + t.R.Uint64()%(ref.P-1)
}

func chal(t *chk.T) ref.Ext {
	for {
		e := wl.Ext(t.R)
		if !e.IsZero() {
			return e
		}
	}
}

// indices with distinct cap entries, edge positions included.
func indices(t *chk.T, s shape) []uint64 {
	l := uint(s.d + s.rate)
	perm := t.R.Perm(16)
	var o []uint64
	for i := 0; i < s.q; i++ {
		low := t.R.Uint64() & (1<<(l-4) - 1)
		switch t.R.Intn(4) {
		case 0:
			low = 0
		case 1:
			low = 1<<(l-4) - 1
		}
		v := uint64(perm[i%16])<<(l-4) | low
		if t.R.Intn(2) == 0 { // bits beyond the domain do not count
			hi := t.R.Uint64() << l
			if t.R.Intn(3) == 0 {
				hi = 0xfffffffe00000000 >> l << l
			}
			if hi|v < ref.P {
				v |= hi
			}
		}
		o = append(o, v)
	}
	return o
}

func powResp(t *chk.T, pow int) uint64 {
	var top uint64 = ref.P - 1
	if pow > 0 {
		top = 1<<(64-uint(pow)) - 1
	}
	if top > ref.P-1 {
		top = ref.P - 1
	}
	switch t.R.Intn(3) {
	case 0:
		return top
	case 1:
		return 0
	}
	return t.R.Uint64() % top
}

func gen(t *chk.T, s shape) *inst {
	gs := []ref.Gate{ref.NoopGate{}, ref.ArithmeticGate{1}}
	if s.wires < 4 {
		gs = []ref.Gate{ref.NoopGate{}}
	}
	ci := prover.Build(prover.Params{Gates: gs, DegreeBits: s.d, RateBits: s.rate, PowBits: s.pow, Queries: s.q, Arity: s.arity, NumWires: s.wires, NumRouted: s.routed, QDF: s.qdf, NumChallenges: s.nc, ExtraConsts: s.extra}, t.R.Int63())
	x := &inst{s: s, ci: ci, c: ci.C}
	x.ch = ref.Challenges{FriAlpha: chal(t), Zeta: chal(t), PowResp: powResp(t, s.pow), Indices: indices(t, s)}
	for range s.arity {
		x.ch.FriBetas = append(x.ch.FriBetas, chal(t))
	}
	x.prove(t)
	return x
}

// prove makes a proof for the chosen challenges; challenges that hit the
// domain are moved away.
func (x *inst) prove(t *chk.T) {
	for q := range x.ch.Indices {
		for s := range x.s.arity {
			for _, c := range x.coset(q, s) {
				if x.ch.FriBetas[s] == ref.E(c) {
					x.ch.FriBetas[s][1] = 1
				}
			}
		}
	}
	x.p = x.ci.Prove(&prover.Cheat{Force: &x.ch, Rng: t.R})
}

func run(c *chk.Check) {
	shapes := []shape{
		{5, 3, []int{4}, 2, 16, 6, 4, 2, 2, 0},
		{4, 4, []int{4}, 2, 16, 5, 4, 4, 2, 1},
		{3, 1, nil, 2, 16, 4, 4, 2, 1, 0},
		{5, 3, nil, 3, 8, 8, 8, 8, 2, 0},
		{6, 2, []int{4}, 3, 10, 11, 6, 3, 3, 2},
		{7, 1, []int{4}, 2, 20, 7, 7, 7, 1, 0},
		{2, 2, nil, 1, 1, 1, 1, 1, 1, 0},
		{1, 3, nil, 1, 63, 2, 2, 1, 2, 0},
		{9, 3, []int{4, 4}, 2, 16, 5, 4, 2, 2, 0},
		{8, 4, []int{4, 4}, 1, 0, 4, 2, 1, 2, 3},
		{8, 1, []int{4}, 2, 32, 24, 16, 8, 2, 0},
		{5, 3, []int{4}, 5, 16, 135, 80, 8, 2, 2},
		{6, 3, []int{4}, 4, 12, 30, 12, 4, 2, 0},
		{4, 5, []int{4}, 2, 7, 9, 9, 3, 2, 0},
		{5, 3, []int{4}, 16, 16, 4, 4, 4, 2, 0},
		{3, 5, nil, 4, 40, 10, 10, 2, 4, 1},
	}
	if c.Thorough {
		for _, s := range []shape{
			{10, 2, []int{4, 4}, 3, 16, 5, 4, 2, 2, 0}, {12, 1, []int{4, 4}, 2, 16, 4, 4, 2, 2, 0}, {12, 4, []int{4, 4, 4}, 2, 16, 4, 2, 2, 1, 0},
			{5, 3, []int{4}, 28, 16, 20, 16, 8, 2, 0}, {6, 6, []int{4}, 3, 16, 6, 6, 2, 2, 0}, {2, 8, nil, 3, 16, 6, 6, 2, 2, 0},
		} {
			shapes = append(shapes, s)
		}
	}
	rep := 2
	if c.Thorough {
		rep = 24
	}
	for r := 0; r < rep; r++ {
		for k, s := range shapes {
			if r > 0 && s.d+s.rate > 10 && !c.Thorough {
				continue
			}
			c.Case(fmt.Sprintf("shape%d/%d", k, r), func(t *chk.T) { one(t, s, r) })
		}
	}
	// proof of work: every difficulty
	for pow := 0; pow <= 63; pow++ {
		if !c.Thorough && pow > 24 && pow%4 != 0 && pow != 31 && pow != 33 && pow != 63 {
			continue
		}
		c.Case(fmt.Sprintf("pow%d", pow), func(t *chk.T) { pows(t, pow) })
	}
	// every position of a small domain
	c.Case("positions", func(t *chk.T) {
		x := gen(t, shape{3, 2, nil, 4, 4, 4, 4, 2, 1, 0})
		for i := 0; i < 32; i += 4 {
			y := x.clone()
			for j := range y.ch.Indices {
				y.ch.Indices[j] = uint64(i + j)
			}
			y.prove(t)
			y.verdict(t, "native", "positions", false)
		}
	})
	for k := 0; k < 16; k++ {
		c.Case(fmt.Sprintf("coset%d", k), func(t *chk.T) {
			x := gen(t, shape{4, 4, []int{4}, 2, 4, 4, 4, 2, 1, 0})
			x.ch.Indices = []uint64{uint64(k) | uint64(t.R.Intn(16))<<4, uint64(k)<<4 | uint64(t.R.Intn(16))}
			x.prove(t)
			x.verdict(t, "native", "coset", false)
		})
	}
}

func pows(t *chk.T, pow int) {
	x := gen(t, shape{2, 2, nil, 1, pow, 1, 1, 1, 1, 0})
	vals := []uint64{0, 1, ref.P - 1, 1 << 63, 1 << 32, 1<<32 - 1}
	for d := -2; d <= 2; d++ {
		if k := 64 - pow + d; k >= 0 && k < 64 {
			vals = append(vals, 1<<uint(k), 1<<uint(k)-1, 1<<uint(k)+1)
		}
	}
	for i, v := range vals {
		if v >= ref.P {
			continue
		}
		y := x.clone()
		y.ch.PowResp = v
		f := y.fails()
		mode := wl.Modes[i%2]
		if !y.verdict(t, mode, "powresp", len(f) > 0) {
			return
		}
		if len(f) > 0 && i%3 == 0 {
			wl.Attack(t, mode, y.job("pow"), 1)
		}
	}
}

func one(t *chk.T, s shape, rep int) {
	x := gen(t, s)
	ns := len(s.arity)
	att := 0
	if s.d+s.rate <= 8 && s.q <= 3 {
		att = 1
		if t.C.Thorough {
			att = 6
		}
	}
	attack := func(y *inst, what string) {
		if att > 0 {
			wl.Attack(t, "native", y.job(what), att)
		}
	}
	if !x.verdict(t, "native", "honest", false) {
		return
	}
	if rep == 0 && s.wires < 12 && s.q < 4 {
		x.verdict(t, "bits", "honest", false)
	}
	if rep == 0 {
		attack(x, "honest")
	}
	// special challenges
	special := []func(y *inst){
		func(y *inst) { y.ch.FriAlpha = ref.Ext{} },
		func(y *inst) { y.ch.FriAlpha = ref.E(1) },
		func(y *inst) { y.ch.FriAlpha = ref.Ext{0, 1} },
		func(y *inst) { y.ch.Zeta = ref.Ext{} },
		func(y *inst) { y.ch.Zeta = ref.E(ref.P - 1) },
		func(y *inst) {
			for i := range y.ch.FriBetas {
				y.ch.FriBetas[i] = ref.Ext{}
			}
		},
		func(y *inst) {
			for i := range y.ch.FriBetas {
				y.ch.FriBetas[i] = ref.E(wl.Pick(t.R))
			}
		},
		func(y *inst) {
			for i := range y.ch.Indices {
				y.ch.Indices[i] = y.ch.Indices[0]
			}
		},
	}
	for i, f := range special {
		if s.d+s.rate > 9 && i%3 != rep%3 {
			continue
		}
		y := x.clone()
		f(y)
		y.prove(t)
		if !y.verdict(t, "native", fmt.Sprintf("special%d", i), false) {
			return
		}
	}
	// the evaluation point on the queried domain
	for k := 0; k < 2; k++ {
		y := x.clone()
		q := t.R.Intn(s.q)
		y.ch.Zeta = ref.E(x.point(q, 0))
		if k == 1 {
			y.ch.Zeta = y.ch.Zeta.Scale(ref.Inv(ref.Root(s.d)))
		}
		// make every other check of the round pass: openings equal to the leaf
		y.prove(t)
		y.verdict(t, "native", "zeta_on_domain", false)
		attack(y, "zeta_on_domain")
	}
	for q := 0; q < s.q; q++ {
		if s.q > 3 && q != 0 && q != s.q-1 && q != s.q/2 {
			continue
		}
		// siblings
		for o := 0; o < 4; o++ {
			np := len(x.p.Rounds[q].Init[o].Path)
			for l := 0; l < np; l++ {
				if np > 4 && l != 0 && l != np-1 && (l+o+rep)%3 != 0 {
					continue
				}
				y := x.clone()
				e := &y.p.Rounds[q].Init[o].Path[l]
				var d fr.Element
				d.SetUint64(delta(t))
				e.Add(e, &d)
				if !y.verdict(t, "native", fmt.Sprintf("sibling%d", l), true) {
					return
				}
			}
			// the cap entry
			y := x.clone()
			cp := y.initCap(o)
			var d fr.Element
			d.SetUint64(delta(t))
			cp[y.capIdx(q)].Add(&cp[y.capIdx(q)], &d)
			if !y.verdict(t, "native", "cap", true) {
				return
			}
			if q == 0 {
				attack(y, "cap")
			}
			// a cap entry that is not queried
			if s.q < 16 {
				z := x.clone()
				used := map[int]bool{}
				for i := range z.ch.Indices {
					used[z.capIdx(i)] = true
				}
				for i := 0; i < 16; i++ {
					if !used[i] {
						z.initCap(o)[i].SetUint64(5)
					}
				}
				if q == 0 && !z.verdict(t, "native", "unused_cap", false) {
					return
				}
			}
			// the entry of another position
			if q == 0 {
				z := x.clone()
				k := (x.capIdx(q) + 1 + t.R.Intn(15)) % 16
				zc := z.initCap(o)
				zc[k], zc[z.capIdx(q)] = zc[z.capIdx(q)], zc[k]
				if !z.verdict(t, "native", "swapped_cap", false) {
					return
				}
			}
			// columns, with a consistent Merkle path
			nl := len(x.p.Rounds[q].Init[o].Leaf)
			for j := 0; j < nl; j++ {
				if nl > 6 && j != 0 && j != nl-1 && t.R.Intn(nl) > 3 {
					continue
				}
				y := x.clone()
				e := &y.p.Rounds[q].Init[o].Leaf[j]
				set(e, ref.Add(val(e), delta(t)))
				y.rerootInit(o, q)
				if !y.verdict(t, "native", fmt.Sprintf("column%d", o), false) {
					return
				}
				if j == 0 && q == 0 && o == rep%4 {
					attack(y, "column")
				}
				// without it
				if j == nl-1 {
					y = x.clone()
					e := &y.p.Rounds[q].Init[o].Leaf[j]
					set(e, ref.Add(val(e), delta(t)))
					y.verdict(t, "native", fmt.Sprintf("leaf%d", o), false)
				}
			}
			if nl > 1 {
				y := x.clone()
				lf := y.p.Rounds[q].Init[o].Leaf
				i, j := t.R.Intn(nl), t.R.Intn(nl)
				lf[i], lf[j] = lf[j], lf[i]
				y.rerootInit(o, q)
				if !y.verdict(t, "native", fmt.Sprintf("columns_swapped%d", o), false) {
					return
				}
			}
		}
		// folding steps
		for st := 0; st < ns; st++ {
			np := len(x.p.Rounds[q].Steps[st].Path)
			for l := 0; l < np; l++ {
				y := x.clone()
				e := &y.p.Rounds[q].Steps[st].Path[l]
				var d fr.Element
				d.SetUint64(delta(t))
				e.Add(e, &d)
				if !y.verdict(t, "native", fmt.Sprintf("sibling%d", l), true) {
					return
				}
			}
			y := x.clone()
			var d fr.Element
			d.SetUint64(delta(t))
			ce := &y.p.CommitCaps[st][y.capIdx(q)]
			ce.Add(ce, &d)
			if !y.verdict(t, "native", "cap", true) {
				return
			}
			if q == 0 {
				attack(y, "stepcap")
			}
			// a codeword that differs from the previous one only at the query,
			// in one component, and folds to the same value
			for comp := 0; comp < 2; comp++ {
				y := x.clone()
				var e ref.Ext
				e[comp] = delta(t)
				beta := x.ch.FriBetas[st]
				pt := x.point(q, st)
				k := e.Mul(beta.Sub(ref.E(pt)).Inv())
				for j, cx := range x.coset(q, st) {
					ev := &y.p.Rounds[q].Steps[st].Evals[j]
					n := ref.Ext{val(&ev[0]), val(&ev[1])}.Add(k.Mul(beta.Sub(ref.E(cx))))
					*ev = ref.ToV2(n)
				}
				y.rerootStep(st, q)
				if !y.verdict(t, "native", fmt.Sprintf("fold%d", comp), true) {
					return
				}
				attack(y, "fold")
			}
			// each value of the coset
			for j := 0; j < 16; j++ {
				if rep > 0 && t.R.Intn(3) > 0 && !t.C.Thorough {
					continue
				}
				y := x.clone()
				ev := &y.p.Rounds[q].Steps[st].Evals[j]
				c := t.R.Intn(2)
				set(&ev[c], ref.Add(val(&ev[c]), delta(t)))
				y.rerootStep(st, q)
				if !y.verdict(t, "native", fmt.Sprintf("eval%d", j), false) {
					return
				}
			}
			y = x.clone()
			ev := y.p.Rounds[q].Steps[st].Evals
			i, j := t.R.Intn(16), t.R.Intn(16)
			ev[i], ev[j] = ev[j], ev[i]
			y.rerootStep(st, q)
			if !y.verdict(t, "native", "evals_swapped", false) {
				return
			}
		}
		// the final polynomial differs at this query only, in one component
		for comp := 0; comp < 2; comp++ {
			if s.q > len(x.p.Final) {
				break
			}
			y := x.clone()
			poly := []uint64{1}
			dup := false
			for k := 0; k < s.q; k++ {
				if k == q {
					continue
				}
				r := x.point(k, ns)
				if r == x.point(q, ns) {
					dup = true
				}
				n := make([]uint64, len(poly)+1)
				for i, c := range poly {
					n[i+1] = ref.Add(n[i+1], c)
					n[i] = ref.Sub(n[i], ref.Mul(c, r))
				}
				poly = n
			}
			dl := delta(t)
			for i := range poly {
				e := &y.p.Final[i][comp]
				set(e, ref.Add(val(e), ref.Mul(poly[i], dl)))
			}
			if !y.verdict(t, "native", fmt.Sprintf("final%d", comp), !dup) {
				return
			}
			attack(y, "final")
		}
		// the steps of another query
		if s.q > 1 {
			y := x.clone()
			k := (q + 1) % s.q
			y.p.Rounds[q], y.p.Rounds[k] = y.p.Rounds[k], y.p.Rounds[q]
			if !y.verdict(t, "native", "rounds_swapped", false) {
				return
			}
		}
		// another position
		y := x.clone()
		y.ch.Indices[q] ^= 1 << uint(t.R.Intn(x.c.LdeBits()))
		if !y.verdict(t, "native", "position", false) {
			return
		}
	}
	// coefficients of the final polynomial
	for i := range x.p.Final {
		if len(x.p.Final) > 8 && i != 0 && i != len(x.p.Final)-1 && t.R.Intn(len(x.p.Final)) > 3 {
			continue
		}
		y := x.clone()
		c := t.R.Intn(2)
		e := &y.p.Final[i][c]
		set(e, ref.Add(val(e), delta(t)))
		if !y.verdict(t, "native", "coeff", false) {
			return
		}
	}
	// openings
	for li, l := range x.p.Lists() {
		for i := range *l {
			n := len(*l)
			if n > 4 && i != 0 && i != n-1 && t.R.Intn(n) > 3 {
				continue
			}
			y := x.clone()
			c := t.R.Intn(2)
			e := &(*y.p.Lists()[li])[i][c]
			set(e, ref.Add(val(e), delta(t)))
			if !y.verdict(t, "native", fmt.Sprintf("opening%d", li), false) {
				return
			}
		}
	}
	// challenges
	for k := 0; k < 3; k++ {
		y := x.clone()
		switch k {
		case 0:
			y.ch.FriAlpha[t.R.Intn(2)] = ref.Rnd(t.R)
		case 1:
			y.ch.Zeta[t.R.Intn(2)] = ref.Rnd(t.R)
		case 2:
			if ns == 0 {
				continue
			}
			y.ch.FriBetas[t.R.Intn(ns)][t.R.Intn(2)] = ref.Rnd(t.R)
		}
		if !y.verdict(t, "native", fmt.Sprintf("challenge%d", k), false) {
			return
		}
	}
}
