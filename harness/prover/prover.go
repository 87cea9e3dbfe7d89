// Package prover is a small plonky2 prover for the reference verifier: honest
// by default, with switches to cheat in exactly one place.
package prover

import (
	"math/big"
	"math/rand"

	"vharness/ref"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
)

// Circuit is a built circuit.
type Circuit struct {
	C      *ref.Common
	RowG   []int      // gate of each row
	Consts [][]uint64 // columns (selectors first)
	Sigma  [][]uint64
	PIs    []uint64
	pih    [4]uint64
	Wit    [][]uint64 // wire columns
	Copies int
	const_ *oracle
	Digest fr.Element
	Seed   int64
}

// Params of a circuit to build.
type Params struct {
	Gates                                   []ref.Gate
	Groups                                  [][2]int // selector groups over the gates; nil: computed
	DegreeBits, RateBits, PowBits, Queries  int
	Arity                                   []int
	NumWires, NumRouted, QDF, NumChallenges int
	ExtraConsts                             int
	NumPI                                   int
	Copies                                  int
}

// Build makes a circuit with a satisfying witness.
func Build(p Params, seed int64) *Circuit {
	r := rand.New(rand.NewSource(seed))
	c := &ref.Common{NumChallenges: p.NumChallenges, QDF: p.QDF, NumPI: p.NumPI, DegreeBits: p.DegreeBits, RateBits: p.RateBits, CapHeight: 4,
		PowBits: p.PowBits, NumQueries: p.Queries, Arity: p.Arity, Gates: p.Gates, NumWires: p.NumWires, NumRouted: p.NumRouted}
	gc := 0
	for _, g := range p.Gates {
		if g.NumWires() > c.NumWires {
			c.NumWires = g.NumWires()
		}
		if g.NumConsts() > gc {
			gc = g.NumConsts()
		}
		if g.NumConstraints() > c.NumGateConstraints {
			c.NumGateConstraints = g.NumConstraints()
		}
	}
	gc += p.ExtraConsts
	if c.NumRouted == 0 {
		c.NumRouted = c.NumWires / p.QDF * p.QDF
	}
	if c.NumWires < c.NumRouted {
		c.NumWires = c.NumRouted
	}
	if c.NumRouted%p.QDF != 0 || c.NumRouted == 0 {
		panic("prover: routed wires not a multiple of the quotient degree factor")
	}
	c.NPP = c.NumRouted/p.QDF - 1
	c.Groups = p.Groups
	if c.Groups == nil {
		c.Groups = AutoGroups(p.Gates, p.QDF+1)
	}
	c.SelIdx = make([]int, len(p.Gates))
	for k, g := range c.Groups {
		for i := g[0]; i < g[1]; i++ {
			c.SelIdx[i] = k
		}
	}
	ns := len(c.Groups)
	c.NumConstants = ns + gc
	k := uint64(1)
	for i := 0; i < c.NumRouted; i++ {
		c.KIs = append(c.KIs, k)
		k = ref.Mul(k, 7)
	}
	n := 1 << p.DegreeBits
	ci := &Circuit{C: c, Seed: seed}
	for i := 0; i < p.NumPI; i++ {
		ci.PIs = append(ci.PIs, ref.Rnd(r))
	}
	ci.pih = ref.HashNoPad(ci.PIs)
	ci.Consts = cols(c.NumConstants, n)
	ci.Wit = cols(c.NumWires, n)
	row := make([]uint64, c.NumWires)
	crow := make([]uint64, gc)
	perm := r.Perm(n)
	ci.RowG = make([]int, n)
	for i := range ci.RowG {
		g := r.Intn(len(p.Gates))
		ci.RowG[perm[i]] = g
		if i < len(p.Gates) {
			ci.RowG[perm[i]] = i
		}
	}
	for i := 0; i < n; i++ {
		g := ci.RowG[i]
		for k := 0; k < ns; k++ {
			v := uint64(1<<32 - 1)
			if c.SelIdx[g] == k {
				v = uint64(g)
			}
			ci.Consts[k][i] = v
		}
		for j := range crow {
			crow[j] = ref.Rnd(r)
			ci.Consts[ns+j][i] = crow[j]
		}
		p.Gates[g].Fill(r, crow, row, ci.pih)
		for j := range row {
			ci.Wit[j][i] = row[j]
		}
	}
	// copy constraints
	sig := make([][][2]int, c.NumRouted)
	for j := range sig {
		sig[j] = make([][2]int, n)
		for i := range sig[j] {
			sig[j][i] = [2]int{j, i}
		}
	}
	frozen := map[[2]int]bool{}
	var free [][2]int
	for i := 0; i < n; i++ {
		for j := p.Gates[ci.RowG[i]].NumWires(); j < c.NumRouted; j++ {
			free = append(free, [2]int{j, i})
		}
	}
	r.Shuffle(len(free), func(i, j int) { free[i], free[j] = free[j], free[i] })
	for _, t := range free {
		if ci.Copies >= p.Copies {
			break
		}
		if frozen[t] {
			continue
		}
		s := [2]int{r.Intn(c.NumRouted), r.Intn(n)}
		if s == t {
			continue
		}
		frozen[s], frozen[t] = true, true
		ci.Wit[t[0]][t[1]] = ci.Wit[s[0]][s[1]]
		sig[s[0]][s[1]], sig[t[0]][t[1]] = sig[t[0]][t[1]], sig[s[0]][s[1]]
		ci.Copies++
	}
	sub := ref.Subgroup(p.DegreeBits)
	ci.Sigma = cols(c.NumRouted, n)
	for j := range sig {
		for i := range sig[j] {
			t := sig[j][i]
			ci.Sigma[j][i] = ref.Mul(c.KIs[t[0]], sub[t[1]])
		}
	}
	ci.const_ = commit(c, append(append([][]uint64{}, ci.Consts...), ci.Sigma...), nil, nil)
	ci.Digest.SetBigInt(new(big.Int).Rand(r, fr.Modulus()))
	return ci
}

// AutoGroups groups gates greedily so that filtered degrees fit.
func AutoGroups(g []ref.Gate, maxDeg int) [][2]int {
	one := 0
	for _, x := range g {
		if x.Degree() > one {
			one = x.Degree()
		}
	}
	if one+len(g)-1 <= maxDeg {
		return [][2]int{{0, len(g)}}
	}
	var out [][2]int
	s, d := 0, 0
	for i, x := range g {
		nd := d
		if x.Degree() > nd {
			nd = x.Degree()
		}
		if nd+(i-s)+1 > maxDeg && i > s {
			out = append(out, [2]int{s, i})
			s, nd = i, x.Degree()
		}
		d = nd
	}
	return append(out, [2]int{s, len(g)})
}

func cols(m, n int) [][]uint64 {
	o := make([][]uint64, m)
	for i := range o {
		o[i] = make([]uint64, n)
	}
	return o
}

// tree is a Merkle tree with a cap.
type tree struct {
	leaves [][]fr.Element
	lv     [][]fr.Element
	cap    []fr.Element
}

func build(leaves [][]fr.Element, capH int) *tree {
	t := &tree{leaves: leaves}
	cur := make([]fr.Element, len(leaves))
	for i := range leaves {
		cur[i] = ref.BNHashOrNoop(leaves[i])
	}
	for len(cur) > 1<<capH {
		t.lv = append(t.lv, cur)
		nx := make([]fr.Element, len(cur)/2)
		for i := range nx {
			nx[i] = ref.BNTwoToOne(cur[2*i], cur[2*i+1])
		}
		cur = nx
	}
	t.cap = cur
	return t
}

func (t *tree) path(i int) []fr.Element {
	var p []fr.Element
	for _, l := range t.lv {
		p = append(p, l[i^1])
		i >>= 1
	}
	return p
}

type oracle struct {
	coeffs [][]uint64
	t      *tree
}

var pFr = func() (e fr.Element) { e.SetUint64(ref.P); return }()

// add: for a column, what is added to each limb (nil: nothing)
func commit(c *ref.Common, vals [][]uint64, add map[int]fr.Element, leaf func(int, []fr.Element) []fr.Element) *oracle {
	o := &oracle{}
	for _, v := range vals {
		o.coeffs = append(o.coeffs, ref.CosetInterp(v, c.DegreeBits, 1))
	}
	o.tree(c, add, leaf)
	return o
}

func (o *oracle) tree(c *ref.Common, add map[int]fr.Element, leaf func(int, []fr.Element) []fr.Element) {
	b := c.LdeBits()
	leaves := make([][]fr.Element, 1<<b)
	for i := range leaves {
		leaves[i] = make([]fr.Element, len(o.coeffs))
	}
	for j, co := range o.coeffs {
		ev := ref.CosetEval(co, b, ref.Gen)
		a, has := add[j]
		for i := range leaves {
			leaves[i][j].SetUint64(ev[ref.RevBits(i, b)])
			if has {
				leaves[i][j].Add(&leaves[i][j], &a)
			}
		}
	}
	if leaf != nil {
		for i := range leaves {
			leaves[i] = leaf(i, leaves[i])
		}
	}
	o.t = build(leaves, c.CapHeight)
}

// Cheat says where to deviate. The zero value is honest.
type Cheat struct {
	Rng       *rand.Rand
	Wires     func(w [][]uint64)         // change the witness
	PIs       []uint64                   // claim these public inputs
	ZScale    map[int]uint64             // multiply Z of a challenge
	Quot      map[int]bool               // add a random polynomial to the quotient of a challenge
	StepDelta map[int]int                // add a random low-degree polynomial to the codeword of a step, in this component
	FinalComp int                        // 1+component: change the final polynomial
	Open      func(p *ref.Proof)         // change the claimed openings
	PowZeros  int                        // >0: exactly this many leading zeros
	Add       [4]map[int]fr.Element      // added to the limbs of a column of an oracle
	StepAdd   map[int]map[int]fr.Element // added to limb k of the leaves of a step
	Force     *ref.Challenges            // use these FRI challenges and zeta instead of the transcript's
	CapTweak  func(name string, step int, cap []fr.Element)
	NoGrind   bool
	Digest    *fr.Element
	ZeroZs    bool // all running products zero

	// malformed but otherwise consistent proofs
	CapList   func(name string, step int, cap []fr.Element) []fr.Element // replace a cap
	Leaf      func(name string, step, i int, leaf []fr.Element) []fr.Element
	ExtraCaps [][]fr.Element          // further folding commitments
	Final     func(p *ref.Proof)      // change the final polynomial before it is sent
	IdxOK     func(idx []uint64) bool // grind until the query positions satisfy this
}

// Proof makes a proof.
func (ci *Circuit) Prove(ch *Cheat) *ref.Proof {
	if ch == nil {
		ch = &Cheat{}
	}
	rng := ch.Rng
	if rng == nil {
		rng = rand.New(rand.NewSource(ci.Seed + 77))
	}
	c := ci.C
	n := 1 << c.DegreeBits
	p := &ref.Proof{Digest: ci.Digest}
	if ch.Digest != nil {
		p.Digest = *ch.Digest
	}
	pis := ci.PIs
	if ch.PIs != nil {
		pis = ch.PIs
	}
	p.PIs = ref.Limbs(pis)
	pih := ref.HashNoPad(pis)
	wit := ci.Wit
	if ch.Wires != nil {
		wit = make([][]uint64, len(ci.Wit))
		for i := range wit {
			wit[i] = append([]uint64(nil), ci.Wit[i]...)
		}
		ch.Wires(wit)
	}
	ora := [4]*oracle{ci.const_}
	hook := func(name string) func(int, []fr.Element) []fr.Element {
		if ch.Leaf == nil {
			return nil
		}
		return func(i int, l []fr.Element) []fr.Element { return ch.Leaf(name, 0, i, l) }
	}
	if ch.Add[0] != nil || ch.Leaf != nil {
		ora[0] = commit(c, append(append([][]uint64{}, ci.Consts...), ci.Sigma...), ch.Add[0], hook("const"))
	}
	tw := func(name string, step int, cap []fr.Element) []fr.Element {
		o := append([]fr.Element(nil), cap...)
		if ch.CapTweak != nil {
			ch.CapTweak(name, step, o)
		}
		if ch.CapList != nil {
			o = ch.CapList(name, step, o)
		}
		return o
	}
	p.ConstCap = tw("const", 0, ora[0].t.cap)
	ora[1] = commit(c, wit, ch.Add[1], hook("wires"))
	p.WiresCap = tw("wires", 0, ora[1].t.cap)

	t := &ref.Challenger{}
	t.ObserveBN(p.Digest)
	t.Observe(pih[:]...)
	t.ObserveCap(p.WiresCap)
	betas := t.GetN(c.NumChallenges)
	gammas := t.GetN(c.NumChallenges)
	if ch.Force != nil && ch.Force.Betas != nil {
		betas, gammas = ch.Force.Betas, ch.Force.Gammas
	}

	// running products
	sub := ref.Subgroup(c.DegreeBits)
	var zs, pps [][]uint64
	for k := 0; k < c.NumChallenges; k++ {
		z := make([]uint64, n)
		pp := cols(c.NPP, n)
		acc := uint64(1)
		if s, ok := ch.ZScale[k]; ok {
			acc = s
		}
		for i := 0; i < n; i++ {
			if ch.ZeroZs {
				acc = 0
			}
			z[i] = acc
			for q := 0; q <= c.NPP; q++ {
				num, den := uint64(1), uint64(1)
				for j := q * c.QDF; j < (q+1)*c.QDF; j++ {
					wg := ref.Add(wit[j][i], gammas[k])
					num = ref.Mul(num, ref.Add(wg, ref.Mul(betas[k], ref.Mul(c.KIs[j], sub[i]))))
					den = ref.Mul(den, ref.Add(wg, ref.Mul(betas[k], ci.Sigma[j][i])))
				}
				acc = ref.Mul(acc, ref.Mul(num, ref.Inv(den)))
				if q < c.NPP {
					pp[q][i] = acc
				}
			}
		}
		zs = append(zs, z)
		pps = append(pps, pp...)
	}
	ora[2] = commit(c, append(append([][]uint64{}, zs...), pps...), ch.Add[2], hook("zs"))
	p.ZsCap = tw("zs", 0, ora[2].t.cap)
	t.ObserveCap(p.ZsCap)
	alphas := t.GetN(c.NumChallenges)
	if ch.Force != nil && ch.Force.Alphas != nil {
		alphas = ch.Force.Alphas
	}

	// quotient on a coset
	qb := 0
	for 1<<qb < c.QDF {
		qb++
	}
	N := c.DegreeBits + qb
	ev := func(o *oracle) [][]uint64 {
		out := make([][]uint64, len(o.coeffs))
		for i, co := range o.coeffs {
			out[i] = ref.CosetEval(co, N, ref.Gen)
		}
		return out
	}
	ec, ew, ez := ev(ora[0]), ev(ora[1]), ev(ora[2])
	at := func(e [][]uint64, a, b, i int) []ref.Ext {
		o := make([]ref.Ext, b-a)
		for j := range o {
			o[j] = ref.E(e[a+j][i])
		}
		return o
	}
	quot := cols(c.NumChallenges, 1<<N)
	x := uint64(ref.Gen)
	w := ref.Root(N)
	for i := 0; i < 1<<N; i++ {
		nx := (i + 1<<qb) & (1<<N - 1)
		o := ref.Openings{Constants: at(ec, 0, c.NumConstants, i), Sigmas: at(ec, c.NumConstants, len(ec), i), Wires: at(ew, 0, len(ew), i),
			Zs: at(ez, 0, c.NumChallenges, i), ZsNext: at(ez, 0, c.NumChallenges, nx), PP: at(ez, c.NumChallenges, len(ez), i)}
		terms := ref.VanishingTerms(c, &o, betas, gammas, ref.E(x), pih)
		zh := ref.Inv(ref.Sub(ref.Exp(x, uint64(n)), 1))
		for k := range quot {
			quot[k][i] = ref.Mul(ref.ReducePowers(terms, ref.E(alphas[k]))[0], zh)
		}
		x = ref.Mul(x, w)
	}
	ora[3] = &oracle{}
	for k := range quot {
		co := ref.CosetInterp(quot[k], N, ref.Gen)
		if ch.Quot[k] {
			j := rng.Intn(c.QDF * n)
			co[j] = ref.Add(co[j], 1+rng.Uint64()%(ref.P-1))
		}
		for q := 0; q < c.QDF; q++ {
			ora[3].coeffs = append(ora[3].coeffs, co[q*n:(q+1)*n])
		}
	}
	ora[3].tree(c, ch.Add[3], hook("quot"))
	p.QuotCap = tw("quot", 0, ora[3].t.cap)
	t.ObserveCap(p.QuotCap)
	zeta := t.GetExt()
	if ch.Force != nil {
		zeta = ch.Force.Zeta
	}

	open := func(o *oracle, a, b int, x ref.Ext) []ref.V2 {
		var v []ref.V2
		for j := a; j < b; j++ {
			v = append(v, ref.ToV2(ref.EvalBase(o.coeffs[j], x)))
		}
		return v
	}
	zn := zeta.Scale(ref.Root(c.DegreeBits))
	p.Constants = open(ora[0], 0, c.NumConstants, zeta)
	p.Sigmas = open(ora[0], c.NumConstants, len(ora[0].coeffs), zeta)
	p.Wires = open(ora[1], 0, c.NumWires, zeta)
	p.Zs = open(ora[2], 0, c.NumChallenges, zeta)
	p.PartialProducts = open(ora[2], c.NumChallenges, len(ora[2].coeffs), zeta)
	p.Quotients = open(ora[3], 0, len(ora[3].coeffs), zeta)
	p.ZsNext = open(ora[2], 0, c.NumChallenges, zn)
	if ch.Open != nil {
		ch.Open(p)
	}
	for _, l := range p.Lists() {
		for i := range *l {
			t.Observe(ref.ModP(&(*l)[i][0]), ref.ModP(&(*l)[i][1]))
		}
	}
	alpha := t.GetExt()
	if ch.Force != nil {
		alpha = ch.Force.FriAlpha
	}

	// combined polynomial
	var all [][]uint64
	for _, o := range ora {
		all = append(all, o.coeffs...)
	}
	comb := func(ps [][]uint64, pt ref.Ext) []ref.Ext {
		s := make([]ref.Ext, n)
		for i := len(ps) - 1; i >= 0; i-- {
			for k := range s {
				s[k] = s[k].Mul(alpha).Add(ref.E(ps[i][k]))
			}
		}
		// divide by X - pt, dropping the remainder
		q := make([]ref.Ext, n)
		acc := ref.Ext{}
		for k := n - 1; k > 0; k-- {
			acc = acc.Mul(pt).Add(s[k])
			q[k-1] = acc
		}
		return q
	}
	f := comb(all, zeta)
	f1 := comb(ora[2].coeffs[:c.NumChallenges], zn)
	ac := alpha.Exp(uint64(c.NumChallenges))
	for k := range f {
		f[k] = f[k].Mul(ac).Add(f1[k])
	}

	// commit phase
	var trees []*tree
	var stepLeaves [][][]fr.Element
	shift := uint64(ref.Gen)
	b := c.LdeBits()
	cur := f
	for s, a := range c.Arity {
		if comp, ok := ch.StepDelta[s]; ok {
			cur = append([]ref.Ext(nil), cur...)
			j := rng.Intn(len(cur))
			cur[j][comp] = ref.Add(cur[j][comp], 1+rng.Uint64()%(ref.P-1))
		}
		vals := evalExt(cur, b, shift)
		m := 1 << a
		leaves := make([][]fr.Element, len(vals)/m)
		for i := range leaves {
			for j := 0; j < m; j++ {
				v := ref.ToV2(vals[ref.RevBits(i*m+j, b)])
				leaves[i] = append(leaves[i], v[0], v[1])
			}
			for k, d := range ch.StepAdd[s] {
				leaves[i][k].Add(&leaves[i][k], &d)
			}
		}
		if ch.Leaf != nil {
			for i := range leaves {
				leaves[i] = ch.Leaf("commit", s, i, leaves[i])
			}
		}
		tr := build(leaves, c.CapHeight)
		trees = append(trees, tr)
		stepLeaves = append(stepLeaves, leaves)
		p.CommitCaps = append(p.CommitCaps, tw("commit", s, tr.cap))
		t.ObserveCap(p.CommitCaps[s])
		beta := t.GetExt()
		if ch.Force != nil {
			beta = ch.Force.FriBetas[s]
		}
		nx := make([]ref.Ext, len(cur)/m)
		for i := range nx {
			nx[i] = ref.ReducePowers(cur[i*m:(i+1)*m], beta)
		}
		cur = nx
		b -= a
		for i := 0; i < a; i++ {
			shift = ref.Mul(shift, shift)
		}
	}
	for _, x := range cur {
		p.Final = append(p.Final, ref.ToV2(x))
	}
	if ch.FinalComp > 0 {
		k := rng.Intn(len(cur))
		e := cur[k]
		e[ch.FinalComp-1] = ref.Add(e[ch.FinalComp-1], 1+rng.Uint64()%(ref.P-1))
		p.Final[k] = ref.ToV2(e)
	}
	for _, cp := range ch.ExtraCaps {
		p.CommitCaps = append(p.CommitCaps, cp)
		t.ObserveCap(cp)
		t.GetExt()
	}
	if ch.Final != nil {
		ch.Final(p)
	}
	for i := range p.Final {
		t.Observe(ref.ModP(&p.Final[i][0]), ref.ModP(&p.Final[i][1]))
	}
	// grinding
	var idx []uint64
	for w := rng.Uint64() % ref.P; ; w = (w + 1) % ref.P {
		g := t.Clone()
		g.Observe(w)
		resp := g.Get()
		ok := c.PowBits == 0 || resp>>(64-uint(c.PowBits)) == 0
		if ch.PowZeros > 0 {
			ok = resp>>(64-uint(ch.PowZeros)) == 0 && resp>>(63-uint(ch.PowZeros)) != 0
		}
		if ok || ch.NoGrind || ch.Force != nil {
			p.Pow.SetUint64(w)
			idx = g.GetN(c.NumQueries)
			if ch.IdxOK != nil && !ch.IdxOK(idx) {
				continue
			}
			break
		}
	}
	if ch.Force != nil {
		idx = ch.Force.Indices
	}
	for _, raw := range idx {
		i := int(raw & (1<<uint(c.LdeBits()) - 1))
		var rd ref.Round
		for _, o := range ora {
			rd.Init = append(rd.Init, ref.EvalProof{Leaf: append([]fr.Element(nil), o.t.leaves[i]...), Path: o.t.path(i)})
		}
		for s, a := range c.Arity {
			i >>= a
			var st ref.Step
			lf := stepLeaves[s][i]
			for k := 0; k+1 < len(lf); k += 2 {
				st.Evals = append(st.Evals, ref.V2{lf[k], lf[k+1]})
			}
			st.Path = trees[s].path(i)
			rd.Steps = append(rd.Steps, st)
		}
		p.Rounds = append(p.Rounds, rd)
	}
	return p
}

func evalExt(co []ref.Ext, b int, shift uint64) []ref.Ext {
	a0 := make([]uint64, len(co))
	a1 := make([]uint64, len(co))
	for i := range co {
		a0[i], a1[i] = co[i][0], co[i][1]
	}
	e0, e1 := ref.CosetEval(a0, b, shift), ref.CosetEval(a1, b, shift)
	o := make([]ref.Ext, len(e0))
	for i := range o {
		o[i] = ref.Ext{e0[i], e1[i]}
	}
	return o
}

// PIH is the honest public input hash.
func (ci *Circuit) PIH() [4]uint64 { return ci.pih }
