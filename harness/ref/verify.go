package ref

import (
	"fmt"
	"math/big"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
)

var pBig = new(big.Int).SetUint64(P)

// ModP reduces a limb.
func ModP(v *V) uint64 {
	if x, ok := canon(v); ok {
		return x
	}
	b := v.BigInt(new(big.Int))
	return b.Mod(b, pBig).Uint64()
}

// Challenges of a proof.
type Challenges struct {
	Betas, Gammas, Alphas []uint64
	Zeta                  Ext
	FriAlpha              Ext
	FriBetas              []Ext
	PowResp               uint64
	Indices               []uint64
}

func PIHash(pis []V) [4]uint64 {
	x := make([]uint64, len(pis))
	for i := range pis {
		x[i] = ModP(&pis[i])
	}
	return HashNoPad(x)
}

// GetChallenges runs the transcript.
func GetChallenges(c *Common, p *Proof) (o Challenges) {
	return getChallenges(c, p, PIHash(p.PIs))
}

func getChallenges(c *Common, p *Proof, pih [4]uint64) (o Challenges) {
	t := &Challenger{}
	t.ObserveBN(p.Digest)
	t.Observe(pih[:]...)
	t.ObserveCap(p.WiresCap)
	o.Betas = t.GetN(c.NumChallenges)
	o.Gammas = t.GetN(c.NumChallenges)
	t.ObserveCap(p.ZsCap)
	o.Alphas = t.GetN(c.NumChallenges)
	t.ObserveCap(p.QuotCap)
	o.Zeta = t.GetExt()
	for _, l := range p.Lists() {
		for i := range *l {
			t.Observe(ModP(&(*l)[i][0]), ModP(&(*l)[i][1]))
		}
	}
	o.FriAlpha = t.GetExt()
	for _, cap := range p.CommitCaps {
		t.ObserveCap(cap)
		o.FriBetas = append(o.FriBetas, t.GetExt())
	}
	for i := range p.Final {
		t.Observe(ModP(&p.Final[i][0]), ModP(&p.Final[i][1]))
	}
	t.Observe(ModP(&p.Pow))
	o.PowResp = t.Get()
	o.Indices = t.GetN(c.NumQueries)
	return
}

// Fails collects the checks that do not hold.
type Fails []string

func (f *Fails) add(format string, a ...any) { *f = append(*f, fmt.Sprintf(format, a...)) }

// Verify is the plonky2 verifier.
func Verify(c *Common, p *Proof) (f Fails) {
	if s := Shape(c, p); s != "" {
		return Fails{"shape:" + s}
	}
	p.GLs(func(n string, v *V) {
		if _, ok := canon(v); !ok {
			f.add("canon:%s", n)
		}
	})
	if f != nil {
		return
	}
	pih := PIHash(p.PIs)
	ch := getChallenges(c, p, pih)
	PlonkChecks(c, p, &ch, pih, &f)
	FriChecks(c, p, &ch, &f)
	return
}

// Lenient verifies everything but the lengths: what is too long is ignored where
// it is not part of the transcript or a hash.
func Lenient(c *Common, p *Proof) (f Fails) {
	defer func() {
		if r := recover(); r != nil {
			f.add("panic: %v", r)
		}
	}()
	pih := PIHash(p.PIs)
	ch := getChallenges(c, p, pih)
	PlonkChecks(c, p, &ch, pih, &f)
	FriChecks(c, p, &ch, &f)
	return
}

// Shape checks the lengths.
func Shape(c *Common, p *Proof) string {
	capLen := 1 << c.CapHeight
	for _, x := range []struct {
		n    string
		a, b int
	}{
		{"wirescap", len(p.WiresCap), capLen}, {"zscap", len(p.ZsCap), capLen}, {"quotcap", len(p.QuotCap), capLen}, {"constcap", len(p.ConstCap), capLen},
		{"constants", len(p.Constants), c.NumConstants}, {"sigmas", len(p.Sigmas), c.NumRouted}, {"wires", len(p.Wires), c.NumWires},
		{"zs", len(p.Zs), c.NumChallenges}, {"zsnext", len(p.ZsNext), c.NumChallenges},
		{"partial", len(p.PartialProducts), c.NumChallenges * c.NPP}, {"quotients", len(p.Quotients), c.NumChallenges * c.QDF},
		{"pis", len(p.PIs), c.NumPI}, {"rounds", len(p.Rounds), c.NumQueries}, {"final", len(p.Final), c.FinalLen()}, {"commitcaps", len(p.CommitCaps), len(c.Arity)},
	} {
		if x.a != x.b {
			return x.n
		}
	}
	for _, k := range p.CommitCaps {
		if len(k) != capLen {
			return "commitcap"
		}
	}
	leaf := []int{c.NumConstants + c.NumRouted, c.NumWires, c.NumChallenges * (1 + c.NPP), c.NumChallenges * c.QDF}
	for _, r := range p.Rounds {
		if len(r.Init) != 4 || len(r.Steps) != len(c.Arity) {
			return "round"
		}
		for i, e := range r.Init {
			if len(e.Leaf) != leaf[i] {
				return "leaf"
			}
			if len(e.Path) != c.LdeBits()-c.CapHeight {
				return "initpath"
			}
		}
		b := c.LdeBits()
		for i, s := range r.Steps {
			b -= c.Arity[i]
			if len(s.Evals) != 1<<c.Arity[i] {
				return "stepevals"
			}
			if len(s.Path) != b-c.CapHeight {
				return "steppath"
			}
		}
	}
	return ""
}

// GateTerms evaluates all gate constraints with their filters.
func GateTerms(c *Common, consts, wires []Ext, pih [4]uint64) []Ext {
	o := make([]Ext, c.NumGateConstraints)
	ns := len(c.Groups)
	for i, g := range c.Gates {
		s := consts[c.SelIdx[i]]
		f := E(1)
		gr := c.Groups[c.SelIdx[i]]
		for k := gr[0]; k < gr[1]; k++ {
			if k != i {
				f = f.Mul(E(uint64(k)).Sub(s))
			}
		}
		if ns > 1 {
			f = f.Mul(E(1<<32 - 1).Sub(s))
		}
		for j, t := range g.Eval(consts[ns:], wires, pih) {
			o[j] = o[j].Add(t.Mul(f))
		}
	}
	return o
}

// Openings at zeta as values.
type Openings struct {
	Constants, Sigmas, Wires, Zs, ZsNext, PP, Quot []Ext
}

// VanishingTerms: Z(1)=1 terms, permutation terms, gate terms.
func VanishingTerms(c *Common, o *Openings, betas, gammas []uint64, x Ext, pih [4]uint64) []Ext {
	n := uint64(1) << c.DegreeBits
	var z1, pp []Ext
	l0 := x.Exp(n).Sub(E(1)).Mul(x.Sub(E(1)).Scale(n % P).Inv())
	for i := 0; i < c.NumChallenges; i++ {
		z1 = append(z1, l0.Mul(o.Zs[i].Sub(E(1))))
		num := make([]Ext, c.NumRouted)
		den := make([]Ext, c.NumRouted)
		for j := range num {
			wg := o.Wires[j].Add(E(gammas[i]))
			num[j] = x.Scale(c.KIs[j]).Scale(betas[i]).Add(wg)
			den[j] = o.Sigmas[j].Scale(betas[i]).Add(wg)
		}
		accs := append([]Ext{o.Zs[i]}, o.PP[i*c.NPP:(i+1)*c.NPP]...)
		accs = append(accs, o.ZsNext[i])
		for k := 0; k <= c.NPP; k++ {
			a, b := accs[k], accs[k+1]
			for j := k * c.QDF; j < (k+1)*c.QDF && j < c.NumRouted; j++ {
				a, b = a.Mul(num[j]), b.Mul(den[j])
			}
			pp = append(pp, a.Sub(b))
		}
	}
	z1 = append(z1, pp...)
	return append(z1, GateTerms(c, o.Constants, o.Wires, pih)...)
}

// PlonkChecks evaluates the vanishing identity for each challenge.
func PlonkChecks(c *Common, p *Proof, ch *Challenges, pih [4]uint64, f *Fails) {
	o := Openings{exts(p.Constants), exts(p.Sigmas), exts(p.Wires), exts(p.Zs), exts(p.ZsNext), exts(p.PartialProducts), exts(p.Quotients)}
	PlonkIdentity(c, &o, ch, pih, f)
}

func PlonkIdentity(c *Common, o *Openings, ch *Challenges, pih [4]uint64, f *Fails) {
	if ch.Zeta == E(1) {
		f.add("plonk:zeta")
		return
	}
	terms := VanishingTerms(c, o, ch.Betas, ch.Gammas, ch.Zeta, pih)
	zn := ch.Zeta.Exp(1 << uint(c.DegreeBits))
	for i := 0; i < c.NumChallenges; i++ {
		l := ReducePowers(terms, E(ch.Alphas[i]))
		r := zn.Sub(E(1)).Mul(ReducePowers(o.Quot[i*c.QDF:(i+1)*c.QDF], zn))
		for k := 0; k < 2; k++ {
			if l[k] != r[k] {
				f.add("plonk:%d.%d", i, k)
			}
		}
	}
}

// PlonkSides returns both sides of the identity.
func PlonkSides(c *Common, o *Openings, ch *Challenges, pih [4]uint64) (l, r []Ext) {
	terms := VanishingTerms(c, o, ch.Betas, ch.Gammas, ch.Zeta, pih)
	zn := ch.Zeta.Exp(1 << uint(c.DegreeBits))
	for i := 0; i < c.NumChallenges; i++ {
		l = append(l, ReducePowers(terms, E(ch.Alphas[i])))
		r = append(r, zn.Sub(E(1)).Mul(ReducePowers(o.Quot[i*c.QDF:(i+1)*c.QDF], zn)))
	}
	return
}

// MerkleRoot folds a leaf up to the cap.
func MerkleRoot(leaf []fr.Element, idx uint64, path []Hash) Hash {
	d := BNHashOrNoop(leaf)
	for _, s := range path {
		if idx&1 == 1 {
			d = BNTwoToOne(s, d)
		} else {
			d = BNTwoToOne(d, s)
		}
		idx >>= 1
	}
	return d
}

// Lagrange evaluates the interpolant of (xs, ys) at x.
func Lagrange(xs []uint64, ys []Ext, x Ext) Ext {
	s := Ext{}
	for i := range xs {
		t := ys[i]
		for j := range xs {
			if j != i {
				t = t.Mul(x.Sub(E(xs[j]))).Scale(Inv(Sub(xs[i], xs[j])))
			}
		}
		s = s.Add(t)
	}
	return s
}

// FriChecks verifies the opening proof for the given challenges.
func FriChecks(c *Common, p *Proof, ch *Challenges, f *Fails) {
	if c.PowBits > 0 && ch.PowResp>>(64-uint(c.PowBits)) != 0 {
		f.add("pow")
	}
	lde := c.LdeBits()
	caps := [][]Hash{p.ConstCap, p.WiresCap, p.ZsCap, p.QuotCap}
	var zl []Ext
	for _, l := range p.Lists()[:6] {
		zl = append(zl, exts(*l)...)
	}
	red0 := ReducePowers(zl, ch.FriAlpha)
	red1 := ReducePowers(exts(p.ZsNext), ch.FriAlpha)
	zn := ch.Zeta.Scale(Root(c.DegreeBits))
	width := []int{c.NumConstants + c.NumRouted, c.NumWires, c.NumChallenges * (1 + c.NPP), c.NumChallenges * c.QDF}
	for q, raw := range ch.Indices {
		idx := raw & (1<<uint(lde) - 1)
		capIdx := idx >> uint(lde-c.CapHeight)
		r := &p.Rounds[q]
		var all []Ext
		for o, e := range r.Init[:4] {
			root := MerkleRoot(e.Leaf, idx, e.Path)
			if !root.Equal(&caps[o][capIdx]) {
				f.add("merkle:init%d:q%d", o, q)
			}
			for i := 0; i < width[o]; i++ {
				all = append(all, E(ModP(&e.Leaf[i])))
			}
		}
		var zs []Ext
		for i := 0; i < c.NumChallenges; i++ {
			zs = append(zs, E(ModP(&r.Init[2].Leaf[i])))
		}
		x := Mul(Gen, Exp(Root(lde), uint64(RevBits(int(idx), lde))))
		d0, d1 := E(x).Sub(ch.Zeta), E(x).Sub(zn)
		if d0.IsZero() || d1.IsZero() {
			f.add("fri:denominator:q%d", q)
			continue
		}
		old := ReducePowers(all, ch.FriAlpha).Sub(red0).Mul(d0.Inv())
		old = old.Mul(ch.FriAlpha.Exp(uint64(len(zs)))).Add(ReducePowers(zs, ch.FriAlpha).Sub(red1).Mul(d1.Inv()))
		bitsLeft := lde
		for s, a := range c.Arity {
			st := &r.Steps[s]
			ev := exts(st.Evals)
			in := idx & (1<<uint(a) - 1)
			for k := 0; k < 2; k++ {
				if ev[in][k] != old[k] {
					f.add("fri:step%d.%d:q%d", s, k, q)
				}
			}
			// coset points: x * g^(-rev(in)) * g^i, values in bit reversed order
			g := Root(a)
			start := Mul(x, Exp(Inv(g), uint64(RevBits(int(in), a))))
			xs := make([]uint64, 1<<a)
			ys := make([]Ext, 1<<a)
			for i := range xs {
				xs[i] = Mul(start, Exp(g, uint64(i)))
				ys[i] = ev[RevBits(i, a)]
			}
			old = Lagrange(xs, ys, ch.FriBetas[s])
			idx >>= uint(a)
			bitsLeft -= a
			var leaf []fr.Element
			for i := range st.Evals {
				leaf = append(leaf, st.Evals[i][0], st.Evals[i][1])
			}
			root := MerkleRoot(leaf, idx, st.Path)
			if !root.Equal(&p.CommitCaps[s][capIdx]) {
				f.add("merkle:step%d:q%d", s, q)
			}
			for i := 0; i < a; i++ {
				x = Mul(x, x)
			}
		}
		fin := ReducePowers(exts(p.Final), E(x))
		for k := 0; k < 2; k++ {
			if fin[k] != old[k] {
				f.add("fri:final.%d:q%d", k, q)
			}
		}
	}
}
