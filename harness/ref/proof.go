package ref

import (
	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
)

// Common is the circuit description.
type Common struct {
	NumWires, NumRouted, NumChallenges  int
	NumConstants                        int // selectors included
	QDF, NumGateConstraints, NumPI, NPP int
	DegreeBits, RateBits, CapHeight     int
	PowBits, NumQueries                 int
	Arity                               []int
	Gates                               []Gate
	SelIdx                              []int
	Groups                              [][2]int
	KIs                                 []uint64
}

func (c *Common) LdeBits() int { return c.DegreeBits + c.RateBits }
func (c *Common) FinalLen() int {
	b := c.DegreeBits
	for _, a := range c.Arity {
		b -= a
	}
	return 1 << b
}

// V is a limb as the prover sends it: any BN254 scalar.
type V = fr.Element
type V2 [2]V

type MerkleProof = []Hash
type EvalProof struct {
	Leaf []V
	Path MerkleProof
}
type Step struct {
	Evals []V2
	Path  MerkleProof
}
type Round struct {
	Init  []EvalProof
	Steps []Step
}

// Proof with public inputs and the verifier key it is checked against.
type Proof struct {
	WiresCap, ZsCap, QuotCap                                         []Hash
	Constants, Sigmas, Wires, Zs, ZsNext, PartialProducts, Quotients []V2
	CommitCaps                                                       [][]Hash
	Rounds                                                           []Round
	Final                                                            []V2
	Pow                                                              V
	PIs                                                              []V
	ConstCap                                                         []Hash
	Digest                                                           Hash
}

// Lists returns the opening vectors in transcript order.
func (p *Proof) Lists() []*[]V2 {
	return []*[]V2{&p.Constants, &p.Sigmas, &p.Wires, &p.Zs, &p.PartialProducts, &p.Quotients, &p.ZsNext}
}

func cpH(a []Hash) []Hash { return append([]Hash(nil), a...) }
func cp2(a []V2) []V2     { return append([]V2(nil), a...) }

// Clone copies a proof deeply.
func (p *Proof) Clone() *Proof {
	q := *p
	q.WiresCap, q.ZsCap, q.QuotCap, q.ConstCap = cpH(p.WiresCap), cpH(p.ZsCap), cpH(p.QuotCap), cpH(p.ConstCap)
	for i, l := range q.Lists() {
		*l = cp2(*p.Lists()[i])
	}
	q.CommitCaps = nil
	for _, c := range p.CommitCaps {
		q.CommitCaps = append(q.CommitCaps, cpH(c))
	}
	q.Rounds = nil
	for _, r := range p.Rounds {
		var n Round
		for _, e := range r.Init {
			n.Init = append(n.Init, EvalProof{append([]V(nil), e.Leaf...), cpH(e.Path)})
		}
		for _, s := range r.Steps {
			n.Steps = append(n.Steps, Step{cp2(s.Evals), cpH(s.Path)})
		}
		q.Rounds = append(q.Rounds, n)
	}
	q.Final = cp2(p.Final)
	q.PIs = append([]V(nil), p.PIs...)
	return &q
}

// GLs calls f on every Goldilocks limb of the proof (not the public inputs).
func (p *Proof) GLs(f func(name string, v *V)) {
	names := []string{"constants", "sigmas", "wires", "zs", "partial", "quotients", "zsnext"}
	for i, l := range p.Lists() {
		for j := range *l {
			f(names[i], &(*l)[j][0])
			f(names[i], &(*l)[j][1])
		}
	}
	for i := range p.Rounds {
		for j := range p.Rounds[i].Init {
			for k := range p.Rounds[i].Init[j].Leaf {
				f("leaf", &p.Rounds[i].Init[j].Leaf[k])
			}
		}
		for j := range p.Rounds[i].Steps {
			for k := range p.Rounds[i].Steps[j].Evals {
				f("stepeval", &p.Rounds[i].Steps[j].Evals[k][0])
				f("stepeval", &p.Rounds[i].Steps[j].Evals[k][1])
			}
		}
	}
	for i := range p.Final {
		f("final", &p.Final[i][0])
		f("final", &p.Final[i][1])
	}
	f("pow", &p.Pow)
}

// Hashes calls f on every hash of the proof and the verifier key.
func (p *Proof) Hashes(f func(name string, h *Hash)) {
	each := func(n string, c []Hash) {
		for i := range c {
			f(n, &c[i])
		}
	}
	each("wirescap", p.WiresCap)
	each("zscap", p.ZsCap)
	each("quotcap", p.QuotCap)
	for _, c := range p.CommitCaps {
		each("commitcap", c)
	}
	for i := range p.Rounds {
		for j := range p.Rounds[i].Init {
			each("initpath", p.Rounds[i].Init[j].Path)
		}
		for j := range p.Rounds[i].Steps {
			each("steppath", p.Rounds[i].Steps[j].Path)
		}
	}
	each("constcap", p.ConstCap)
	f("digest", &p.Digest)
}

// canon returns the canonical value, false if out of range.
func canon(v *V) (uint64, bool) {
	b := v.Bits()
	return b[0], b[1]|b[2]|b[3] == 0 && b[0] < P
}

func ext(v *V2) Ext {
	a, _ := canon(&v[0])
	b, _ := canon(&v[1])
	return Ext{a, b}
}

func exts(v []V2) []Ext {
	o := make([]Ext, len(v))
	for i := range v {
		o[i] = ext(&v[i])
	}
	return o
}

// ToV2 converts.
func ToV2(e Ext) (v V2) {
	v[0].SetUint64(e[0])
	v[1].SetUint64(e[1])
	return
}
