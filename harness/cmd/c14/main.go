// C14: the constraint system check accepts exactly the openings that satisfy
// plonky2's vanishing identity, for chosen challenges.
package main

import (
	"fmt"
	"math/big"

	"vharness/adapt"
	"vharness/chk"
	"vharness/eng"
	"vharness/ref"
	"vharness/wl"

	"github.com/consensys/gnark/frontend"
	"github.com/succinctlabs/gnark-plonky2-verifier/plonk"
	"github.com/succinctlabs/gnark-plonky2-verifier/variables"
)

func main() {
	chk.Main(chk.Opt{ID: "C14", Level: "exploration",
		Rule:        "one evaluation = one execution of the real vanishing identity check on chosen openings and challenges whose verdict was compared with the reference identity (openings solved to satisfy it, or to fail in exactly one component of one challenge, or changed in one place), by an honest or a dishonest prover; distinct = circuit shape class x changed place x prover",
		Assumptions: []string{"openings and challenges are canonical (C04 and C12 cover where they come from)", "the number of routed wires is a multiple of the quotient degree factor, as in plonky2's configurations"},
		Need:        []string{"accept:", "reject:quotient", "reject:wires", "reject:zs", "attack:native:", "reject:single", "zeta:"}}, run)
}

type inst struct {
	c   *ref.Common
	o   ref.Openings
	ch  ref.Challenges
	pih [4]uint64
	key string
}

func xs(t *chk.T, n int) []ref.Ext {
	o := make([]ref.Ext, n)
	for i := range o {
		o[i] = wl.Ext(t.R)
	}
	return o
}

func us(t *chk.T, n int) []uint64 {
	o := make([]uint64, n)
	for i := range o {
		o[i] = wl.Pick(t.R)
	}
	return o
}

var pool []ref.Gate

func newCommon(t *chk.T, gs []ref.Gate) *ref.Common {
	c := &ref.Common{QDF: 1 + t.R.Intn(8), NumChallenges: 1 + t.R.Intn(4), DegreeBits: 1 + t.R.Intn(30)}
	if t.R.Intn(3) == 0 {
		c.QDF, c.NumChallenges = 8, 2
	}
	c.Gates = gs
	gc := 0
	for _, g := range gs {
		if g.NumWires() > c.NumWires {
			c.NumWires = g.NumWires()
		}
		if g.NumConsts() > gc {
			gc = g.NumConsts()
		}
		if g.NumConstraints() > c.NumGateConstraints {
			c.NumGateConstraints = g.NumConstraints()
		}
	}
	c.NumGateConstraints += t.R.Intn(2) * t.R.Intn(5)
	if c.NumWires < c.QDF {
		c.NumWires = c.QDF
	}
	c.NumWires += t.R.Intn(5)
	m := 1 + t.R.Intn(c.NumWires/c.QDF)
	if t.R.Intn(2) == 0 && m > 6 {
		m = 1 + t.R.Intn(6)
	}
	c.NumRouted, c.NPP = m*c.QDF, m-1
	for i := 0; i < len(gs); {
		k := 1 + t.R.Intn(len(gs)-i)
		if t.R.Intn(3) == 0 {
			k = 1
		}
		for j := 0; j < k; j++ {
			c.SelIdx = append(c.SelIdx, len(c.Groups))
		}
		c.Groups = append(c.Groups, [2]int{i, i + k})
		i += k
	}
	c.NumConstants = len(c.Groups) + gc + t.R.Intn(2)
	c.KIs = us(t, c.NumRouted)
	for i := range c.KIs {
		if c.KIs[i] == 0 {
			c.KIs[i] = 7
		}
	}
	return c
}

func gen(t *chk.T, gs []ref.Gate) *inst {
	c := newCommon(t, gs)
	x := &inst{c: c}
	x.o = ref.Openings{Constants: xs(t, c.NumConstants), Sigmas: xs(t, c.NumRouted), Wires: xs(t, c.NumWires), Zs: xs(t, c.NumChallenges), ZsNext: xs(t, c.NumChallenges), PP: xs(t, c.NumChallenges*c.NPP), Quot: xs(t, c.NumChallenges*c.QDF)}
	// selectors of real rows are small integers
	for i := range c.Groups {
		switch t.R.Intn(4) {
		case 0:
			x.o.Constants[i] = ref.E(uint64(t.R.Intn(len(gs))))
		case 1:
			x.o.Constants[i] = ref.E(1<<32 - 1)
		}
	}
	x.ch.Alphas, x.ch.Betas, x.ch.Gammas = us(t, c.NumChallenges), us(t, c.NumChallenges), us(t, c.NumChallenges)
	for x.ch.Zeta = wl.Ext(t.R); x.ch.Zeta.Exp(1<<uint(c.DegreeBits)) == ref.E(1) || x.ch.Zeta.IsZero(); x.ch.Zeta = wl.Ext(t.R) {
	}
	copy(x.pih[:], us(t, 4))
	x.solve(t)
	b := func(n, s int) int { return (n + s - 1) / s }
	x.key = fmt.Sprintf("gates%d groups%d ch%d qdf%d npp%d deg%d", len(gs), len(c.Groups), c.NumChallenges, c.QDF, b(c.NPP, 3), c.DegreeBits)
	return x
}

// solve sets one quotient chunk per challenge so that the identity holds.
func (x *inst) solve(t *chk.T) {
	l, r := ref.PlonkSides(x.c, &x.o, &x.ch, x.pih)
	for i := range l {
		k := t.R.Intn(x.c.QDF)
		x.shift(i, k, l[i].Sub(r[i]))
	}
}

// shift adds d to the right hand side of challenge i.
func (x *inst) shift(i, k int, d ref.Ext) {
	zn := x.ch.Zeta.Exp(1 << uint(x.c.DegreeBits))
	f := zn.Sub(ref.E(1)).Mul(zn.Exp(uint64(k)))
	q := &x.o.Quot[i*x.c.QDF+k]
	*q = q.Add(d.Mul(f.Inv()))
}

func (x *inst) clone() *inst {
	y := *x
	cp := func(a []ref.Ext) []ref.Ext { return append([]ref.Ext(nil), a...) }
	y.o = ref.Openings{Constants: cp(x.o.Constants), Sigmas: cp(x.o.Sigmas), Wires: cp(x.o.Wires), Zs: cp(x.o.Zs), ZsNext: cp(x.o.ZsNext), PP: cp(x.o.PP), Quot: cp(x.o.Quot)}
	cu := func(a []uint64) []uint64 { return append([]uint64(nil), a...) }
	y.ch.Alphas, y.ch.Betas, y.ch.Gammas = cu(x.ch.Alphas), cu(x.ch.Betas), cu(x.ch.Gammas)
	return &y
}

func (x *inst) fails() ref.Fails {
	var f ref.Fails
	ref.PlonkIdentity(x.c, &x.o, &x.ch, x.pih, &f)
	return f
}

func (x *inst) job(name string, reject bool) wl.Job {
	return wl.Job{Name: name, Reject: reject, Want: []*big.Int{}, In: x.key, Prog: func(api frontend.API) []frontend.Variable {
		m := adapt.Mk(adapt.Wire)
		ch := variables.ProofChallenges{PlonkAlphas: adapt.Us(x.ch.Alphas, m), PlonkBetas: adapt.Us(x.ch.Betas, m), PlonkGammas: adapt.Us(x.ch.Gammas, m), PlonkZeta: adapt.X(x.ch.Zeta, m)}
		op := variables.OpeningSet{Constants: adapt.Xs(x.o.Constants, m), PlonkSigmas: adapt.Xs(x.o.Sigmas, m), Wires: adapt.Xs(x.o.Wires, m), PlonkZs: adapt.Xs(x.o.Zs, m),
			PlonkZsNext: adapt.Xs(x.o.ZsNext, m), PartialProducts: adapt.Xs(x.o.PP, m), QuotientPolys: adapt.Xs(x.o.Quot, m)}
		h := adapt.Us(x.pih[:], m)
		plonk.NewPlonkChip(api, adapt.Common(x.c)).Verify(ch, op, [4]gv{h[0], h[1], h[2], h[3]})
		return nil
	}}
}

func (x *inst) verdict(t *chk.T, mode, what string) {
	f := x.fails()
	rej := len(f) > 0
	e := wl.Engine(mode)
	e.StopOnFail = true
	res := e.Run(func(api frontend.API) error { x.job(what, rej).Prog(api); return nil })
	t.C.Stat("assertions", e.NAssert)
	if res.Accepted == rej {
		t.Fail("%s [%s]: %s but the identity says %v; %s", what, mode, res, f, x.key)
		return
	}
	if !rej {
		t.OK("accept:" + mode + ":" + what + ":" + x.key)
		return
	}
	t.OK("reject:" + what + ":" + x.key)
	// a prover whose hints never refuse
	e = wl.Engine(mode)
	e.Honest = false
	e.StopOnFail = true
	if res := e.Run(func(api frontend.API) error { x.job(what, rej).Prog(api); return nil }); res.Accepted {
		t.Fail("%s [%s, total prover]: accepted but the identity says %v; %s", what, mode, f, x.key)
	}
}

// trivial makes the identity hold whatever the first Lagrange polynomial is.
func trivial(t *chk.T, zeta ref.Ext, deg int) *inst {
	c := newCommon(t, []ref.Gate{ref.ArithmeticGate{1 + t.R.Intn(3)}, ref.NoopGate{}})
	c.DegreeBits = deg
	x := &inst{c: c, key: fmt.Sprintf("zeta %v deg %d", zeta, deg)}
	ones := func(n int) []ref.Ext {
		o := make([]ref.Ext, n)
		for i := range o {
			o[i] = ref.E(1)
		}
		return o
	}
	x.o = ref.Openings{Constants: xs(t, c.NumConstants), Sigmas: make([]ref.Ext, c.NumRouted), Wires: make([]ref.Ext, c.NumWires), Zs: ones(c.NumChallenges), ZsNext: ones(c.NumChallenges), PP: ones(c.NumChallenges * c.NPP), Quot: xs(t, c.NumChallenges*c.QDF)}
	x.ch.Zeta = zeta
	x.ch.Alphas, x.ch.Betas, x.ch.Gammas = us(t, c.NumChallenges), us(t, c.NumChallenges), us(t, c.NumChallenges)
	for j := range x.o.Sigmas {
		x.o.Sigmas[j] = zeta.Scale(c.KIs[j])
	}
	copy(x.pih[:], us(t, 4))
	return x
}

func run(c *chk.Check) {
	for _, g := range wl.AllGates(false) {
		if g.NumWires() <= 140 {
			pool = append(pool, g)
		}
	}
	n, nm, att := 96, 14, 1
	if c.Thorough {
		n, nm, att = 1500, 40, 6
	}
	for k := 0; k < n; k++ {
		c.Case(fmt.Sprintf("identity/%d", k), func(t *chk.T) {
			gs := []ref.Gate{}
			ng := 1 + t.R.Intn(5)
			if k%16 == 15 {
				ng = 12
			}
			for len(gs) < ng {
				g := pool[t.R.Intn(len(pool))]
				if t.R.Intn(12) == 0 {
					g = ref.PoseidonGate{}
				}
				if t.R.Intn(8) == 0 {
					g = ref.PublicInputGate{}
				}
				if ng == 12 && g.NumWires() > 60 {
					continue
				}
				gs = append(gs, g)
			}
			x := gen(t, gs)
			mode := "native"
			if k%24 == 5 {
				mode = "bits"
			}
			x.verdict(t, mode, "solved")
			// exactly one component of one challenge fails
			for i := 0; i < x.c.NumChallenges; i++ {
				for comp := 0; comp < 2; comp++ {
					y := x.clone()
					var d ref.Ext
					d[comp] = 1 + t.R.Uint64()%(ref.P-1)
					if t.R.Intn(3) == 0 {
						d[comp] = []uint64{1, ref.P - 1, 1 << 32}[t.R.Intn(3)]
					}
					y.shift(i, t.R.Intn(x.c.QDF), d)
					if f := y.fails(); len(f) != 1 {
						panic(fmt.Sprint("reference: ", f))
					}
					y.verdict(t, "native", "single")
					if k%6 == 0 {
						wl.Attack(t, "native", y.job("single", true), att)
					}
				}
			}
			for r := 0; r < nm; r++ {
				y := x.clone()
				lists := map[string][]ref.Ext{"constants": y.o.Constants, "sigmas": y.o.Sigmas, "wires": y.o.Wires, "zs": y.o.Zs, "zsnext": y.o.ZsNext, "partial": y.o.PP, "quotient": y.o.Quot}
				names := []string{"constants", "sigmas", "wires", "zs", "zsnext", "partial", "quotient", "alpha", "beta", "gamma", "pih", "zeta"}
				what := names[(r+k)%len(names)]
				if l, ok := lists[what]; ok {
					if len(l) == 0 {
						continue
					}
					i := t.R.Intn(len(l))
					l[i][t.R.Intn(2)] = wl.Pick(t.R)
				} else {
					i := t.R.Intn(x.c.NumChallenges)
					switch what {
					case "alpha":
						y.ch.Alphas[i] = wl.Pick(t.R)
					case "beta":
						y.ch.Betas[i] = wl.Pick(t.R)
					case "gamma":
						y.ch.Gammas[i] = wl.Pick(t.R)
					case "pih":
						y.pih[t.R.Intn(4)] = wl.Pick(t.R)
					case "zeta":
						y.ch.Zeta[t.R.Intn(2)] = ref.Rnd(t.R)
						if y.ch.Zeta == ref.E(1) {
							continue
						}
					}
				}
				y.verdict(t, "native", what)
				if r == 0 && k%6 == 1 && len(y.fails()) > 0 {
					wl.Attack(t, "native", y.job(what, true), att)
				}
			}
			if k%12 == 2 {
				wl.Attack(t, "native", x.job("solved", false), att)
			}
		})
	}
	// zeta in the trace subgroup
	for deg := 1; deg <= 20; deg++ {
		c.Case(fmt.Sprintf("zeta/%d", deg), func(t *chk.T) {
			e := 1 + t.R.Intn(1<<uint(deg)-1)
			z := ref.Exp(ref.Root(deg), uint64(e))
			x := trivial(t, ref.E(z), deg)
			if len(x.fails()) > 0 {
				panic(fmt.Sprint("reference: ", x.fails()))
			}
			x.verdict(t, "native", "subgroup")
			t.OK("zeta:subgroup")
			y := x.clone()
			y.o.ZsNext[t.R.Intn(len(y.o.ZsNext))][0] = 5
			y.verdict(t, "native", "subgroup")
			// outside the subgroup the same openings hold with quotient zero
			x = trivial(t, ref.Ext{z, 1}, deg)
			for i := range x.o.Quot {
				x.o.Quot[i] = ref.Ext{}
			}
			x.verdict(t, "native", "outside")
			// the first element: the Lagrange polynomial is not defined
			x = trivial(t, ref.E(1), deg)
			if _, ok := wl.Honest(t, "native", x.job("zeta_one", true)); ok {
				wl.Attack(t, "native", x.job("zeta_one", true), 4)
			}
			t.OK("zeta:one")
		})
	}
	_ = eng.P
}
