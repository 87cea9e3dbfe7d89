// Package e2e runs the whole verifier of /repo on proofs.
package e2e

import (
	"fmt"
	"math/rand"

	"vharness/adapt"
	"vharness/chk"
	"vharness/eng"
	"vharness/prover"
	"vharness/ref"
	"vharness/wl"

	"github.com/consensys/gnark/frontend"
	"github.com/succinctlabs/gnark-plonky2-verifier/types"
	"github.com/succinctlabs/gnark-plonky2-verifier/verifier"
)

// Opt of a run.
type Opt struct {
	Mode    string
	Total   bool // a prover whose hints never refuse
	ConstVK bool // the verifier key is a constant of the circuit
	Common  *types.CommonCircuitData
	E       *eng.Engine
	All     bool // do not stop at the first failure
}

// Run verifies a proof.
func Run(c *ref.Common, p *ref.Proof, o Opt) (eng.Result, *eng.Engine) {
	e := o.E
	if e == nil {
		e = wl.Engine(o.Mode)
	}
	e.StopOnFail = !o.All
	e.Honest = !o.Total
	res := e.Run(func(api frontend.API) error {
		Prog(api, c, p, o)
		return nil
	})
	return res, e
}

// Prog is the program.
func Prog(api frontend.API, c *ref.Common, p *ref.Proof, o Opt) {
	pr, pis, vd := adapt.Proof(p, adapt.Wire)
	if o.ConstVK {
		_, _, vd = adapt.Proof(p, adapt.Const)
	}
	cd := adapt.Common(c)
	if o.Common != nil {
		cd = *o.Common
	}
	verifier.NewVerifierChip(api, cd).Verify(pr, pis, vd)
}

// Key describes a circuit.
func Key(c *ref.Common) string {
	return fmt.Sprintf("gates%d groups%d ch%d qdf%d npp%d deg%d rate%d steps%d q%d pow%d pis%d", len(c.Gates), len(c.Groups), c.NumChallenges, c.QDF, c.NPP, c.DegreeBits, c.RateBits, len(c.Arity), c.NumQueries, c.PowBits, c.NumPI)
}

var pool []ref.Gate

func init() {
	for _, g := range wl.AllGates(false) {
		if g.NumWires() <= 60 {
			pool = append(pool, g)
		}
	}
}

// Gate draws a gate.
func Gate(r *rand.Rand) ref.Gate { return pool[r.Intn(len(pool))] }

// Random draws the parameters of a small circuit.
func Random(r *rand.Rand) prover.Params {
	p := prover.Params{NumChallenges: 1 + r.Intn(3), Copies: r.Intn(30), NumPI: r.Intn(20), PowBits: r.Intn(9), Queries: 1 + r.Intn(3), ExtraConsts: r.Intn(2)}
	shapes := []struct {
		d, r int
		a    []int
	}{{5, 3, []int{4}}, {4, 4, []int{4}}, {3, 3, nil}, {5, 3, nil}, {6, 2, []int{4}}, {4, 2, nil}, {5, 4, []int{4}}, {7, 1, []int{4}}, {2, 3, nil}}
	s := shapes[r.Intn(len(shapes))]
	p.DegreeBits, p.RateBits, p.Arity = s.d, s.r, s.a
	n := 1 + r.Intn(4)
	for len(p.Gates) < n {
		p.Gates = append(p.Gates, Gate(r))
	}
	if r.Intn(2) == 0 {
		p.Gates[r.Intn(n)] = ref.PublicInputGate{}
	}
	p.QDF = []int{4, 8, 8, 3, 5, 7}[r.Intn(6)]
	deg := 0
	for _, g := range p.Gates {
		if g.Degree() > deg {
			deg = g.Degree()
		}
	}
	// the filtered constraints have degree up to QDF + 1
	if p.QDF < deg+1 {
		p.QDF = 8
	}
	if deg > 7 {
		p.Gates = []ref.Gate{ref.NoopGate{}, ref.ArithmeticGate{3}}
	}
	w := 0
	for _, g := range p.Gates {
		if g.NumWires() > w {
			w = g.NumWires()
		}
	}
	if w < p.QDF {
		w = p.QDF
	}
	p.NumWires = w + r.Intn(6)
	k := p.NumWires / p.QDF
	if k > 5 {
		k = 1 + r.Intn(5)
	}
	p.NumRouted = k * p.QDF
	return p
}

// Small is a fixed quick circuit.
func Small() prover.Params {
	return prover.Params{Gates: []ref.Gate{ref.NoopGate{}, ref.PublicInputGate{}, ref.ArithmeticGate{2}, ref.ConstantGate{2}}, DegreeBits: 5, RateBits: 3, PowBits: 5, Queries: 2, Arity: []int{4}, NumWires: 10, NumRouted: 8, QDF: 4, NumChallenges: 2, NumPI: 5, Copies: 12}
}

// Must is a reference verdict that the workload relies on.
func Must(c *ref.Common, p *ref.Proof) {
	if f := ref.Verify(c, p); len(f) > 0 {
		panic(fmt.Sprint("the reference rejects an honest proof: ", f))
	}
}

// Verdict compares the verdict of the code with the reference verdict, for an
// honest and, on rejection, a total prover.
func Verdict(t *chk.T, c *ref.Common, p *ref.Proof, mode, what string) (ref.Fails, bool) {
	f := ref.Verify(c, p)
	rej := len(f) > 0
	for _, total := range []bool{false, true} {
		if total && !rej {
			break
		}
		res, e := Run(c, p, Opt{Mode: mode, Total: total, ConstVK: t.R.Intn(2) == 0})
		t.C.Stat("assertions", e.NAssert)
		t.C.Stat("range_checks", e.NRange)
		t.C.Stat("hints", e.NHint)
		if res.Accepted == rej {
			t.Fail("%s [%s, total prover %v]: %s, but plonky2's verifier fails %v; %s", what, mode, total, res, f, Key(c))
			return f, false
		}
	}
	return f, true
}
