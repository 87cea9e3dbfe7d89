// Package adapt converts between the reference types and the ones of /repo.
package adapt

import (
	"encoding/json"
	"fmt"
	"math/big"
	"os"

	"vharness/eng"
	"vharness/ref"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark/frontend"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
	"github.com/succinctlabs/gnark-plonky2-verifier/plonk/gates"
	"github.com/succinctlabs/gnark-plonky2-verifier/poseidon"
	"github.com/succinctlabs/gnark-plonky2-verifier/types"
	"github.com/succinctlabs/gnark-plonky2-verifier/variables"
)

func u(x []int) []uint64 {
	o := make([]uint64, len(x))
	for i := range x {
		o[i] = uint64(x[i])
	}
	return o
}

// Common converts a circuit description.
func Common(c *ref.Common) types.CommonCircuitData {
	var d types.CommonCircuitData
	fc := types.FriConfig{RateBits: uint64(c.RateBits), CapHeight: uint64(c.CapHeight), ProofOfWorkBits: uint64(c.PowBits), NumQueryRounds: uint64(c.NumQueries)}
	d.Config.NumWires = uint64(c.NumWires)
	d.Config.NumRoutedWires = uint64(c.NumRouted)
	d.Config.NumConstants = uint64(c.NumConstants - len(c.Groups))
	d.Config.UseBaseArithmeticGate = true
	d.Config.SecurityBits = 100
	d.Config.NumChallenges = uint64(c.NumChallenges)
	d.Config.MaxQuotientDegreeFactor = uint64(c.QDF)
	d.Config.FriConfig = fc
	d.FriParams.Config = fc
	d.FriParams.DegreeBits = uint64(c.DegreeBits)
	d.FriParams.ReductionArityBits = u(c.Arity)
	for _, g := range c.Gates {
		d.GateIds = append(d.GateIds, g.ID())
	}
	var st, en []uint64
	for _, g := range c.Groups {
		st = append(st, uint64(g[0]))
		en = append(en, uint64(g[1]))
	}
	d.SelectorsInfo = *gates.NewSelectorsInfo(u(c.SelIdx), st, en)
	d.DegreeBits = uint64(c.DegreeBits)
	d.QuotientDegreeFactor = uint64(c.QDF)
	d.NumGateConstraints = uint64(c.NumGateConstraints)
	d.NumConstants = uint64(c.NumConstants)
	d.NumPublicInputs = uint64(c.NumPI)
	d.KIs = append([]uint64(nil), c.KIs...)
	d.NumPartialProducts = uint64(c.NPP)
	return d
}

// Mk turns a value into a circuit variable.
type Mk func(*fr.Element) frontend.Variable

// Wire makes witness variables of the monitor engine.
func Wire(e *fr.Element) frontend.Variable { return &eng.Val{E: *e} }

// Const makes constants.
func Const(e *fr.Element) frontend.Variable { return e.BigInt(new(big.Int)) }

// Hashes converts.
func Hashes(h []fr.Element, m Mk) []poseidon.BN254HashOut {
	o := make([]poseidon.BN254HashOut, len(h))
	for i := range h {
		o[i] = m(&h[i])
	}
	return o
}

// GLs converts limbs.
func GLs(h []fr.Element, m Mk) []gl.Variable {
	o := make([]gl.Variable, len(h))
	for i := range h {
		o[i] = gl.NewVariable(m(&h[i]))
	}
	return o
}

// QEs converts extension elements.
func QEs(h []ref.V2, m Mk) []gl.QuadraticExtensionVariable {
	o := make([]gl.QuadraticExtensionVariable, len(h))
	for i := range h {
		o[i] = gl.QuadraticExtensionVariable{gl.NewVariable(m(&h[i][0])), gl.NewVariable(m(&h[i][1]))}
	}
	return o
}

// U makes a limb.
func U(x uint64, m Mk) gl.Variable {
	var e fr.Element
	e.SetUint64(x)
	return gl.NewVariable(m(&e))
}

// X makes an extension element.
func X(x ref.Ext, m Mk) gl.QuadraticExtensionVariable {
	return gl.QuadraticExtensionVariable{U(x[0], m), U(x[1], m)}
}

// Xs makes extension elements.
func Xs(x []ref.Ext, m Mk) []gl.QuadraticExtensionVariable {
	o := make([]gl.QuadraticExtensionVariable, len(x))
	for i := range x {
		o[i] = X(x[i], m)
	}
	return o
}

// Us makes limbs.
func Us(x []uint64, m Mk) []gl.Variable {
	o := make([]gl.Variable, len(x))
	for i := range x {
		o[i] = U(x[i], m)
	}
	return o
}

// Proof converts the proof.
func Proof(p *ref.Proof, m Mk) (variables.Proof, []gl.Variable, variables.VerifierOnlyCircuitData) {
	var q variables.Proof
	q.WiresCap = Hashes(p.WiresCap, m)
	q.PlonkZsPartialProductsCap = Hashes(p.ZsCap, m)
	q.QuotientPolysCap = Hashes(p.QuotCap, m)
	q.Openings = Openings(p, m)
	q.OpeningProof = Fri(p, m)
	return q, GLs(p.PIs, m), variables.VerifierOnlyCircuitData{ConstantSigmasCap: Hashes(p.ConstCap, m), CircuitDigest: m(&p.Digest)}
}

// Openings converts the openings.
func Openings(p *ref.Proof, m Mk) variables.OpeningSet {
	return variables.OpeningSet{
		Constants: QEs(p.Constants, m), PlonkSigmas: QEs(p.Sigmas, m), Wires: QEs(p.Wires, m), PlonkZs: QEs(p.Zs, m),
		PlonkZsNext: QEs(p.ZsNext, m), PartialProducts: QEs(p.PartialProducts, m), QuotientPolys: QEs(p.Quotients, m),
	}
}

// Fri converts the opening proof.
func Fri(p *ref.Proof, m Mk) variables.FriProof {
	var f variables.FriProof
	for _, c := range p.CommitCaps {
		f.CommitPhaseMerkleCaps = append(f.CommitPhaseMerkleCaps, Hashes(c, m))
	}
	for _, r := range p.Rounds {
		var q variables.FriQueryRound
		for _, e := range r.Init {
			q.InitialTreesProof.EvalsProofs = append(q.InitialTreesProof.EvalsProofs, variables.FriEvalProof{
				Elements: GLs(e.Leaf, m), MerkleProof: variables.FriMerkleProof{Siblings: Hashes(e.Path, m)}})
		}
		for _, s := range r.Steps {
			q.Steps = append(q.Steps, variables.FriQueryStep{Evals: QEs(s.Evals, m), MerkleProof: variables.FriMerkleProof{Siblings: Hashes(s.Path, m)}})
		}
		f.QueryRoundProofs = append(f.QueryRoundProofs, q)
	}
	f.FinalPoly.Coeffs = QEs(p.Final, m)
	f.PowWitness = gl.NewVariable(m(&p.Pow))
	return f
}

// ---- independent reading of the JSON files plonky2 writes

type jFri struct {
	RateBits int `json:"rate_bits"`
	Cap      int `json:"cap_height"`
	Pow      int `json:"proof_of_work_bits"`
	NQ       int `json:"num_query_rounds"`
}

type jCommon struct {
	Config struct {
		NumWires      int `json:"num_wires"`
		NumRouted     int `json:"num_routed_wires"`
		NumConstants  int `json:"num_constants"`
		NumChallenges int `json:"num_challenges"`
	} `json:"config"`
	FriParams struct {
		Config     jFri  `json:"config"`
		DegreeBits int   `json:"degree_bits"`
		Arity      []int `json:"reduction_arity_bits"`
	} `json:"fri_params"`
	Gates     []string `json:"gates"`
	Selectors struct {
		Idx    []int `json:"selector_indices"`
		Groups []struct {
			Start int `json:"start"`
			End   int `json:"end"`
		} `json:"groups"`
	} `json:"selectors_info"`
	QDF int      `json:"quotient_degree_factor"`
	NGC int      `json:"num_gate_constraints"`
	NC  int      `json:"num_constants"`
	NPI int      `json:"num_public_inputs"`
	KIs []uint64 `json:"k_is"`
	NPP int      `json:"num_partial_products"`
}

// LoadCommon reads a circuit description.
func LoadCommon(path string) (*ref.Common, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	var j jCommon
	if err := json.Unmarshal(b, &j); err != nil {
		return nil, err
	}
	c := &ref.Common{NumWires: j.Config.NumWires, NumRouted: j.Config.NumRouted, NumChallenges: j.Config.NumChallenges, NumConstants: j.NC,
		QDF: j.QDF, NumGateConstraints: j.NGC, NumPI: j.NPI, NPP: j.NPP, DegreeBits: j.FriParams.DegreeBits, RateBits: j.FriParams.Config.RateBits,
		CapHeight: j.FriParams.Config.Cap, PowBits: j.FriParams.Config.Pow, NumQueries: j.FriParams.Config.NQ, Arity: j.FriParams.Arity, SelIdx: j.Selectors.Idx, KIs: j.KIs}
	for _, g := range j.Selectors.Groups {
		c.Groups = append(c.Groups, [2]int{g.Start, g.End})
	}
	for _, id := range j.Gates {
		g := ref.ParseGate(id)
		if g == nil {
			return nil, fmt.Errorf("unknown gate %s", id)
		}
		c.Gates = append(c.Gates, g)
	}
	return c, nil
}

type jPath struct {
	Siblings []string `json:"siblings"`
}

// JProof is the JSON of a proof.
type JProof struct {
	Proof struct {
		WiresCap []string              `json:"wires_cap"`
		ZsCap    []string              `json:"plonk_zs_partial_products_cap"`
		QuotCap  []string              `json:"quotient_polys_cap"`
		Openings map[string][][]uint64 `json:"openings"`
		Fri      struct {
			Caps   [][]string `json:"commit_phase_merkle_caps"`
			Rounds []struct {
				Init struct {
					Evals [][2]json.RawMessage `json:"evals_proofs"`
				} `json:"initial_trees_proof"`
				Steps []struct {
					Evals [][]uint64 `json:"evals"`
					Path  jPath      `json:"merkle_proof"`
				} `json:"steps"`
			} `json:"query_round_proofs"`
			Final struct {
				Coeffs [][]uint64 `json:"coeffs"`
			} `json:"final_poly"`
			Pow uint64 `json:"pow_witness"`
		} `json:"opening_proof"`
	} `json:"proof"`
	PIs []uint64 `json:"public_inputs"`
}

func hs(s []string) []fr.Element {
	o := make([]fr.Element, len(s))
	for i := range s {
		b, ok := new(big.Int).SetString(s[i], 10)
		if !ok {
			panic("bad hash " + s[i])
		}
		o[i].SetBigInt(b)
	}
	return o
}

func es(x [][]uint64) []ref.V2 {
	o := make([]ref.V2, len(x))
	for i := range x {
		o[i] = ref.ToV2(ref.Ext{x[i][0], x[i][1]})
	}
	return o
}

// ParseProof reads a proof.
func ParseProof(b []byte) (*ref.Proof, error) {
	var j JProof
	if err := json.Unmarshal(b, &j); err != nil {
		return nil, err
	}
	p := &ref.Proof{WiresCap: hs(j.Proof.WiresCap), ZsCap: hs(j.Proof.ZsCap), QuotCap: hs(j.Proof.QuotCap)}
	op := j.Proof.Openings
	p.Constants, p.Sigmas, p.Wires, p.Zs = es(op["constants"]), es(op["plonk_sigmas"]), es(op["wires"]), es(op["plonk_zs"])
	p.ZsNext, p.PartialProducts, p.Quotients = es(op["plonk_zs_next"]), es(op["partial_products"]), es(op["quotient_polys"])
	for _, c := range j.Proof.Fri.Caps {
		p.CommitCaps = append(p.CommitCaps, hs(c))
	}
	for _, r := range j.Proof.Fri.Rounds {
		var q ref.Round
		for _, e := range r.Init.Evals {
			var l []uint64
			var pa jPath
			if err := json.Unmarshal(e[0], &l); err != nil {
				return nil, err
			}
			if err := json.Unmarshal(e[1], &pa); err != nil {
				return nil, err
			}
			q.Init = append(q.Init, ref.EvalProof{Leaf: ref.Limbs(l), Path: hs(pa.Siblings)})
		}
		for _, s := range r.Steps {
			q.Steps = append(q.Steps, ref.Step{Evals: es(s.Evals), Path: hs(s.Path.Siblings)})
		}
		p.Rounds = append(p.Rounds, q)
	}
	p.Final = es(j.Proof.Fri.Final.Coeffs)
	p.Pow.SetUint64(j.Proof.Fri.Pow)
	p.PIs = ref.Limbs(j.PIs)
	return p, nil
}

// LoadReal reads a circuit and its proof from a testdata directory.
func LoadReal(dir string) (*ref.Common, *ref.Proof, error) {
	c, err := LoadCommon(dir + "/common_circuit_data.json")
	if err != nil {
		return nil, nil, err
	}
	b, err := os.ReadFile(dir + "/proof_with_public_inputs.json")
	if err != nil {
		return nil, nil, err
	}
	p, err := ParseProof(b)
	if err != nil {
		return nil, nil, err
	}
	b, err = os.ReadFile(dir + "/verifier_only_circuit_data.json")
	if err != nil {
		return nil, nil, err
	}
	var v struct {
		Cap    []string `json:"constants_sigmas_cap"`
		Digest string   `json:"circuit_digest"`
	}
	if err := json.Unmarshal(b, &v); err != nil {
		return nil, nil, err
	}
	p.ConstCap = hs(v.Cap)
	p.Digest = hs([]string{v.Digest})[0]
	return c, p, nil
}
