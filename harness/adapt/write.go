package adapt

import (
	"encoding/json"
	"os"
	"path/filepath"

	"vharness/ref"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
)

// Write writes a circuit and its proof to a directory, as plonky2 does.
func Write(dir string, c *ref.Common, p *ref.Proof) error {
	type m = map[string]any
	ss := func(h []fr.Element) []string {
		o := []string{}
		for i := range h {
			o = append(o, h[i].String())
		}
		return o
	}
	us := func(v []fr.Element) []uint64 {
		o := []uint64{}
		for i := range v {
			o = append(o, v[i].Uint64())
		}
		return o
	}
	xs := func(v []ref.V2) [][]uint64 {
		o := [][]uint64{}
		for i := range v {
			o = append(o, us(v[i][:]))
		}
		return o
	}
	is := func(v []int) []uint64 {
		o := []uint64{}
		for _, x := range v {
			o = append(o, uint64(x))
		}
		return o
	}
	fri := m{"rate_bits": c.RateBits, "cap_height": c.CapHeight, "proof_of_work_bits": c.PowBits, "reduction_strategy": m{"ConstantArityBits": []int{4, 5}}, "num_query_rounds": c.NumQueries}
	ids, groups := []string{}, []any{}
	for _, g := range c.Gates {
		ids = append(ids, g.ID())
	}
	for _, g := range c.Groups {
		groups = append(groups, m{"start": g[0], "end": g[1]})
	}
	common := m{
		"config": m{"num_wires": c.NumWires, "num_routed_wires": c.NumRouted, "num_constants": 2, "use_base_arithmetic_gate": true, "security_bits": 100,
			"num_challenges": c.NumChallenges, "zero_knowledge": false, "max_quotient_degree_factor": c.QDF, "fri_config": fri},
		"fri_params":     m{"config": fri, "hiding": false, "degree_bits": c.DegreeBits, "reduction_arity_bits": is(c.Arity)},
		"gates":          ids,
		"selectors_info": m{"selector_indices": is(c.SelIdx), "groups": groups}, "quotient_degree_factor": c.QDF, "num_gate_constraints": c.NumGateConstraints,
		"num_constants": c.NumConstants, "num_public_inputs": c.NumPI, "k_is": c.KIs, "num_partial_products": c.NPP, "num_lookup_polys": 0, "num_lookup_selectors": 0, "luts": []int{},
	}
	rounds, caps := []any{}, [][]string{}
	for _, r := range p.Rounds {
		ev, st := []any{}, []any{}
		for _, e := range r.Init {
			ev = append(ev, []any{us(e.Leaf), m{"siblings": ss(e.Path)}})
		}
		for _, s := range r.Steps {
			st = append(st, m{"evals": xs(s.Evals), "merkle_proof": m{"siblings": ss(s.Path)}})
		}
		rounds = append(rounds, m{"initial_trees_proof": m{"evals_proofs": ev}, "steps": st})
	}
	for _, k := range p.CommitCaps {
		caps = append(caps, ss(k))
	}
	proof := m{
		"proof": m{"wires_cap": ss(p.WiresCap), "plonk_zs_partial_products_cap": ss(p.ZsCap), "quotient_polys_cap": ss(p.QuotCap),
			"openings": m{"constants": xs(p.Constants), "plonk_sigmas": xs(p.Sigmas), "wires": xs(p.Wires), "plonk_zs": xs(p.Zs), "plonk_zs_next": xs(p.ZsNext),
				"partial_products": xs(p.PartialProducts), "quotient_polys": xs(p.Quotients), "lookup_zs": []int{}, "lookup_zs_next": []int{}},
			"opening_proof": m{"commit_phase_merkle_caps": caps, "query_round_proofs": rounds, "final_poly": m{"coeffs": xs(p.Final)}, "pow_witness": p.Pow.Uint64()}},
		"public_inputs": us(p.PIs),
	}
	vk := m{"constants_sigmas_cap": ss(p.ConstCap), "circuit_digest": p.Digest.String()}
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	for name, x := range map[string]any{"common_circuit_data": common, "proof_with_public_inputs": proof, "verifier_only_circuit_data": vk} {
		b, err := json.Marshal(x)
		if err != nil {
			return err
		}
		if err := os.WriteFile(filepath.Join(dir, name+".json"), b, 0o644); err != nil {
			return err
		}
	}
	return nil
}
