// C17: reading the files plonky2 writes yields exactly their contents.
package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"strings"

	"vharness/adapt"
	"vharness/chk"
	"vharness/ref"
	"vharness/wl"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark/frontend"
	"github.com/succinctlabs/gnark-plonky2-verifier/plonk/gates"
	"github.com/succinctlabs/gnark-plonky2-verifier/poseidon"
	"github.com/succinctlabs/gnark-plonky2-verifier/types"
	"github.com/succinctlabs/gnark-plonky2-verifier/variables"
)

func main() {
	chk.Main(chk.Opt{ID: "C17", Level: "exploration",
		Rule:        "one evaluation = one file written here in plonky2's format (random shape, boundary values, field order and spacing) read with the real reader and every field compared with what was written; or one malformed file that the reader had to refuse; distinct = kind x shape class / kind of malformation",
		Assumptions: []string{"hashes are decimal numbers below the BN254 scalar modulus, as plonky2's serialiser prints them"},
		Need:        []string{"proof:", "common:", "verifier:", "refused:", "real:"}}, run)
}

var scratch string

func write(t *chk.T, b []byte) string {
	p := filepath.Join(scratch, fmt.Sprintf("%x", t.R.Int63())+".json")
	if err := os.WriteFile(p, b, 0o600); err != nil {
		panic(err)
	}
	return p
}

// obj is an object with random field order.
type obj []any

func (o obj) render(r *rand.Rand, sp bool) string {
	n := len(o) / 2
	var s []string
	for _, i := range r.Perm(n) {
		s = append(s, fmt.Sprintf("%q:%s%s", o[2*i], gap(r, sp), js(r, o[2*i+1], sp)))
	}
	return "{" + gap(r, sp) + strings.Join(s, ","+gap(r, sp)) + gap(r, sp) + "}"
}

func gap(r *rand.Rand, sp bool) string {
	if !sp {
		return ""
	}
	return []string{"", " ", "\n", "\t  "}[r.Intn(4)]
}

func js(r *rand.Rand, x any, sp bool) string {
	switch v := x.(type) {
	case obj:
		return v.render(r, sp)
	case []any:
		var s []string
		for _, e := range v {
			s = append(s, js(r, e, sp))
		}
		return "[" + gap(r, sp) + strings.Join(s, ","+gap(r, sp)) + "]"
	case []string:
		b, _ := json.Marshal(v)
		return string(b)
	case []uint64:
		if v == nil {
			v = []uint64{}
		}
		b, _ := json.Marshal(v)
		return string(b)
	case [][]uint64:
		if v == nil {
			v = [][]uint64{}
		}
		b, _ := json.Marshal(v)
		return string(b)
	}
	b, err := json.Marshal(x)
	if err != nil {
		panic(err)
	}
	return string(b)
}

func u64(t *chk.T) uint64 {
	switch t.R.Intn(4) {
	case 0:
		return []uint64{0, 1, 1<<53 - 1, 1 << 53, 1<<53 + 1, 1<<63 - 1, 1 << 63, ref.P - 1, ref.P, 1<<64 - 1, 1<<64 - 2}[t.R.Intn(11)]
	}
	return t.R.Uint64()
}

func hash(t *chk.T) string {
	switch t.R.Intn(8) {
	case 0:
		return []string{"0", "1", new(big.Int).Sub(fr.Modulus(), big.NewInt(1)).String(), "18446744073709551616", "340282366920938463463374607431768211456"}[t.R.Intn(5)]
	}
	return new(big.Int).Rand(t.R, fr.Modulus()).String()
}

func hashes(t *chk.T, n int) []string {
	o := make([]string, n)
	for i := range o {
		o[i] = hash(t)
	}
	return o
}

func exts(t *chk.T, n int) [][]uint64 {
	o := make([][]uint64, n)
	for i := range o {
		o[i] = []uint64{u64(t), u64(t)}
	}
	return o
}

func limbs(t *chk.T, n int) []uint64 {
	o := make([]uint64, n)
	for i := range o {
		o[i] = u64(t)
	}
	return o
}

// toBig reads the value of a variable.
func toBig(v frontend.Variable) *big.Int {
	switch x := v.(type) {
	case nil:
		return nil
	case *big.Int:
		return x
	case big.Int:
		return &x
	case fr.Element:
		return x.BigInt(new(big.Int))
	case *fr.Element:
		return x.BigInt(new(big.Int))
	case string:
		b, ok := new(big.Int).SetString(x, 0)
		if !ok {
			return nil
		}
		return b
	}
	rv := reflect.ValueOf(v)
	switch rv.Kind() {
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return new(big.Int).SetUint64(rv.Uint())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return big.NewInt(rv.Int())
	case reflect.Array: // field elements of other packages
		if m := rv.MethodByName("String"); m.IsValid() {
			b, _ := new(big.Int).SetString(m.Call(nil)[0].String(), 10)
			return b
		}
	}
	if s, ok := v.(fmt.Stringer); ok {
		b, _ := new(big.Int).SetString(s.String(), 10)
		return b
	}
	return nil
}

// cmp collects differences.
type cmp struct {
	bad string
	n   int
}

func (c *cmp) num(where string, got frontend.Variable, want *big.Int) {
	c.n++
	g := toBig(got)
	if g == nil || g.Cmp(want) != 0 {
		if c.bad == "" {
			c.bad = fmt.Sprintf("%s: read %v want %v", where, got, want)
		}
	}
}

func (c *cmp) len(where string, a, b int) bool {
	c.n++
	if a != b && c.bad == "" {
		c.bad = fmt.Sprintf("%s: %d elements, want %d", where, a, b)
	}
	return a == b
}

func (c *cmp) hashes(where string, got variables.FriMerkleCap, want []string) {
	if !c.len(where, len(got), len(want)) {
		return
	}
	for i := range want {
		w, _ := new(big.Int).SetString(want[i], 10)
		c.num(fmt.Sprintf("%s[%d]", where, i), got[i], w)
	}
}

type mProof struct {
	wires, zs, quot []string
	op              map[string][][]uint64
	caps            [][]string
	rounds          []mRound
	final           [][]uint64
	pow             uint64
	pis             []uint64
}

type mRound struct {
	leaves [][]uint64
	paths  [][]string
	evals  [][][]uint64
	spaths [][]string
}

var opNames = []string{"constants", "plonk_sigmas", "wires", "plonk_zs", "plonk_zs_next", "partial_products", "quotient_polys"}

func genProof(t *chk.T) *mProof {
	f := 1
	if t.R.Intn(40) == 0 {
		f = 12
	}
	n := func(k int) int { return t.R.Intn(k*f + 1) }
	m := &mProof{wires: hashes(t, n(17)), zs: hashes(t, n(17)), quot: hashes(t, n(17)), op: map[string][][]uint64{}, pow: u64(t), pis: limbs(t, n(40)), final: exts(t, n(20))}
	for _, k := range opNames {
		m.op[k] = exts(t, n(12))
	}
	for i := n(4); i > 0; i-- {
		m.caps = append(m.caps, hashes(t, n(17)))
	}
	for i := n(5); i > 0; i-- {
		var r mRound
		for j := n(5); j > 0; j-- {
			r.leaves = append(r.leaves, limbs(t, n(10)))
			r.paths = append(r.paths, hashes(t, n(8)))
		}
		for j := n(3); j > 0; j-- {
			r.evals = append(r.evals, exts(t, n(17)))
			r.spaths = append(r.spaths, hashes(t, n(8)))
		}
		m.rounds = append(m.rounds, r)
	}
	return m
}

func (m *mProof) json(t *chk.T, extra bool) []byte {
	op := obj{}
	for _, k := range opNames {
		op = append(op, k, m.op[k])
	}
	rounds := []any{}
	for _, r := range m.rounds {
		ev, st := []any{}, []any{}
		for i := range r.leaves {
			ev = append(ev, []any{r.leaves[i], obj{"siblings", r.paths[i]}})
		}
		for i := range r.evals {
			st = append(st, obj{"evals", r.evals[i], "merkle_proof", obj{"siblings", r.spaths[i]}})
		}
		rounds = append(rounds, obj{"initial_trees_proof", obj{"evals_proofs", ev}, "steps", st})
	}
	caps := []any{}
	for _, c := range m.caps {
		caps = append(caps, c)
	}
	if extra {
		op = append(op, "lookup_zs", []uint64{}, "lookup_zs_next", []uint64{})
	}
	fri := obj{"commit_phase_merkle_caps", caps, "query_round_proofs", rounds, "final_poly", obj{"coeffs", m.final}, "pow_witness", m.pow}
	pr := obj{"wires_cap", m.wires, "plonk_zs_partial_products_cap", m.zs, "quotient_polys_cap", m.quot, "openings", op, "opening_proof", fri}
	return []byte(js(t.R, obj{"proof", pr, "public_inputs", m.pis}, extra))
}

func (c *cmp) ext(where string, got []qe, want [][]uint64) {
	if !c.len(where, len(got), len(want)) {
		return
	}
	for i := range want {
		c.num(fmt.Sprintf("%s[%d].0", where, i), got[i][0].Limb, wl.B(want[i][0]))
		c.num(fmt.Sprintf("%s[%d].1", where, i), got[i][1].Limb, wl.B(want[i][1]))
	}
}

func (c *cmp) limbs(where string, got []gv, want []uint64) {
	if !c.len(where, len(got), len(want)) {
		return
	}
	for i := range want {
		c.num(fmt.Sprintf("%s[%d]", where, i), got[i].Limb, wl.B(want[i]))
	}
}

func (c *cmp) proof(p variables.ProofWithPublicInputs, m *mProof) {
	c.hashes("wires_cap", p.Proof.WiresCap, m.wires)
	c.hashes("zs_cap", p.Proof.PlonkZsPartialProductsCap, m.zs)
	c.hashes("quotient_cap", p.Proof.QuotientPolysCap, m.quot)
	o := p.Proof.Openings
	for i, g := range [][]qe{o.Constants, o.PlonkSigmas, o.Wires, o.PlonkZs, o.PlonkZsNext, o.PartialProducts, o.QuotientPolys} {
		c.ext(opNames[i], g, m.op[opNames[i]])
	}
	f := p.Proof.OpeningProof
	if c.len("commit caps", len(f.CommitPhaseMerkleCaps), len(m.caps)) {
		for i := range m.caps {
			c.hashes(fmt.Sprintf("commit_cap%d", i), f.CommitPhaseMerkleCaps[i], m.caps[i])
		}
	}
	c.ext("final", f.FinalPoly.Coeffs, m.final)
	c.num("pow", f.PowWitness.Limb, wl.B(m.pow))
	c.limbs("public inputs", p.PublicInputs, m.pis)
	if !c.len("rounds", len(f.QueryRoundProofs), len(m.rounds)) {
		return
	}
	for i, r := range m.rounds {
		g := f.QueryRoundProofs[i]
		if c.len("evals proofs", len(g.InitialTreesProof.EvalsProofs), len(r.leaves)) {
			for j := range r.leaves {
				c.limbs(fmt.Sprintf("round%d leaf%d", i, j), g.InitialTreesProof.EvalsProofs[j].Elements, r.leaves[j])
				c.hashes(fmt.Sprintf("round%d path%d", i, j), g.InitialTreesProof.EvalsProofs[j].MerkleProof.Siblings, r.paths[j])
			}
		}
		if c.len("steps", len(g.Steps), len(r.evals)) {
			for j := range r.evals {
				c.ext(fmt.Sprintf("round%d step%d", i, j), g.Steps[j].Evals, r.evals[j])
				c.hashes(fmt.Sprintf("round%d steppath%d", i, j), g.Steps[j].MerkleProof.Siblings, r.spaths[j])
			}
		}
	}
}

func friCfg(c types.FriConfig, mut int) obj {
	o := obj{"rate_bits", c.RateBits, "cap_height", c.CapHeight, "proof_of_work_bits", c.ProofOfWorkBits, "reduction_strategy", obj{"ConstantArityBits", []uint64{4, 5}}, "num_query_rounds", c.NumQueryRounds}
	return o
}

func commonCase(t *chk.T, k int) {
	u := func() uint64 { return u64(t) }
	var w types.CommonCircuitData
	fc := func() types.FriConfig {
		return types.FriConfig{RateBits: u(), CapHeight: u(), ProofOfWorkBits: u(), NumQueryRounds: u()}
	}
	w.Config = types.CircuitConfig{NumWires: u(), NumRoutedWires: u(), NumConstants: u(), UseBaseArithmeticGate: t.R.Intn(2) == 0, SecurityBits: u(), NumChallenges: u(), ZeroKnowledge: t.R.Intn(2) == 0, MaxQuotientDegreeFactor: u(), FriConfig: fc()}
	w.FriParams = types.FriParams{Config: fc(), DegreeBits: u(), ReductionArityBits: limbs(t, t.R.Intn(6))}
	w.DegreeBits = w.FriParams.DegreeBits
	for i := t.R.Intn(15); i >= 0; i-- {
		gs := wl.AllGates(false)
		w.GateIds = append(w.GateIds, gs[t.R.Intn(len(gs))].ID())
	}
	ng := t.R.Intn(6)
	var st, en []uint64
	groups := []any{}
	for i := 0; i < ng; i++ {
		st, en = append(st, u()), append(en, u())
		groups = append(groups, obj{"start", st[i], "end", en[i]})
	}
	idx := limbs(t, len(w.GateIds))
	w.SelectorsInfo = *gates.NewSelectorsInfo(idx, st, en)
	w.QuotientDegreeFactor, w.NumGateConstraints, w.NumConstants, w.NumPublicInputs, w.NumPartialProducts = u(), u(), u(), u(), u()
	w.KIs = limbs(t, t.R.Intn(90))
	c := w.Config
	ids := []any{}
	for _, g := range w.GateIds {
		ids = append(ids, g)
	}
	hiding := k%9 == 8
	o := obj{"config", obj{"num_wires", c.NumWires, "num_routed_wires", c.NumRoutedWires, "num_constants", c.NumConstants, "use_base_arithmetic_gate", c.UseBaseArithmeticGate, "security_bits", c.SecurityBits,
		"num_challenges", c.NumChallenges, "zero_knowledge", c.ZeroKnowledge, "max_quotient_degree_factor", c.MaxQuotientDegreeFactor, "fri_config", friCfg(c.FriConfig, 0)},
		"fri_params", obj{"config", friCfg(w.FriParams.Config, 0), "hiding", hiding, "degree_bits", w.FriParams.DegreeBits, "reduction_arity_bits", w.FriParams.ReductionArityBits},
		"gates", ids, "selectors_info", obj{"selector_indices", idx, "groups", groups}, "quotient_degree_factor", w.QuotientDegreeFactor, "num_gate_constraints", w.NumGateConstraints, "num_constants", w.NumConstants,
		"num_public_inputs", w.NumPublicInputs, "k_is", w.KIs, "num_partial_products", w.NumPartialProducts, "num_lookup_polys", 0, "luts", []uint64{}}
	path := write(t, []byte(js(t.R, o, k%2 == 0)))
	defer os.Remove(path)
	var g types.CommonCircuitData
	p := chk.Try(func() { g = types.ReadCommonCircuitData(path) })
	if hiding {
		if p == "" {
			t.Fail("a circuit with hiding enabled was read")
		}
		t.OK("refused:hiding")
		return
	}
	if p != "" {
		t.Fail("a well formed circuit description was refused: %s", p)
		return
	}
	// empty and missing lists are the same
	fix := func(d *types.CommonCircuitData) {
		if len(d.KIs) == 0 {
			d.KIs = nil
		}
		if len(d.FriParams.ReductionArityBits) == 0 {
			d.FriParams.ReductionArityBits = nil
		}
	}
	fix(&g)
	fix(&w)
	if !reflect.DeepEqual(g, w) {
		t.Fail("read %+v want %+v", g, w)
		return
	}
	t.OK(fmt.Sprintf("common:groups%d:gates%d:k%d", ng, len(ids), len(w.KIs)))
}

func proofCase(t *chk.T, k int) {
	m := genProof(t)
	b := m.json(t, k%2 == 0)
	path := write(t, b)
	defer os.Remove(path)
	var c cmp
	var raw types.ProofWithPublicInputsRaw
	if p := chk.Try(func() {
		raw = types.ReadProofWithPublicInputs(path)
		c.proof(variables.DeserializeProofWithPublicInputs(raw), m)
		// and again: the raw value is not used up
		c.proof(variables.DeserializeProofWithPublicInputs(raw), m)
	}); p != "" {
		t.Fail("a well formed proof was refused: %s", p)
		return
	}
	if c.bad != "" {
		t.Fail("proof: %s", c.bad)
		return
	}
	t.C.Stat("fields_compared", c.n)
	t.OK(fmt.Sprintf("proof:rounds%d:caps%d:pis%d", len(m.rounds), len(m.caps), len(m.pis)))
}

func verifierCase(t *chk.T, k int) {
	cap, d := hashes(t, t.R.Intn(20)), hash(t)
	path := write(t, []byte(js(t.R, obj{"constants_sigmas_cap", cap, "circuit_digest", d}, k%2 == 0)))
	defer os.Remove(path)
	var c cmp
	if p := chk.Try(func() {
		v := variables.DeserializeVerifierOnlyCircuitData(types.ReadVerifierOnlyCircuitData(path))
		c.hashes("constants_sigmas_cap", v.ConstantSigmasCap, cap)
		w, _ := new(big.Int).SetString(d, 10)
		c.num("circuit_digest", v.CircuitDigest, w)
	}); p != "" {
		t.Fail("a well formed verifier key was refused: %s", p)
		return
	}
	if c.bad != "" {
		t.Fail("verifier key: %s", c.bad)
		return
	}
	t.OK(fmt.Sprintf("verifier:%d", len(cap)))
}

// refuse demands that a file is not read.
func refuse(t *chk.T, what string, b []byte, kind string) {
	path := write(t, b)
	defer os.Remove(path)
	p := chk.Try(func() {
		switch kind {
		case "proof":
			variables.DeserializeProofWithPublicInputs(types.ReadProofWithPublicInputs(path))
		case "common":
			types.ReadCommonCircuitData(path)
		case "verifier":
			variables.DeserializeVerifierOnlyCircuitData(types.ReadVerifierOnlyCircuitData(path))
		}
	})
	if p == "" {
		t.Fail("%s: a malformed %s file was read without complaint", what, kind)
		return
	}
	t.OK("refused:" + kind + ":" + what)
}

// notNumbers demands that a hash that is not a decimal number never yields a
// value: either the file is refused, or what was read holds no number, which
// cannot be assigned to a circuit.
func notNumbers(t *chk.T) {
	m := genProof(t)
	for len(m.wires) == 0 || len(m.zs) == 0 || len(m.quot) == 0 {
		m = genProof(t)
	}
	s := []string{"", "x", "12a", "0x10", "1.5", " 1", "1 ", "1e3", "--1", "1,0", "0b1", "1/2", "\u0661"}[t.R.Intn(13)]
	usable := func(v frontend.Variable) bool {
		switch x := v.(type) {
		case nil:
			return false
		case *big.Int:
			return x != nil
		}
		return true
	}
	where := t.R.Intn(6)
	name := []string{"wires_cap", "plonk_zs_partial_products_cap", "quotient_polys_cap", "commit_phase_merkle_caps", "siblings", "verifier key"}[where]
	var got frontend.Variable
	p := chk.Try(func() {
		switch where {
		case 0, 1, 2:
			l := [][]string{m.wires, m.zs, m.quot}[where]
			i := t.R.Intn(len(l))
			l[i] = s
			f := write(t, m.json(t, false))
			defer os.Remove(f)
			pr := variables.DeserializeProofWithPublicInputs(types.ReadProofWithPublicInputs(f)).Proof
			got = [][]poseidon.BN254HashOut{pr.WiresCap, pr.PlonkZsPartialProductsCap, pr.QuotientPolysCap}[where][i]
		case 3, 4:
			got = variables.StringArrayToHashBN254Array([]string{"7", s, "9"})[1]
		case 5:
			raw := types.VerifierOnlyCircuitDataRaw{ConstantsSigmasCap: []string{"1", s}, CircuitDigest: s}
			v := variables.DeserializeVerifierOnlyCircuitData(raw)
			got = v.CircuitDigest
			if !usable(got) {
				got = v.ConstantSigmasCap[1]
			}
		}
	})
	if p == "" && usable(got) {
		t.Fail("%s: the hash %q, which is not a decimal number, was read as %v", name, s, got)
		return
	}
	t.OK("notnumber:" + name)
}

func run(c *chk.Check) {
	scratch = filepath.Join(os.Getenv("VERIF_SCRATCH"), "files")
	if os.Getenv("VERIF_SCRATCH") == "" {
		d, _ := os.MkdirTemp("", "c17")
		scratch = d
	}
	os.MkdirAll(scratch, 0o700)
	defer os.RemoveAll(scratch)
	n := 4000
	if c.Thorough {
		n = 80000
	}
	for k := 0; k < n; k++ {
		c.Case(fmt.Sprintf("proof/%d", k), func(t *chk.T) { proofCase(t, k) })
		c.Case(fmt.Sprintf("verifier/%d", k), func(t *chk.T) { verifierCase(t, k) })
		if k < n/2 {
			c.Case(fmt.Sprintf("common/%d", k), func(t *chk.T) { commonCase(t, k) })
		}
	}
	// malformed files
	for k := 0; k < n/10; k++ {
		c.Case(fmt.Sprintf("malformed/%d", k), func(t *chk.T) {
			m := genProof(t)
			for len(m.op["wires"]) == 0 || len(m.pis) == 0 || len(m.final) == 0 {
				m = genProof(t)
			}
			b := string(m.json(t, false))
			refuse(t, "truncated", []byte(b[:t.R.Intn(len(b))]), "proof")
			refuse(t, "trailing", []byte(b+"]"), "proof")
			rep := func(name, v string) {
				i := strings.Index(b, name+`":`)
				j := i + len(name) + 2
				e := j
				for depth := 0; e < len(b); e++ {
					if b[e] == '[' || b[e] == '{' {
						depth++
					}
					if b[e] == ']' || b[e] == '}' {
						depth--
						if depth < 0 {
							break
						}
					}
					if b[e] == ',' && depth == 0 {
						break
					}
				}
				refuse(t, name+"="+v, []byte(b[:j]+v+b[e:]), "proof")
			}
			for _, f := range []string{"public_inputs", "final_poly", "openings", "pow_witness", "wires_cap", "query_round_proofs", "commit_phase_merkle_caps", "plonk_zs_next"} {
				for _, v := range []string{`"x"`, `true`, `[[["x"]]]`} {
					rep(f, v)
				}
			}
			rep("pow_witness", "18446744073709551616")
			rep("pow_witness", "-1")
			rep("pow_witness", "1.5")
			rep("public_inputs", "[18446744073709551616]")
			rep("public_inputs", "[-1]")
			rep("public_inputs", "[0.5]")
			rep("wires", "[[1,-2]]")
			rep("wires", "[[1,18446744073709551616]]")
			rep("wires_cap", "[1]")
			notNumbers(t)
		})
	}
	c.Case("files", func(t *chk.T) {
		for _, k := range []string{"proof", "common", "verifier"} {
			for _, s := range []string{"", "null x", "{", "[]", `"a"`, "12", "{\"a\":1}}"} {
				refuse(t, "text "+s, []byte(s), k)
			}
			for _, path := range []string{filepath.Join(scratch, "absent.json"), scratch} {
				if p := chk.Try(func() {
					switch k {
					case "proof":
						types.ReadProofWithPublicInputs(path)
					case "common":
						types.ReadCommonCircuitData(path)
					default:
						types.ReadVerifierOnlyCircuitData(path)
					}
				}); p == "" {
					t.Fail("%s: reading %s succeeded", k, path)
				}
				t.OK("refused:" + k + ":path")
			}
		}
		for _, b := range []string{
			`{"config":{"num_wires":-1}}`, `{"config":{"num_wires":"5"}}`, `{"k_is":[18446744073709551616]}`, `{"k_is":[-1]}`, `{"gates":[1]}`, `{"fri_params":{"degree_bits":1.5}}`, `{"fri_params":{"hiding":"yes"}}`,
			`{"fri_params":{"hiding":true}}`, `{"selectors_info":{"groups":[{"start":-1,"end":2}]}}`,
		} {
			refuse(t, b, []byte(b), "common")
		}
		for _, b := range []string{`{"constants_sigmas_cap":[1]}`, `{"circuit_digest":1}`, `{"constants_sigmas_cap":"1"}`} {
			refuse(t, b, []byte(b), "verifier")
		}
	})
	for _, d := range []string{"step", "decode_block"} {
		c.Case("real/"+d, func(t *chk.T) {
			dir := "/repo/testdata/" + d
			cm, p, err := adapt.LoadReal(dir)
			if err != nil {
				panic(err)
			}
			m := &mProof{op: map[string][][]uint64{}}
			ss := func(h []fr.Element) (o []string) {
				for i := range h {
					o = append(o, h[i].String())
				}
				return
			}
			xs := func(v []ref.V2) (o [][]uint64) {
				for i := range v {
					o = append(o, []uint64{v[i][0].Uint64(), v[i][1].Uint64()})
				}
				return
			}
			us := func(v []fr.Element) (o []uint64) {
				for i := range v {
					o = append(o, v[i].Uint64())
				}
				return
			}
			m.wires, m.zs, m.quot = ss(p.WiresCap), ss(p.ZsCap), ss(p.QuotCap)
			for i, l := range [][]ref.V2{p.Constants, p.Sigmas, p.Wires, p.Zs, p.ZsNext, p.PartialProducts, p.Quotients} {
				m.op[opNames[i]] = xs(l)
			}
			for _, x := range p.CommitCaps {
				m.caps = append(m.caps, ss(x))
			}
			for _, r := range p.Rounds {
				var q mRound
				for _, e := range r.Init {
					q.leaves, q.paths = append(q.leaves, us(e.Leaf)), append(q.paths, ss(e.Path))
				}
				for _, s := range r.Steps {
					q.evals, q.spaths = append(q.evals, xs(s.Evals)), append(q.spaths, ss(s.Path))
				}
				m.rounds = append(m.rounds, q)
			}
			m.final, m.pow, m.pis = xs(p.Final), p.Pow.Uint64(), us(p.PIs)
			var cc cmp
			cc.proof(variables.DeserializeProofWithPublicInputs(types.ReadProofWithPublicInputs(dir+"/proof_with_public_inputs.json")), m)
			v := variables.DeserializeVerifierOnlyCircuitData(types.ReadVerifierOnlyCircuitData(dir + "/verifier_only_circuit_data.json"))
			cc.hashes("constants_sigmas_cap", v.ConstantSigmasCap, ss(p.ConstCap))
			cc.num("digest", v.CircuitDigest, p.Digest.BigInt(new(big.Int)))
			if cc.bad != "" {
				t.Fail("%s: %s", d, cc.bad)
			}
			g := types.ReadCommonCircuitData(dir + "/common_circuit_data.json")
			w := adapt.Common(cm)
			if g.Config.NumWires != w.Config.NumWires || g.NumConstants != w.NumConstants || !reflect.DeepEqual(g.SelectorsInfo, w.SelectorsInfo) || !reflect.DeepEqual(g.KIs, w.KIs) || !reflect.DeepEqual(g.FriParams, w.FriParams) || len(g.GateIds) != len(w.GateIds) {
				t.Fail("%s: common data differ", d)
			}
			t.C.Stat("fields_compared", cc.n)
			t.OK("real:" + d)
		})
	}
	c.Wait()
}
