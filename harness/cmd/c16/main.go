// C16: a gate description is either understood exactly or refused.
package main

import (
	"fmt"
	"regexp"
	"strings"

	"vharness/adapt"
	"vharness/chk"
	"vharness/eng"
	"vharness/ref"
	"vharness/wl"

	"github.com/succinctlabs/gnark-plonky2-verifier/plonk"
	"github.com/succinctlabs/gnark-plonky2-verifier/plonk/gates"
)

func main() {
	chk.Main(chk.Opt{ID: "C16", Level: "exploration",
		Rule:        "one evaluation = one gate description given to the real gate reader, which either refused it or produced a gate whose constraints on a row were compared with those of the reference gate of that description; descriptions of every supported gate over all parameters, of plonky2 gates this repository does not implement, and changed in one place; each repeated, as the reader's order is randomised; distinct = description",
		Assumptions: []string{"descriptions plonky2 never prints but that denote the same gate (leading zeros, spaces between weights) may be read or refused", "the descriptions of the two Poseidon gates carry no parameters and are read by their name, what follows it is ignored", "the weights of an interpolation gate are taken from the description"},
		Need:        []string{"read:", "refused:mutant", "refused:foreign", "refused:circuit", "same:"}}, run)
}

var num = regexp.MustCompile(`[0-9]+`)
var weights = regexp.MustCompile(`barycentric_weights: \[[0-9, ]*\]`)

func strip(s string) string {
	return num.ReplaceAllStringFunc(s, func(d string) string {
		d = strings.TrimLeft(d, "0")
		if d == "" {
			return "0"
		}
		return d
	})
}

// norm removes the variations that denote the same gate.
func norm(s string) string {
	s = strip(s)
	return weights.ReplaceAllString(s, "barycentric_weights: []")
}

func tolerated(s string) bool {
	n := norm(s)
	// the Poseidon gates have no parameters: their descriptions are read by name
	if strings.HasPrefix(n, "PoseidonGate") || strings.HasPrefix(n, "PoseidonMdsGate") {
		return true
	}
	if strings.HasPrefix(n, "CosetInterpolationGate") {
		var a, b int
		fmt.Sscanf(n, "CosetInterpolationGate { subgroup_bits: %d, degree: %d,", &a, &b)
		return n == fmt.Sprintf("CosetInterpolationGate { subgroup_bits: %d, degree: %d, barycentric_weights: [], _phantom: PhantomData<plonky2_field::goldilocks_field::GoldilocksField> }<D=2>", a, b)
	}
	return ref.ParseGate(n) != nil
}

func parse(s string) (g gates.Gate, refused string) {
	refused = chk.Try(func() { g = gates.GateInstanceFromId(s) })
	return
}

func sane(g ref.Gate) bool {
	switch x := g.(type) {
	case ref.BaseSumGate:
		return x.Base >= 2 && x.Base < 100 && x.Limbs >= 1 && x.Limbs < 300
	case ref.RandomAccessGate:
		return x.Bits >= 1 && x.Bits <= 7 && x.Copies >= 1 && x.Copies < 50 && x.Extra < 50
	case ref.ExpGate:
		return x.Bits >= 1 && x.Bits < 200
	case ref.ReducingGate:
		return x.N >= 1 && x.N < 200
	case ref.ReducingExtGate:
		return x.N >= 1 && x.N < 200
	case ref.ArithmeticGate:
		return x.Ops >= 1 && x.Ops < 200
	case ref.ArithmeticExtGate:
		return x.Ops >= 1 && x.Ops < 100
	case ref.MulExtGate:
		return x.Ops >= 1 && x.Ops < 100
	case ref.ConstantGate:
		return x.N >= 1 && x.N < 200
	case ref.CosetInterpGate:
		return x.Bits >= 1 && x.Bits <= 5 && x.Deg >= 2 && x.Deg <= 1<<x.Bits
	}
	return true
}

// try gives a description to the reader.
func try(t *chk.T, s, what string) bool {
	g := ref.ParseGate(s)
	for r := 0; r < 4; r++ {
		_, refused := parse(s)
		if g == nil {
			if refused == "" && !tolerated(s) {
				t.Fail("%s: the unknown description %q was read as a known gate", what, s)
				return false
			}
			if refused != "" {
				t.OK("refused:" + what + ":" + s)
			}
			continue
		}
		if !sane(g) {
			return true
		}
		if refused != "" && strip(s) != s {
			return true
		}
		if refused != "" {
			t.Fail("%s: the supported description %q was refused: %s", what, s, refused)
			return false
		}
		cs, ws, h := wl.GateRow(t.R, g, 1)
		j := wl.GateJob(s, g, cs, ws, h, false)
		j.Name = "read"
		if _, ok := wl.Honest(t, "native", j); !ok {
			return false
		}
		t.OK("read:" + s)
		if what != "exact" {
			t.OK("same:" + s)
		}
	}
	return true
}

var foreign = []string{
	"LookupGate {num_slots: 40, lut_hash: [1, 2]}", "LookupTableGate {num_slots: 26, lut_hash: [1, 2], last_lut_row: 3}", "LookupGate", "LookupTableGate",
	"U32ArithmeticGate { num_ops: 3, _phantom: PhantomData<plonky2_field::goldilocks_field::GoldilocksField> }", "U32AddManyGate { num_addends: 3, num_ops: 5, _phantom: PhantomData }",
	"U32SubtractionGate { num_ops: 6, _phantom: PhantomData<plonky2_field::goldilocks_field::GoldilocksField> }", "U32RangeCheckGate { num_input_limbs: 8, _phantom: PhantomData }",
	"ComparisonGate { num_bits: 32, num_chunks: 16, _phantom: PhantomData<plonky2_field::goldilocks_field::GoldilocksField> }<D=2>", "AssertLessThanGate { num_bits: 10 }",
	"LowDegreeInterpolationGate { subgroup_bits: 4 }<D=2>", "HighDegreeInterpolationGate { subgroup_bits: 4, _phantom: PhantomData }<D=2>", "InterpolationGate",
	"SwitchGate { num_copies: 3, chunk_size: 3 }", "CurveAddGate", "GMiMCGate", "AdditionGate", "", " ", "Gate", "noopgate", "NOOPGATE", "NoopGate2", "PublicInput", "PoseidonGate", "PoseidonMdsGate",
	"Poseidon2Gate(PhantomData<plonky2_field::goldilocks_field::GoldilocksField>)<WIDTH=12>", "PoseidonBN128Gate", "KeccakGate", "ArithmeticGate", "BaseSumGate", "ConstantGate", "RandomAccessGate",
	"ReducingGate", "ExponentiationGate", "CosetInterpolationGate", "BaseSplitGate { num_limbs: 63 } + Base: 2", "DummyGate { num_ops: 3 }",
	"MulGate { num_ops: 3 }", "ArithmeticExtGate { num_ops: 3 }", "ConstGate { num_consts: 2 }", "MyNoopGate", "NoopGateWithLookup", "ExtendedPublicInputGate", "PublicInputGate(4)",
	"WrappedGate(ArithmeticGate { num_ops: 20 })", "NegatedArithmeticGate { num_ops: 20 }", "DoublePoseidonGate(PhantomData<plonky2_field::goldilocks_field::GoldilocksField>)<WIDTH=12>",
	"SparseRandomAccessGate { bits: 4, num_copies: 4, num_extra_constants: 2, _phantom: PhantomData<plonky2_field::goldilocks_field::GoldilocksField> }<D=2>",
	"PairReducingGate { num_coeffs: 43 }", "LazyReducingExtensionGate { num_coeffs: 32 }", "FastExponentiationGate { num_power_bits: 67, _phantom: PhantomData<plonky2_field::goldilocks_field::GoldilocksField> }<D=2>",
	"SquareMulExtensionGate { num_ops: 13 }", "SignedBaseSumGate { num_limbs: 63 } + Base: 2", "MyConstantGate { num_consts: 2 }",
	"PoseidonGate(PhantomData<plonky2_field::goldilocks_field::GoldilocksField>)<WIDTH=8>", "PoseidonGate(PhantomData<plonky2_field::goldilocks_field::GoldilocksField>)<WIDTH=16>",
	"PoseidonMdsGate(PhantomData<plonky2_field::goldilocks_field::GoldilocksField>)<WIDTH=16>",
}

func mutants(t *chk.T, id string, n int) (o []string) {
	o = append(o, " "+id, id+" ", "X"+id, id+"X", id+id, id+"\n", "\n"+id, id+"\nNoopGate", strings.ToLower(id), strings.ToUpper(id), "Some("+id+")", id+", NoopGate", id[1:], id[:len(id)-1])
	o = append(o, strings.ReplaceAll(id, "Goldilocks", "Mersenne"), strings.ReplaceAll(id, "D=2", "D=3"), strings.ReplaceAll(id, "D=2", "D=4"), strings.ReplaceAll(id, "D=2", "D=1"),
		strings.ReplaceAll(id, "WIDTH=12", "WIDTH=8"), strings.ReplaceAll(id, "WIDTH=12", "WIDTH=120"), strings.ReplaceAll(id, "WIDTH=12", "WIDTH=2"),
		strings.ReplaceAll(id, "D=2", "D=20"), strings.ReplaceAll(id, "D=2", "D=12"), strings.ReplaceAll(id, "D=2", "D=22"), strings.ReplaceAll(id, "D=2", "D=02"))
	if i := strings.Index(id, ": "); i > 0 {
		o = append(o, strings.Replace(id, ": ", ": -", 1), strings.Replace(id, ": ", ": +", 1), strings.Replace(id, ": ", ":", 1), strings.Replace(id, ": ", ": 0x", 1), strings.Replace(id, ": ", ": 99999999999999999999999", 1), strings.Replace(id, ": ", ": 0", 1))
	}
	// another number of the same field
	for _, loc := range num.FindAllStringIndex(id, 4) {
		for _, v := range []string{"1", "2", "3", "7", "12", "18446744073709551616", "99999999999999999999", ""} {
			o = append(o, id[:loc[0]]+v+id[loc[1]:])
		}
	}
	const cs = "0123456789abcxyzABGZ {}<>=:,_()[]+"
	for k := 0; k < n; k++ {
		b := []byte(id)
		i := t.R.Intn(len(b))
		switch t.R.Intn(4) {
		case 0:
			b[i] = cs[t.R.Intn(len(cs))]
		case 1:
			b = append(b[:i], b[i+1:]...)
		case 2:
			b = append(b[:i], append([]byte{cs[t.R.Intn(len(cs))]}, b[i:]...)...)
		case 3:
			j := t.R.Intn(len(b))
			b[i], b[j] = b[j], b[i]
		}
		o = append(o, string(b))
	}
	return
}

func run(c *chk.Check) {
	n := 20
	if c.Thorough {
		n = 600
	}
	for gi, g := range wl.AllGates(false) {
		c.Case("gate/"+g.ID(), func(t *chk.T) {
			if !try(t, g.ID(), "exact") {
				return
			}
			k := n
			if gi%5 != 0 && !c.Thorough {
				k = 3
			}
			for _, m := range mutants(t, g.ID(), k) {
				if !try(t, m, "mutant") {
					return
				}
			}
		})
	}
	c.Case("foreign", func(t *chk.T) {
		for _, s := range foreign {
			try(t, s, "foreign")
			for _, m := range mutants(t, s+"Z", n) {
				try(t, m, "foreign")
			}
		}
	})
	// two descriptions in one, of every pair of kinds
	c.Case("pairs", func(t *chk.T) {
		kinds := []ref.Gate{ref.ArithmeticGate{20}, ref.ArithmeticExtGate{10}, ref.MulExtGate{13}, ref.BaseSumGate{63, 2}, ref.ConstantGate{2}, ref.CosetInterpGate{4, 6}, ref.ExpGate{67}, ref.NoopGate{}, ref.PoseidonGate{}, ref.PoseidonMdsGate{}, ref.PublicInputGate{}, ref.RandomAccessGate{4, 4, 2}, ref.ReducingGate{43}, ref.ReducingExtGate{32}}
		for _, a := range kinds {
			for _, b := range kinds {
				for _, sep := range []string{"", " ", " + ", ", "} {
					try(t, a.ID()+sep+b.ID(), "mutant")
				}
			}
		}
	})
	// a circuit with such a gate cannot be set up
	c.Case("circuit", func(t *chk.T) {
		cm := &ref.Common{NumWires: 12, NumRouted: 8, QDF: 8, NumChallenges: 2, NumConstants: 3, NumGateConstraints: 8, DegreeBits: 4, Gates: []ref.Gate{ref.NoopGate{}, ref.ArithmeticGate{2}}, Groups: [][2]int{{0, 2}}, SelIdx: []int{0, 0}, KIs: make([]uint64, 8)}
		for i, s := range append(append([]string{}, foreign...), "ArithmeticGate { num_ops: 2 }X", "XNoopGate") {
			cd := adapt.Common(cm)
			cd.GateIds[i%2] = s
			e := eng.NewNative()
			if p := chk.Try(func() { plonk.NewPlonkChip(e.API, cd) }); p == "" && !tolerated(s) {
				t.Fail("a circuit with the unknown gate %q was set up", s)
			}
			t.OK("refused:circuit:" + s)
		}
		cd := adapt.Common(cm)
		if p := chk.Try(func() { plonk.NewPlonkChip(eng.NewNative().API, cd) }); p != "" {
			t.Fail("a circuit with known gates was refused: %s", p)
		}
	})
}
