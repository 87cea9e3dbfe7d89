package ref

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
)

// ParseGate builds the reference gate of an id, nil if there is none whose id
// is exactly this.
func ParseGate(id string) Gate {
	var a, b, c int
	try := func(g Gate) Gate {
		if a >= 0 && b >= 0 && c >= 0 && g.ID() == id {
			return g
		}
		return nil
	}
	has := func(p string) bool { return strings.HasPrefix(id, p) }
	switch {
	case id == "NoopGate":
		return NoopGate{}
	case id == "PublicInputGate":
		return PublicInputGate{}
	case has("PoseidonGate"):
		return try(PoseidonGate{})
	case has("PoseidonMdsGate"):
		return try(PoseidonMdsGate{})
	case has("ArithmeticGate"):
		fmt.Sscanf(id, "ArithmeticGate { num_ops: %d }", &a)
		return try(ArithmeticGate{a})
	case has("ArithmeticExtensionGate"):
		fmt.Sscanf(id, "ArithmeticExtensionGate { num_ops: %d }", &a)
		return try(ArithmeticExtGate{a})
	case has("MulExtensionGate"):
		fmt.Sscanf(id, "MulExtensionGate { num_ops: %d }", &a)
		return try(MulExtGate{a})
	case has("BaseSumGate"):
		fmt.Sscanf(id, "BaseSumGate { num_limbs: %d } + Base: %d", &a, &b)
		return try(BaseSumGate{a, b})
	case has("ConstantGate"):
		fmt.Sscanf(id, "ConstantGate { num_consts: %d }", &a)
		return try(ConstantGate{a})
	case has("CosetInterpolationGate"):
		fmt.Sscanf(id, "CosetInterpolationGate { subgroup_bits: %d, degree: %d,", &a, &b)
		if a < 0 || a > 8 || b < 2 {
			return nil
		}
		// plonky2 prints the raw, possibly non-canonical, representative of a weight
		return tryMod(CosetInterpGate{a, b}, id)
	case has("ExponentiationGate"):
		fmt.Sscanf(id, "ExponentiationGate { num_power_bits: %d,", &a)
		return try(ExpGate{a})
	case has("RandomAccessGate"):
		fmt.Sscanf(id, "RandomAccessGate { bits: %d, num_copies: %d, num_extra_constants: %d,", &a, &b, &c)
		return try(RandomAccessGate{a, b, c})
	case has("ReducingGate"):
		fmt.Sscanf(id, "ReducingGate { num_coeffs: %d }", &a)
		return try(ReducingGate{a})
	case has("ReducingExtensionGate"):
		fmt.Sscanf(id, "ReducingExtensionGate { num_coeffs: %d }", &a)
		return try(ReducingExtGate{a})
	}
	return nil
}

var number = regexp.MustCompile(`[0-9]+`)

func tryMod(g Gate, id string) Gate {
	red := number.ReplaceAllStringFunc(id, func(x string) string {
		v, err := strconv.ParseUint(x, 10, 64)
		if err != nil {
			return x
		}
		return strconv.FormatUint(v%P, 10)
	})
	if g.ID() == red {
		return g
	}
	return nil
}
