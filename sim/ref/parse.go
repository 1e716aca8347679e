package ref

import (
	"fmt"
	"strings"
)

// ParseGate recognises the gate identifiers used by plonky2.
func ParseGate(id string) (Gate, error) {
	var a, b, c int
	switch {
	case id == "NoopGate":
		return Noop{}, nil
	case id == "PublicInputGate":
		return PublicInput{}, nil
	case strings.HasPrefix(id, "PoseidonGate("):
		return PoseidonG{}, nil
	case strings.HasPrefix(id, "PoseidonMdsGate("):
		return PoseidonMds{}, nil
	}
	if n, _ := fmt.Sscanf(id, "ArithmeticGate { num_ops: %d }", &a); n == 1 {
		return Arithmetic{a}, nil
	}
	if n, _ := fmt.Sscanf(id, "ArithmeticExtensionGate { num_ops: %d }", &a); n == 1 {
		return ArithmeticExt{a}, nil
	}
	if n, _ := fmt.Sscanf(id, "MulExtensionGate { num_ops: %d }", &a); n == 1 {
		return MulExt{a}, nil
	}
	if n, _ := fmt.Sscanf(id, "BaseSumGate { num_limbs: %d } + Base: %d", &a, &b); n == 2 {
		return BaseSum{a, b}, nil
	}
	if n, _ := fmt.Sscanf(id, "ConstantGate { num_consts: %d }", &a); n == 1 {
		return Constant{a}, nil
	}
	if n, _ := fmt.Sscanf(id, "CosetInterpolationGate { subgroup_bits: %d, degree: %d,", &a, &b); n == 2 {
		return CosetInterp{a, b}, nil
	}
	if n, _ := fmt.Sscanf(id, "ExponentiationGate { num_power_bits: %d,", &a); n == 1 {
		return Exponentiation{a}, nil
	}
	if n, _ := fmt.Sscanf(id, "RandomAccessGate { bits: %d, num_copies: %d, num_extra_constants: %d,", &a, &b, &c); n == 3 {
		return RandomAccess{a, b, c}, nil
	}
	if n, _ := fmt.Sscanf(id, "ReducingGate { num_coeffs: %d }", &a); n == 1 {
		return Reducing{a}, nil
	}
	if n, _ := fmt.Sscanf(id, "ReducingExtensionGate { num_coeffs: %d }", &a); n == 1 {
		return ReducingExt{a}, nil
	}
	return nil, fmt.Errorf("unknown gate %q", id)
}
