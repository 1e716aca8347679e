package checks

import (
	"math/big"
	"math/rand"

	"verif/sim/eng"
	"verif/sim/lab"
)

// liar answers chosen hint calls with lies and everything else as a prover that never refuses an operand.
// fired counts the lies that really changed an answer.
func liar(faults []lab.Fault, fired map[string]int) eng.HintFn { return liarWith(faults, fired, 0) }

// liarWith also chooses how out-of-range values are split into limbs.
func liarWith(faults []lab.Fault, fired map[string]int, policy int) eng.HintFn {
	by := map[int]lab.Fault{}
	for _, f := range faults {
		if len(f.A) >= 2 {
			by[f.A[0]] = f
		}
	}
	var prev [][]*big.Int
	return func(call int, k eng.Kind, in, honest []*big.Int, nOut int) []*big.Int {
		if honest == nil {
			honest = eng.Fallback(k, in, nOut)
		}
		ans := honest
		if policy > 0 {
			if l := eng.SplitPolicy(k, in, policy); l != nil && !same(l, honest) {
				ans = l
				fired["splitPolicy"]++
			}
		}
		if f, ok := by[call]; ok {
			if l := eng.Lie(f.K, k, in, honest, prev, nOut, rand.New(rand.NewSource(int64(f.A[1])))); l != nil && !same(l, honest) {
				ans = l
				fired[f.K]++
			}
		}
		if ans != nil {
			if len(prev) < 8 {
				prev = append(prev, ans)
			} else {
				prev[call%8] = ans
			}
		}
		return ans
	}
}

func same(a, b []*big.Int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Cmp(b[i]) != 0 {
			return false
		}
	}
	return true
}

// substitute is the adaptive attack: wherever an honest quotient/remainder answer has remainder from,
// answer remainder to and solve the quotient in the native field (mode 0), shift the quotient (mode 1)
// or keep the honest quotient (mode 2).
func substitute(from, to *big.Int, mode int, fired map[string]int) eng.HintFn {
	return func(call int, k eng.Kind, in, honest []*big.Int, nOut int) []*big.Int {
		if honest == nil {
			honest = eng.Fallback(k, in, nOut)
		}
		if honest == nil {
			return nil
		}
		l := eng.Substitute(k, in, honest, from, to, mode)
		if l == nil {
			return honest
		}
		fired["substitute"]++
		return l
	}
}
