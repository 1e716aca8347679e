package ref

import (
	"math/rand"
	"testing"
	"time"
)

func TestRT(t *testing.T) {
	r := rand.New(rand.NewSource(3))
	all := []Gate{Noop{}, PublicInput{}, Constant{2}, Arithmetic{6}, ArithmeticExt{3}, MulExt{4}, BaseSum{12, 2}, BaseSum{5, 4}, CosetInterp{4, 6}, Exponentiation{9}, RandomAccess{2, 3, 2}, Reducing{7}, ReducingExt{6}, PoseidonG{}, PoseidonMds{}}
	for _, d := range []int{4, 5, 6, 9} {
		gs := all
		if d == 4 {
			gs = all[:11]
		}
		t0 := time.Now()
		in := NewInstance(r, CircuitOpts{D: d, Steps: (d - 1) / 4, RateBits: 3, PowBits: 5, Queries: 3, NumChal: 2, QDF: 8, NumPI: 5, Gates: gs})
		t1 := time.Now()
		run := in.Prove(r, nil)
		t2 := time.Now()
		err := in.C.Verify(run.Msg)
		t.Log(d, in.C.Steps, in.C.Groups, in.C.NumWires, in.C.Routed, err, t1.Sub(t0), t2.Sub(t1), time.Since(t2))
		if err != nil {
			t.Fail()
		}
		run.Msg.PIs[0] ^= 1
		if in.C.Verify(run.Msg) == nil {
			t.Fail()
		}
	}
}
