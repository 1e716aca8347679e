package br

import (
	"math/rand"
	"testing"
	"time"

	"verif/sim/eng"
	"verif/sim/ref"
)

func TestRecorded(t *testing.T) {
	if testing.Short() {
		t.Skip()
	}
	for _, n := range []string{"decode_block", "step"} {
		c, m, err := Load("/repo/testdata/" + n)
		if err != nil {
			t.Fatal(err)
		}
		t0 := time.Now()
		if err := c.Verify(m); err != nil {
			t.Error(n, err)
		}
		t1 := time.Now()
		for _, be := range []int{eng.Native, eng.Plain, eng.Commit} {
			t1 = time.Now()
			var e *eng.Engine
			o := Verify(be, c, m, func(x *eng.Engine) { e = x })
			t.Log(n, be, t1.Sub(t0), time.Since(t1), o, e.Ops, e.Calls)
		}
	}
}
func TestGen(t *testing.T) {
	r := rand.New(rand.NewSource(3))
	gs := []ref.Gate{ref.Noop{}, ref.PoseidonMds{}, ref.PublicInput{}, ref.BaseSum{20, 2}, ref.ReducingExt{7}, ref.Reducing{9}, ref.ArithmeticExt{4}, ref.Arithmetic{5}, ref.MulExt{3}, ref.Exponentiation{10}, ref.RandomAccess{3, 2, 2}, ref.CosetInterp{4, 6}, ref.PoseidonG{}, ref.Constant{2}}
	for d := 5; d < 8; d++ {
		in := ref.NewInstance(r, ref.CircuitOpts{D: d, RateBits: 3, PowBits: 4, Queries: 2, NumChal: 2, QDF: 8, NumPI: 3, Steps: 1, Gates: gs})
		run := in.Prove(r, nil)
		for _, be := range []int{eng.Native, eng.Plain} {
			t1 := time.Now()
			var e *eng.Engine
			o := Verify(be, in.C, run.Msg, func(x *eng.Engine) { e = x })
			t.Log(d, be, time.Since(t1), o, e.Ops, e.Calls, in.C.Verify(run.Msg))
		}
	}
}
