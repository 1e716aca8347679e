package circ

import (
	"testing"
	"time"
)

func TestDeep(t *testing.T) {
	for cls := Deep; cls <= Abyss; cls++ {
		for i := int64(0); i < 6; i++ {
			t0 := time.Now()
			h := Honest(i, cls, 0)
			t.Log(Describe(h.In.C), time.Since(t0))
		}
	}
}
