// Package checks holds the simulated worlds, one file per property.
package checks

import (
	"fmt"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"

	"verif/sim/br"
	"verif/sim/circ"
	"verif/sim/eng"
	"verif/sim/lab"
	"verif/sim/ref"
)

var realParts = []string{"verifier", "plonk", "plonk/gates", "fri", "challenger", "poseidon", "goldilocks", "variables", "types (from the working tree)", "gnark std bits and rangecheck gadgets"}
var stubParts = []string{"constraint builder and solver: eng.Engine (evaluates every constraint as it is emitted)", "hint service: eng hint seam", "plonky2 prover and message channel: ref package"}

type stat struct {
	Ops, Calls int
	Digest     uint64
}

// verify runs the circuit on a message and releases the engine.
func verify(backend int, c *ref.Common, m *ref.Msg, setup func(*eng.Engine)) (eng.Outcome, stat) {
	var e *eng.Engine
	o := br.Verify(backend, c, m, func(x *eng.Engine) {
		e = x
		if setup != nil {
			setup(x)
		}
	})
	s := stat{e.Ops, e.Calls, e.Digest}
	e.Free()
	return o, s
}

func say(o eng.Outcome) string {
	if o.Accept {
		return "accepted"
	}
	k := "rejected"
	if o.Refused {
		k = "refused"
	}
	w := o.Why
	if len(w) > 120 {
		w = w[:120]
	}
	return k + ": " + w
}

func verdict(o eng.Outcome) string {
	switch {
	case o.Accept:
		return "accepted"
	case o.Refused:
		return "refused"
	}
	return "rejected"
}

func digest(parts ...any) uint64 {
	var x uint64
	fmt.Sscanf(lab.Hash(parts...), "%x", &x)
	return x
}

func honest(p *lab.Plan) *ref.Run {
	return circ.Honest(int64(p.P["circuit"]), p.P["class"], int64(p.P["session"]))
}

func bump(m map[string]int, k string) map[string]int {
	if m == nil {
		m = map[string]int{}
	}
	m[k]++
	return m
}

var fieldOrder = fr.Modulus()
