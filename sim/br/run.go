package br

import (
	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark/frontend"
	"github.com/succinctlabs/gnark-plonky2-verifier/verifier"

	"verif/sim/eng"
	"verif/sim/ref"
)

func Mk(e *eng.Engine) MkVar { return func(x fr.Element) frontend.Variable { return e.Var(x) } }

// Verify runs the whole verifier circuit on the delivered message.
func Verify(backend int, c *ref.Common, m *ref.Msg, setup func(*eng.Engine)) eng.Outcome {
	_, e := eng.New(backend)
	if setup != nil {
		setup(e)
	}
	o := e.Run(func(api frontend.API) {
		mk := Mk(e)
		p, pi, vd := Proof(mk, &m.Proof), Fs(mk, m.PIs), VData(mk, &m.VD)
		verifier.NewVerifierChip(api, Common(c)).Verify(p, pi, vd)
	})
	return o
}
