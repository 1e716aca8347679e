package checks

import (
	"crypto/sha256"
	"fmt"
	"math/big"
	"reflect"

	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark/backend/witness"
	"github.com/consensys/gnark/constraint"
	"github.com/consensys/gnark/constraint/solver"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/frontend/cs/r1cs"
	"github.com/consensys/gnark/frontend/cs/scs"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
	"github.com/succinctlabs/gnark-plonky2-verifier/types"
	"github.com/succinctlabs/gnark-plonky2-verifier/variables"
	"github.com/succinctlabs/gnark-plonky2-verifier/verifier"

	"verif/sim/br"
	"verif/sim/circ"
	"verif/sim/lab"
	"verif/sim/ref"
)

type gnarkCircuit struct {
	PIs    []gl.Variable
	Proof  variables.Proof
	VD     variables.VerifierOnlyCircuitData
	common types.CommonCircuitData
}

func (c *gnarkCircuit) Define(api frontend.API) error {
	verifier.NewVerifierChip(api, c.common).Verify(c.Proof, c.PIs, c.VD)
	return nil
}

func elem(x fr.Element) frontend.Variable { return x }

func mkGnark(c *ref.Common, m *ref.Msg) *gnarkCircuit {
	return &gnarkCircuit{br.Fs(elem, m.PIs), br.Proof(elem, &m.Proof), br.VData(elem, &m.VD), br.Common(c)}
}

// compileGnark compiles the verifier with one of gnark's own builders.
func compileGnark(useScs bool, circuit frontend.Circuit) (ccs constraint.ConstraintSystem, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	var builder frontend.NewBuilder = r1cs.NewBuilder
	if useScs {
		builder = scs.NewBuilder
	}
	// the code under test remembers every builder it ever saw: empty this one when done with it
	var b frontend.Builder
	keep := func(f *big.Int, c frontend.CompileConfig) (frontend.Builder, error) {
		var err error
		b, err = builder(f, c)
		return b, err
	}
	defer func() {
		if v := reflect.ValueOf(b); v.Kind() == reflect.Pointer && !v.IsNil() {
			v.Elem().SetZero()
		}
	}()
	return frontend.Compile(ecc.BN254.ScalarField(), keep, circuit)
}

// gnarkWorld compiles the verifier with gnark's real builders and solves it with gnark's real solver.
func gnarkWorld(p *lab.Plan) *lab.Result {
	run := circ.Honest(int64(p.P["circuit"]), p.P["class"], 0)
	ccs, err := compileGnark(p.P["scs"] == 1, mkGnark(run.In.C, run.Msg))
	if err != nil {
		return &lab.Result{Note: "refused: " + err.Error()}
	}
	w, err := frontend.NewWitness(mkGnark(run.In.C, run.Msg), ecc.BN254.ScalarField())
	if err != nil {
		return &lab.Result{Err: err.Error()}
	}
	if err := solveGnark(ccs, w); err != nil {
		return &lab.Result{Viol: fmt.Sprintf("honest proof does not satisfy the circuit compiled by gnark (scs=%d, %s): %v", p.P["scs"], circ.Describe(run.In.C), err)}
	}
	return &lab.Result{Note: "solved", Sig: lab.Hash(p.P["scs"], circ.Params(run.In.C)), Steps: int64(ccs.GetNbConstraints()), Digest: uint64(ccs.GetNbConstraints())}
}

// solveGnark solves with a stand-in for the prover's commitment.
func solveGnark(ccs constraint.ConstraintSystem, w witness.Witness) error {
	var opts []solver.Option
	hash := func(_ *big.Int, in, out []*big.Int) error {
		h := sha256.New()
		for _, x := range in {
			h.Write(x.Bytes())
			h.Write([]byte{'|'})
		}
		out[0].SetBytes(h.Sum(nil))
		out[0].Mod(out[0], ecc.BN254.ScalarField())
		return nil
	}
	switch ci := ccs.GetCommitments().(type) {
	case constraint.Groth16Commitments:
		for i := range ci {
			opts = append(opts, solver.OverrideHint(ci[i].HintID, hash))
		}
	case constraint.PlonkCommitments:
		for i := range ci {
			opts = append(opts, solver.OverrideHint(ci[i].HintID, hash))
		}
	}
	return ccs.IsSolved(w, opts...)
}
