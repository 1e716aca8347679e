// Package frontend stands in for gnark's frontend in the copy of the command-line tool: it compiles
// and assigns a small circuit instead of the verifier, so that many runs are affordable.
package frontend

import (
	"errors"
	"math/big"

	"github.com/consensys/gnark/backend/witness"
	"github.com/consensys/gnark/constraint"
	gnark "github.com/consensys/gnark/frontend"
)

type (
	API               = gnark.API
	BatchInverter     = gnark.BatchInverter
	Builder           = gnark.Builder
	CanonicalVariable = gnark.CanonicalVariable
	Circuit           = gnark.Circuit
	Committer         = gnark.Committer
	CompileConfig     = gnark.CompileConfig
	CompileOption     = gnark.CompileOption
	Compiler          = gnark.Compiler
	NewBuilder        = gnark.NewBuilder
	Rangechecker      = gnark.Rangechecker
	Variable          = gnark.Variable
	WitnessOption     = gnark.WitnessOption
)

var (
	IsCanonical               = gnark.IsCanonical
	NewSchema                 = gnark.NewSchema
	IgnoreUnconstrainedInputs = gnark.IgnoreUnconstrainedInputs
	WithCapacity              = gnark.WithCapacity
	WithCompressThreshold     = gnark.WithCompressThreshold
	PublicOnly                = gnark.PublicOnly
)

// Small is the circuit compiled in place of the verifier.
type Small struct {
	X gnark.Variable `gnark:",public"`
	Y gnark.Variable
}

func (c *Small) Define(api gnark.API) error {
	y := api.Mul(c.Y, c.Y)
	for i := 0; i < 3; i++ {
		y = api.Add(api.Mul(y, y), c.Y)
	}
	api.AssertIsEqual(c.X, y)
	return nil
}

// Assignment satisfies Small.
func Assignment() gnark.Circuit {
	y := big.NewInt(3)
	t := new(big.Int).Mul(y, y)
	for i := 0; i < 3; i++ {
		t.Add(t.Mul(t, t), y)
	}
	return &Small{X: t, Y: y}
}

// Fault makes the next runs fail: "unprovable" assigns values that violate the circuit, "compile" and
// "witness" make the named call fail.
var Fault string

// Struck tells that the fault had its effect.
var Struck bool

// Compiled and Assigned record what the tool wanted to compile and assign.
var Compiled, Assigned gnark.Circuit

func Compile(field *big.Int, b NewBuilder, circuit Circuit, opts ...CompileOption) (constraint.ConstraintSystem, error) {
	Compiled = circuit
	if Fault == "compile" {
		Struck = true
		return nil, errors.New("injected: the circuit cannot be built")
	}
	return gnark.Compile(field, b, &Small{}, opts...)
}

func NewWitness(assignment Circuit, field *big.Int, opts ...WitnessOption) (witness.Witness, error) {
	Assigned = assignment
	a := Assignment().(*Small)
	switch Fault {
	case "witness":
		Struck = true
		return nil, errors.New("injected: no witness")
	case "unprovable":
		Struck = true
		a.Y = 4
	}
	return gnark.NewWitness(a, field, opts...)
}
