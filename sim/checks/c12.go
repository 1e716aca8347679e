//go:build simos

package checks

import (
	"bytes"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"syscall"

	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark/backend/groth16"
	"github.com/consensys/gnark/backend/plonk"
	"github.com/consensys/gnark/backend/witness"

	"github.com/succinctlabs/gnark-plonky2-verifier/variables"
	"github.com/succinctlabs/gnark-plonky2-verifier/verifier"

	"verif/sim/br"
	"verif/sim/circ"
	"verif/sim/lab"
	"verif/sim/simdisk"
	simfrontend "verif/sim/simfrontend"
)

var benchMain func()

const benchCircuit = "demo"

// c12Inputs are the files the tool reads.
func c12Inputs(dir string, circuit int) {
	run := circ.Honest(int64(circuit), circ.Tiny, 0)
	a, b, c := br.JSON(run.In.C, run.Msg)
	in := filepath.Join(dir, "testdata", benchCircuit)
	os.MkdirAll(in, 0o755)
	for i, x := range [][]byte{a, b, c} {
		os.WriteFile(filepath.Join(in, artifactNames[i]), x, 0o644)
	}
}

// silence sends what the process prints with println to nowhere.
func silence() func() {
	old, err := syscall.Dup(2)
	if err != nil {
		return func() {}
	}
	// the last output is kept for check.sh to show should the simulator itself crash
	null, err := syscall.Open(os.Getenv("VERIF_STDERR"), syscall.O_WRONLY|syscall.O_CREAT|syscall.O_TRUNC, 0o600)
	if err != nil {
		null, err = syscall.Open(os.DevNull, syscall.O_WRONLY, 0)
	}
	if err != nil {
		return func() {}
	}
	syscall.Dup3(null, 2, 0)
	syscall.Close(null)
	return func() { syscall.Dup3(old, 2, 0); syscall.Close(old) }
}

// complete parses an artifact back; the result tells what is wrong with it.
func c12Complete(name string, files map[string][]byte, sys string, full witness.Witness) string {
	pub, _ := full.Public()
	b, ok := files[name]
	if !ok {
		return "does not exist"
	}
	whole := func(n int64, err error) string {
		if err != nil {
			return "cannot be read back: " + err.Error()
		}
		if n != int64(len(b)) {
			return fmt.Sprintf("has %d bytes of which %d are the artifact", len(b), n)
		}
		return ""
	}
	rd := bytes.NewReader(b)
	sol := func(export func(*bytes.Buffer) error) string {
		var want bytes.Buffer
		if err := export(&want); err != nil {
			return ""
		}
		if !bytes.Equal(want.Bytes(), b) {
			return fmt.Sprintf("is not the Solidity verifier of the saved verifying key (%d bytes instead of %d)", len(b), want.Len())
		}
		return ""
	}
	switch name {
	case "witness":
		w, err := witness.New(ecc.BN254.ScalarField())
		if err != nil {
			return ""
		}
		if s := whole(w.ReadFrom(rd)); s != "" {
			return s
		}
		x, _ := w.MarshalBinary()
		y, _ := full.MarshalBinary()
		if !bytes.Equal(x, y) {
			return "is not the witness proven"
		}
		return ""
	}
	if sys == "groth16" {
		vk := groth16.NewVerifyingKey(ecc.BN254)
		switch name {
		case "proving.key":
			return whole(groth16.NewProvingKey(ecc.BN254).ReadFrom(rd))
		case "verifying.key":
			return whole(vk.ReadFrom(rd))
		}
		_, vkOK := files["verifying.key"]
		vk.ReadFrom(bytes.NewReader(files["verifying.key"]))
		if name == "proof.sol" {
			return sol(func(w *bytes.Buffer) error { return vk.ExportSolidity(w) })
		}
		p := groth16.NewProof(ecc.BN254)
		if s := whole(p.ReadFrom(rd)); s != "" || !vkOK {
			return s
		}
		if err := groth16.Verify(p, vk, pub); err != nil {
			return "does not verify under the saved key"
		}
		return ""
	}
	vk := plonk.NewVerifyingKey(ecc.BN254)
	switch name {
	case "proving.key":
		return whole(plonk.NewProvingKey(ecc.BN254).ReadFrom(rd))
	case "verifying.key":
		return whole(vk.ReadFrom(rd))
	}
	vk.ReadFrom(bytes.NewReader(files["verifying.key"]))
	if name == "proof.sol" {
		return sol(func(w *bytes.Buffer) error { return vk.ExportSolidity(w) })
	}
	p := plonk.NewProof(ecc.BN254)
	if s := whole(p.ReadFrom(rd)); s != "" {
		return s
	}
	if err := plonk.Verify(p, vk, pub); err != nil {
		return "does not verify under the saved key"
	}
	return ""
}

// c12Subject: what was compiled and assigned is the verifier for the named circuit and its recorded proof.
func c12Subject(in string) string {
	var b [3][]byte
	for i := range b {
		b[i], _ = os.ReadFile(filepath.Join(in, artifactNames[i]))
	}
	for i, x := range []any{simfrontend.Compiled, simfrontend.Assigned} {
		v, ok := x.(*verifier.ExampleVerifierCircuit)
		if !ok {
			continue
		}
		what := []string{"compiled", "assigned"}[i]
		if i == 0 {
			if s := diff(gotCommon(v.CommonCircuitData).s, wantCommon(b[0]).s); s != "" {
				return "the circuit compiled has other common data than the named one: " + s
			}
		}
		if s := diff(gotVonly(v.VerifierOnlyCircuitData).s, wantVonly(b[1]).s); s != "" {
			return "the verifier data " + what + " is not the recorded one: " + s
		}
		if s := diff(gotProof(variables.ProofWithPublicInputs{Proof: v.Proof, PublicInputs: v.PublicInputs}).s, wantProof(b[2]).s); s != "" {
			return "the proof " + what + " is not the recorded one: " + s
		}
	}
	return ""
}

// c12Save runs the tool with -save on a faulty disk.
func c12Save(p *lab.Plan) *lab.Result {
	dir := scratch()
	defer os.RemoveAll(dir)
	res := &lab.Result{Fired: map[string]int{}}
	c12Inputs(dir, p.P["circuit"])
	sys := []string{"plonk", "groth16"}[p.P["system"]]
	dummy := p.P["dummy"] == 1
	c := &ceremony{files: map[string][]byte{}}
	if sys == "plonk" && !dummy {
		c = newCeremony(cerKey{seed: 7, parts: 176, n: 64, tr: 1})
		if p.P["srs"] == 1 { // already there
			var b bytes.Buffer
			c.srsOf(c.files, 174).WriteTo(&b)
			os.WriteFile(filepath.Join(dir, srsName), b.Bytes(), 0o644)
		}
	}
	expected := []string{"proving.key", "verifying.key", "proof.sol", "witness", "proof.proof"}
	if sys == "groth16" && dummy { // no verifying key exists
		expected = []string{"proving.key", "witness", "proof.proof"}
	}
	if p.P["leftovers"] == 1 { // artifacts of an earlier run
		for _, n := range expected {
			os.WriteFile(filepath.Join(dir, n), bytes.Repeat([]byte("older artifact "), 4000), 0o644)
		}
	}
	mode := fmt.Sprintf("%s, dummy=%v", sys, dummy)
	restore := silence()
	defer restore()
	simfrontend.Fault = ""
	full, err := simfrontend.NewWitness(nil, ecc.BN254.ScalarField())
	if err != nil {
		return &lab.Result{Err: err.Error()}
	}
	var fs []lab.Fault
	broken := ""
	for _, f := range p.Faults {
		if f.K == "unprovable" || f.K == "compile" || f.K == "witness" {
			broken = f.K
			continue
		}
		fs = append(fs, f)
	}
	simfrontend.Compiled, simfrontend.Assigned = nil, nil
	simfrontend.Fault, simfrontend.Struck = broken, false
	defer func() { simfrontend.Fault = "" }()
	w := &network{c: c, last: map[string][]byte{}, Fired: map[string]int{}}
	d := simdisk.New(dir, fs, lab.Rng(p.Seed, "disk"))
	args := []string{"benchmark", "-plonky2-circuit", benchCircuit, "-proof-system", sys, fmt.Sprint("-profile=", p.P["profile"] == 1), fmt.Sprint("-dummy=", dummy), "-save"}
	oldArgs, oldFlags := os.Args, flag.CommandLine
	defer func() { os.Args, flag.CommandLine = oldArgs, oldFlags }()
	os.Args = args
	flag.CommandLine = flag.NewFlagSet("benchmark", flag.PanicOnError)
	end, err := process(d, w, p.Seed, "coins", benchMain)
	if err != nil {
		return &lab.Result{Err: err.Error()}
	}
	for k, v := range d.Fired {
		res.Fired[k] += v
	}
	if simfrontend.Struck {
		res.Fired[broken]++
	}
	res.Steps = int64(d.Ops())
	files := simdisk.Files(dir)
	if end.Code == 0 && simfrontend.Struck {
		res.Viol = fmt.Sprintf("the tool exits successfully although there is no proof to save (%s, %s)", broken, mode)
		return res
	}
	if end.Code == 0 {
		if res.Viol = c12Subject(filepath.Join(dir, "testdata", benchCircuit)); res.Viol != "" {
			return res
		}
		for _, n := range expected {
			s := ""
			switch {
			case d.Bad[n] != "":
				s = "had a failing " + d.Bad[n]
			case !d.Closed[n]:
				s = "was not closed without error in this run"
			default:
				s = c12Complete(n, files, sys, full)
			}
			if s != "" {
				res.Viol = fmt.Sprintf("the tool exits successfully although %s %s (%s)", n, s, mode)
				return res
			}
		}
		res.Note = mode + ": all saved"
	} else {
		if len(res.Fired) == 0 {
			res.Viol = "an undisturbed run with -save fails: " + clip(strings.ReplaceAll(end.Why, dir, ".")) + " (" + mode + ")"
			return res
		}
		res.Note = mode + ": failed"
	}
	res.Sig = lab.Hash(p.P, p.Faults, d.Fired)
	res.Digest = digest(end.Code == 0, end.Crashed)
	return res
}

func C12() *lab.Check {
	gen := func(r *rand.Rand) *lab.Plan {
		return &lab.Plan{P: map[string]int{"circuit": 1 + r.Intn(3), "system": r.Intn(2), "dummy": r.Intn(2), "srs": r.Intn(2), "leftovers": r.Intn(2)}}
	}
	arts := []string{"proving.key", "verifying.key", "proof.sol", "witness", "proof.proof"}
	return &lab.Check{
		Prop: "C12", Level: "exploration",
		Rule:        "a run is one execution of the command-line tool with -save (proof system, dummy or real setup, leftovers of an earlier run) under a disk fault trace, or with a circuit that cannot be built, assigned or proved; distinct by these and the faults that struck",
		Measure:     "distinct (mode, fault trace, faults that struck)",
		Real:        []string{"the tool's main package", "trusted_setup", "gnark groth16 and plonk setup, prover, verifier and serialisation", "Go os (with the fault seam)"},
		Stub:        []string{"the circuit compiled and assigned is a small one in place of the verifier", "disk and process exit: simdisk", "HTTP transport and server", "crypto/rand: seeded"},
		Assumptions: []string{"the artifacts are those the README and the flags document: proving.key, verifying.key and proof.sol when there is a verifying key, witness, proof.proof"},
		Worlds: []lab.World{
			{Name: "artifact-faults", Quick: 500, Thorough: 30000, Serial: true, Exec: c12Save, Gen: func(r *rand.Rand, i int) *lab.Plan {
				p := gen(r)
				for n := 1 + r.Intn(2); n > 0; n-- {
					k := []string{"open-error", "write-error", "write-error", "disk-full", "close-error", "close-error", "sync-error", "rename-error"}[r.Intn(8)]
					nth := 0
					if k == "write-error" || k == "disk-full" {
						nth = r.Intn([]int{1, 4, 40, 200}[r.Intn(4)])
					}
					p.Faults = append(p.Faults, lab.Fault{K: k, A: []int{nth, []int{0, 0, 1, 31, 4096}[r.Intn(5)], r.Intn(5)}, S: arts[r.Intn(5)]})
				}
				return p
			}},
			{Name: "any-fault", Quick: 250, Thorough: 15000, Serial: true, Exec: c12Save, Gen: func(r *rand.Rand, i int) *lab.Plan {
				p := gen(r)
				for n := 1 + r.Intn(2); n > 0; n-- {
					k := []string{"open-error", "write-error", "disk-full", "close-error", "stat-error", "read-error", "short-read", "crash", "mkdir-error"}[r.Intn(9)]
					p.Faults = append(p.Faults, lab.Fault{K: k, A: []int{r.Intn([]int{4, 16, 200}[r.Intn(3)]), []int{0, 1, 31, 4096}[r.Intn(4)], r.Intn(5)}})
				}
				return p
			}},
			{Name: "no-proof", Quick: 24, Thorough: 600, Serial: true, Exec: c12Save, Gen: func(r *rand.Rand, i int) *lab.Plan {
				p := gen(r)
				p.P["system"], p.P["dummy"] = i&1, i>>1&1
				p.Faults = []lab.Fault{{K: []string{"unprovable", "unprovable", "compile", "witness"}[r.Intn(4)]}}
				return p
			}},
			{Name: "undisturbed", Quick: 24, Thorough: 400, Serial: true, Exec: c12Save, Gen: func(r *rand.Rand, i int) *lab.Plan {
				p := gen(r)
				p.P["system"], p.P["dummy"], p.P["profile"] = i&1, i>>1&1, i>>2&1
				return p
			}},
		},
	}
}
