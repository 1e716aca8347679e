package checks

import (
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"sync"

	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/std/rangecheck"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"

	"verif/sim/circ"
	"verif/sim/eng"
	"verif/sim/lab"
	"verif/sim/ref"
)

const overrideVar = "USE_BIT_DECOMPOSITION_RANGE_CHECK"

var overrides = []string{"", "true", "false", "1", "TRUE", "true "}
var envMu sync.Mutex

// withOverride runs f with the override set; the environment is process wide.
func withOverride(v string, f func()) {
	envMu.Lock()
	defer envMu.Unlock()
	old, had := os.LookupEnv(overrideVar)
	os.Setenv(overrideVar, v)
	defer func() {
		if had {
			os.Setenv(overrideVar, old)
		} else {
			os.Unsetenv(overrideVar)
		}
	}()
	f()
}

// near draws a value around the boundary of w bits.
func near(r *rand.Rand, w int) *big.Int {
	one := big.NewInt(1)
	x := new(big.Int).Lsh(one, uint(w))
	switch r.Intn(9) {
	case 0:
		x.Sub(x, one)
	case 1:
	case 2:
		x.Add(x, one)
	case 3:
		x.Rand(r, new(big.Int).Add(x, one))
	case 4:
		x.Lsh(one, uint(r.Intn(254)))
	case 5:
		x.Sub(fieldOrder, big.NewInt(int64(1+r.Intn(3))))
	case 6:
		x.Rand(r, fieldOrder)
	case 7: // excess in the lowest bit of the next word
		x.Lsh(one, uint((w/16+1)*16)).Add(x, big.NewInt(int64(r.Intn(4))))
	case 8:
		x.SetInt64(int64(r.Intn(3)))
	}
	return x.Mod(x, fieldOrder)
}

func boundaryF(r *rand.Rand) *big.Int {
	x := new(big.Int).SetUint64(ref.P)
	switch r.Intn(6) {
	case 0:
		x.SetUint64(edgeF(r))
	case 1:
		x.Add(x, big.NewInt(int64(r.Intn(4)-2)))
	case 2:
		x.SetUint64(^uint64(0) - uint64(r.Intn(3)))
	case 3:
		x.Lsh(big.NewInt(1), 64).Add(x, big.NewInt(int64(r.Intn(4))))
	case 4:
		return near(r, 64)
	case 5:
		x.Add(x, big.NewInt(int64(r.Intn(1<<31))))
	}
	return x
}

func toH(x *big.Int) (h ref.H) { h.SetBigInt(x); return }

// valuesExec: one or two checks on one builder.
func c08Values(p *lab.Plan) (res *lab.Result) {
	withOverride(overrides[p.P["override"]], func() { res = c08ValuesIn(p) })
	return
}
func c08ValuesIn(p *lab.Plan) *lab.Result {
	r := lab.Rng(p.Seed, "values")
	res := &lab.Result{Fired: map[string]int{}}
	_, e := eng.New(p.P["backend"])
	fired := map[string]int{}
	e.Hint = liarWith(p.Faults, fired, p.P["split"])
	for _, f := range p.Faults {
		if f.K == "checker-failure" {
			at := f.A[0]
			e.RangeFail = func(n int) bool {
				if n == at {
					fired["checker-failure"]++
				}
				return n == at
			}
		}
	}
	ok := true
	var desc []string
	o := e.Run(func(api frontend.API) {
		if p.P["other"] == 1 { // another gadget of the same circuit uses gnark's range checker first
			rangecheck.New(api).Check(e.U64(5), 16)
		}
		type checked struct {
			v gl.Variable
			x *big.Int
		}
		var earlier []checked
		for k := 0; k < p.P["n"]; k++ {
			c := gl.New(api)
			var again *checked // a variable that was checked before, perhaps in another way
			if len(earlier) > 0 && r.Intn(3) == 0 {
				again = &earlier[r.Intn(len(earlier))]
			}
			if r.Intn(3) == 0 {
				x := boundaryF(r)
				if again != nil {
					x = again.x
				}
				if x.Cmp(eng.P) >= 0 {
					ok = false
				}
				desc = append(desc, fmt.Sprintf("RangeCheck(%v)", x))
				v := gl.NewVariable(e.Var(toH(x)))
				if again != nil {
					v = again.v
				}
				earlier = append(earlier, checked{v, x})
				if r.Intn(2) == 0 {
					c.RangeCheck(v)
				} else {
					c.RangeCheckQE(gl.QuadraticExtensionVariable{v, gl.NewVariable(e.U64(1))})
				}
				continue
			}
			w := []int{1, 8, 16, 32, 48, 64, 63, 144, 1 + r.Intn(200), 44}[r.Intn(10)]
			x := near(r, w)
			v := gl.NewVariable(e.Var(toH(x)))
			if again != nil {
				v, x = again.v, again.x
			}
			earlier = append(earlier, checked{v, x})
			if x.BitLen() > w {
				ok = false
			}
			desc = append(desc, fmt.Sprintf("RangeCheckWithMaxBits(%v, %d)", x, w))
			c.RangeCheckWithMaxBits(v, uint64(w))
		}
	})
	res.Steps, res.Digest, res.Note = int64(e.Ops), digest(e.Ops, say(o), desc), verdict(o)
	e.Free()
	if o.Unsup {
		return &lab.Result{Err: o.Why}
	}
	for k, v := range fired {
		res.Fired[k] += v
	}
	if !ok {
		res.Fired["out-of-range value"]++
	}
	res.Sig = lab.Hash(p.P, p.Faults, desc)
	where := fmt.Sprintf("%v on a %s builder, override %q", desc, eng.BackendName[p.P["backend"]], overrides[p.P["override"]])
	if fired["checker-failure"] > 0 && o.Accept {
		res.Viol = "failure of the range checker is swallowed: " + where
	}
	if !ok && o.Accept {
		res.Viol = "out-of-range value accepted: " + where
	}
	return res
}

// batchExec: the committed back end with many collected checks.
func c08Batch(p *lab.Plan) *lab.Result {
	r := lab.Rng(p.Seed, "batch")
	res := &lab.Result{Fired: map[string]int{}}
	_, e := eng.New(eng.Commit)
	n := p.P["n"]
	bad := map[int]bool{}
	for _, f := range p.Faults {
		switch f.K {
		case "out-of-range":
			i := f.A[0] % n
			switch f.A[2] % 4 { // first, last, anywhere
			case 0:
				i = 0
			case 1:
				i = n - 1
			}
			bad[i] = true
		}
	}
	fired := map[string]int{}
	e.Hint = liarWith(p.Faults, fired, p.P["split"])
	widths := []int{32, 32, 32, 64, 144}
	if p.P["widths"] == 1 {
		widths = []int{32, 64, 48, 144}
	}
	if p.P["widths"] == 2 {
		widths = []int{32, 32, 44}
	}
	odd := []int{1, 2, 8, 12, 15, 17, 24, 31, 33, 40, 47, 63, 65, 100, 1 + r.Intn(200), 16 * (1 + r.Intn(12))}
	what := ""
	o := e.Run(func(api frontend.API) {
		for i := 0; i < n; i++ {
			if i == 0 && p.P["other"] == 1 || i == n/2 && p.P["other"] == 2 {
				rangecheck.New(api).Check(e.U64(5), 16) // another gadget of the same circuit
			}
			c := gl.New(api)
			w := widths[r.Intn(len(widths))]
			if i == n-1 && p.P["widths"] == 2 {
				w = 44
			}
			if p.P["widths"] == 3 && (bad[i] || i == n/3) { // a width of its own, often not a multiple of the base width
				w = odd[r.Intn(len(odd))]
			}
			x := new(big.Int).Rand(r, new(big.Int).Lsh(big.NewInt(1), uint(w)))
			if bad[i] {
				switch r.Intn(4) {
				case 0:
					x.Lsh(big.NewInt(1), uint(w)).Add(x, big.NewInt(int64(r.Intn(3))))
				case 1:
					x.Lsh(big.NewInt(1), uint(w+r.Intn(253-w)))
				case 3: // one bit too many
					x.Rand(r, x.Lsh(big.NewInt(1), uint(w))).SetBit(x, w, 1)
				case 2:
					x.Sub(fieldOrder, big.NewInt(int64(1+r.Intn(3))))
				}
				what += fmt.Sprintf(" check %d of %d: %v in %d bits", i, n, x, w)
				res.Fired["out-of-range"]++
			}
			v := gl.NewVariable(e.Var(toH(x)))
			wide := (x.BitLen() + 15) / 16 * 16 // some width that is right for the value
			more := p.P["repeat"] == 1 && wide > 0 && wide < 250 && (bad[i] || r.Intn(50) == 0)
			first := r.Intn(3) > 0
			if more && first { // one variable is checked more than once
				c.RangeCheckWithMaxBits(v, uint64(wide))
				if bad[i] {
					what += fmt.Sprintf(" (after a check in %d bits)", wide)
				}
			}
			c.RangeCheckWithMaxBits(v, uint64(w))
			if more && !first {
				c.RangeCheckWithMaxBits(v, uint64(wide))
			}
		}
	})
	res.Steps, res.Digest, res.Note = int64(e.Ops), digest(e.Ops, say(o)), verdict(o)
	e.Free()
	if o.Unsup {
		return &lab.Result{Err: o.Why}
	}
	for k, v := range fired {
		res.Fired[k] += v
	}
	res.Sig = lab.Hash(p.P, p.Faults)
	if len(bad) > 0 && o.Accept {
		res.Viol = "out-of-range value accepted by the committed range checker:" + what
	}
	return res
}

// wrap answers one quotient/remainder hint with the quotient one less and the remainder one modulus
// more: the defining equation still holds, so only the range checks of the answer can object.
func wrap(at int, fired map[string]int) eng.HintFn {
	n := 0
	return func(call int, k eng.Kind, in, honest []*big.Int, nOut int) []*big.Int {
		if honest == nil {
			honest = eng.Fallback(k, in, nOut)
		}
		if honest == nil || (k.Name != "muladd" && k.Name != "reduce") {
			return honest
		}
		q, m := k.Perm[0], k.Perm[1]
		if honest[q].Sign() == 0 {
			return honest
		}
		n++
		if n-1 != at {
			return honest
		}
		fired["wrapped remainder"]++
		l := make([]*big.Int, nOut)
		l[q] = new(big.Int).Sub(honest[q], big.NewInt(1))
		l[m] = new(big.Int).Add(honest[m], eng.P)
		return l
	}
}

func c08Sessions(p *lab.Plan) *lab.Result {
	run := honest(p)
	c := run.In.C
	res := &lab.Result{Fired: map[string]int{}}
	fired := map[string]int{}
	o, st := verify(p.P["backend"], c, run.Msg, func(e *eng.Engine) {
		for _, f := range p.Faults {
			switch f.K {
			case "wrap":
				e.Hint = wrap(f.A[0], fired)
			case "checker-failure":
				e.RangeFail = func(n int) bool {
					if n == f.A[0] {
						fired["checker-failure"]++
					}
					return n == f.A[0]
				}
			}
		}
	})
	res.Steps, res.Digest, res.Note = int64(st.Ops), digest(st, say(o)), verdict(o)
	if o.Unsup {
		return &lab.Result{Err: o.Why}
	}
	for k, v := range fired {
		res.Fired[k] += v
	}
	res.Sig = lab.Hash(p.P, p.Faults)
	if len(fired) > 0 && o.Accept {
		res.Viol = fmt.Sprintf("%v goes unnoticed on a %s builder (%s)", p.Faults, eng.BackendName[p.P["backend"]], circ.Describe(c))
	}
	return res
}

// rangeCircuit is compiled by gnark's own builders.
type rangeCircuit struct {
	X     []frontend.Variable
	width []int
	form  int
}

func (c *rangeCircuit) Define(api frontend.API) error {
	for i, w := range c.width {
		ch := gl.New(api)
		v := gl.NewVariable(c.X[i])
		if w == 0 {
			ch.RangeCheck(v)
		} else {
			if i == c.form {
				ch.RangeCheckWithMaxBits(v, 240)
			}
			ch.RangeCheckWithMaxBits(v, uint64(w))
		}
	}
	return nil
}

func c08Gnark(p *lab.Plan) (res *lab.Result) {
	withOverride([]string{"", "true"}[p.P["override"]], func() { res = c08GnarkIn(p) })
	return
}
func c08GnarkIn(p *lab.Plan) *lab.Result {
	r := lab.Rng(p.Seed, "gnark")
	n := 1 + r.Intn(4)
	if p.P["override"] == 0 {
		n = 66000 + r.Intn(3000)
	}
	c := &rangeCircuit{X: make([]frontend.Variable, n), width: make([]int, n), form: -1}
	w := &rangeCircuit{X: make([]frontend.Variable, n), width: c.width}
	at := -1
	kind := 0
	for _, f := range p.Faults {
		at, kind = f.A[0]%n, f.A[1]
	}
	desc := "all in range"
	for i := 0; i < n; i++ {
		wd := []int{32, 64, 144, 48, 16}[r.Intn(5)]
		if p.P["override"] == 1 {
			wd = []int{0, 1, 32, 64, 63, 144, 44, 17}[r.Intn(8)]
		}
		if i == at && r.Intn(2) == 0 {
			wd = []int{1, 8, 12, 15, 24, 40, 63, 1 + r.Intn(200)}[r.Intn(8)]
		}
		c.width[i] = wd
		lim := new(big.Int).Set(eng.P)
		if wd > 0 {
			lim.Lsh(big.NewInt(1), uint(wd))
		}
		x := new(big.Int).Rand(r, lim)
		if i == at {
			switch kind % 3 {
			case 0:
				x.Add(lim, big.NewInt(int64(r.Intn(2))))
			case 1:
				x.Sub(fieldOrder, big.NewInt(1))
			case 2:
				x.Lsh(lim, uint(r.Intn(60)))
			}
			desc = fmt.Sprintf("check %d of %d: %v in width %d", i, n, x, wd)
		}
		if i == at && x.BitLen() <= 240 && r.Intn(2) == 0 {
			c.form = at // checked in a width that holds it before
		}
		w.X[i] = x
	}
	res := &lab.Result{Fired: map[string]int{}, Sig: lab.Hash(p.P, p.Seed, p.Faults)}
	ccs, err := compileGnark(p.P["scs"] == 1, c)
	if err != nil {
		res.Note = "refused: " + err.Error()
		res.Sig = ""
		return res
	}
	wit, err := frontend.NewWitness(w, ecc.BN254.ScalarField())
	if err != nil {
		return &lab.Result{Err: err.Error()}
	}
	err = solveGnark(ccs, wit)
	res.Note, res.Steps, res.Digest = fmt.Sprint("solved: ", err == nil), int64(ccs.GetNbConstraints()), uint64(ccs.GetNbConstraints())
	if at >= 0 {
		res.Fired["out-of-range"]++
	}
	if at >= 0 && err == nil {
		res.Viol = fmt.Sprintf("out-of-range value satisfies the circuit compiled by gnark (scs=%d, override=%d): %s", p.P["scs"], p.P["override"], desc)
	}
	return res
}

// C08: range checks under every back end.
func C08() *lab.Check {
	return &lab.Check{
		Prop: "C08", Level: "exploration",
		Rule:    "simulated builders offering every combination of capabilities, every setting of the override, values around every boundary, lying limb splits, injected range-checker failures; large collected batches through gnark's committed checker; whole sessions with one hint answer that only a range check can refuse; gnark's own builders; non-trivial: at least one check was issued",
		Measure: "distinct (capabilities, override, checks, values), (batch, position), (session, call) and (gnark builder, batch)",
		Real:    append([]string{"gnark r1cs and scs builders and solver (gnark world)"}, realParts...), Stub: stubParts,
		Worlds: []lab.World{
			{Name: "values", Quick: 40000, Thorough: 2000000, Serial: true, Exec: c08Values, Gen: func(r *rand.Rand, i int) *lab.Plan {
				p := &lab.Plan{P: map[string]int{"backend": r.Intn(4), "override": r.Intn(len(overrides)), "n": 1 + r.Intn(5), "split": r.Intn(5), "other": 0}}
				if r.Intn(3) == 0 {
					p.P["other"] = 1
				}
				switch r.Intn(4) {
				case 0:
					p.Faults = []lab.Fault{{K: "checker-failure", A: []int{r.Intn(6)}}}
				case 1:
					p.Faults = []lab.Fault{lie(r, r.Intn(4))}
				}
				return p
			}},
			{Name: "gnark", Quick: 24, Thorough: 600, Serial: true, NoRerun: true, Exec: c08Gnark, Gen: func(r *rand.Rand, i int) *lab.Plan {
				p := &lab.Plan{P: map[string]int{"scs": i % 2, "override": 1}}
				if i%6 == 5 {
					p.P["override"] = 0
				}
				if r.Intn(4) > 0 {
					p.Faults = []lab.Fault{{K: "out-of-range", A: randArgs(r, 2)}}
				}
				return p
			}},
			{Name: "batch", Quick: 120, Thorough: 3000, Weight: 6, Exec: c08Batch, Gen: func(r *rand.Rand, i int) *lab.Plan {
				p := &lab.Plan{P: map[string]int{"n": 66000 + r.Intn(4000), "widths": []int{0, 3, 1, 3, 0, 2}[r.Intn(6)], "split": 0, "repeat": r.Intn(2), "other": []int{0, 0, 2, 0, 2, 1}[r.Intn(6)]}}
				if i%5 == 4 {
					p.P["n"] = 1 + r.Intn(60000)
				}
				if r.Intn(5) > 0 {
					p.Faults = []lab.Fault{{K: "out-of-range", A: randArgs(r, 3)}}
					if r.Intn(3) == 0 {
						p.Faults = append(p.Faults, lie(r, r.Intn(70000)))
					}
				}
				return p
			}},
			{Name: "sessions", Quick: 40, Thorough: 3000, Weight: 6, Exec: c08Sessions, Gen: func(r *rand.Rand, i int) *lab.Plan {
				p := &lab.Plan{P: map[string]int{"circuit": r.Intn(400), "class": circ.Tiny, "session": 0, "backend": i % 4}}
				if p.P["backend"] == eng.Commit {
					for circ.Opts(int64(p.P["circuit"]), circ.Tiny).PowBits != 0 {
						p.P["circuit"]++
					}
				}
				if (p.P["backend"] == eng.Native || p.P["backend"] == eng.Both) && r.Intn(3) == 0 {
					p.Faults = []lab.Fault{{K: "checker-failure", A: []int{r.Intn(100000)}}}
				} else {
					p.Faults = []lab.Fault{{K: "wrap", A: []int{r.Intn(60000)}}}
				}
				return p
			}},
		},
	}
}
