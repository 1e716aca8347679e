package checks

import (
	"crypto/sha256"
	"fmt"
	"math/big"
	"math/rand"
	"runtime"

	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/std/rangecheck"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
	"github.com/succinctlabs/gnark-plonky2-verifier/poseidon"

	"verif/sim/br"
	"verif/sim/circ"
	"verif/sim/eng"
	"verif/sim/lab"
	"verif/sim/simsync"
)

// A script is what one task does on its builder.
type scriptOp struct {
	kind, width int
	x           []*big.Int
}

var scriptOps = []string{"RangeCheckWithMaxBits", "RangeCheck", "MulAdd", "Inverse", "BN254.HashNoPad", "Reduce", "Goldilocks.HashNoPad", "foreign range check"}

func genScript(r *rand.Rand, heavy bool) []scriptOp {
	n := 1 + r.Intn(6)
	var s []scriptOp
	for i := 0; i < n; i++ {
		k := []int{0, 0, 0, 1, 1, 2, 3, 5, 7}[r.Intn(9)]
		if heavy && r.Intn(12) == 0 {
			k = []int{4, 6}[r.Intn(2)]
		}
		o := scriptOp{kind: k, width: []int{16, 32, 48, 64, 144}[r.Intn(5)]}
		val := func(good bool) *big.Int {
			if good || r.Intn(2) == 0 {
				return new(big.Int).SetUint64(edgeF(r))
			}
			return boundaryF(r)
		}
		switch k {
		case 0:
			o.x = []*big.Int{near(r, o.width)}
		case 1:
			o.x = []*big.Int{val(false)}
		case 2:
			o.x = []*big.Int{val(true), val(true), val(true)}
		case 3:
			o.x = []*big.Int{val(true)}
		case 4, 6:
			for j := 0; j < 1+r.Intn(3); j++ {
				o.x = append(o.x, val(true))
			}
		case 5:
			o.x = []*big.Int{new(big.Int).Rand(r, new(big.Int).Lsh(big.NewInt(1), 140))}
		case 7:
			o.x = []*big.Int{near(r, 16)}
		}
		s = append(s, o)
	}
	return s
}

type scriptRun struct {
	ops []scriptOp
	in  [][]gl.Variable
}

func bindScript(e *eng.Engine, ops []scriptOp) scriptRun {
	s := scriptRun{ops: ops}
	for _, o := range ops {
		var vs []gl.Variable
		for _, x := range o.x {
			vs = append(vs, gl.NewVariable(e.Var(toH(x))))
		}
		s.in = append(s.in, vs)
	}
	return s
}

func (s scriptRun) run(api frontend.API) {
	for i, o := range s.ops {
		in := s.in[i]
		switch o.kind {
		case 0:
			gl.New(api).RangeCheckWithMaxBits(in[0], uint64(o.width))
		case 1:
			gl.New(api).RangeCheck(in[0])
		case 2:
			gl.New(api).MulAdd(in[0], in[1], in[2])
		case 3:
			gl.New(api).Inverse(in[0])
		case 4:
			poseidon.NewBN254Chip(api).HashNoPad(in)
		case 5:
			gl.New(api).Reduce(in[0])
		case 6:
			poseidon.NewGoldilocksChip(api).HashNoPad(in)
		case 7: // another gadget of the same circuit
			rangecheck.New(api).Check(in[0].Limb, 16)
		}
	}
}

// built is what a builder ended up with.
type built struct {
	Verdict                          string
	Ops, Asserts, Calls, Checks, Bad int
	Commits, Defers                  int
	Bag, Digest                      uint64
}

func (b built) String() string {
	return fmt.Sprintf("%s, %d operations, %d assertions, %d hint calls, %d native checks, %d commitments, %d deferred callbacks, %d violated", b.Verdict, b.Ops, b.Asserts, b.Calls, b.Checks, b.Commits, b.Defers, b.Bad)
}

func outcome(e *eng.Engine, o eng.Outcome, ordered bool) built {
	b := built{say(o), e.Ops, e.Asserts, e.Calls, e.NChecks, len(e.Fails), e.CommitCalls, e.Defers, e.Bag, e.Digest}
	if !ordered {
		if o.Refused { // where the tasks of a refused build stopped depends on their order
			return built{Verdict: "refused", Defers: e.Defers}
		}
		b.Digest = 0
		if e.CommitCalls > 0 {
			b.Bag = 0
		}
	}
	return b
}

// site is one builder with the scripts of the tasks working on it.
type site struct {
	backend int
	prefill int
	late    bool // the bulk of the checks comes last
	tasks   [][]scriptOp
	boom    int // -1: none; otherwise the builder call that panics
}

func (st *site) prepare() (frontend.API, *eng.Engine, []scriptRun, func(api frontend.API)) {
	api, e := eng.New(st.backend)
	e.Trace, e.Collect = true, true
	var rs []scriptRun
	for _, t := range st.tasks {
		rs = append(rs, bindScript(e, t))
	}
	v := gl.NewVariable(e.U64(9))
	pre := func(api frontend.API) {
		simsync.Quiet(func() {
			for i := 0; i < st.prefill; i++ {
				gl.New(api).RangeCheckWithMaxBits(v, 32)
			}
		})
	}
	return api, e, rs, pre
}

// alone is what the builder ends up with when nothing else happens.
func (st *site) alone() built {
	_, e, rs, pre := st.prepare()
	o := e.Run(func(api frontend.API) {
		for k, s := range rs {
			st.part(k, api, s, pre)
		}
	})
	b := outcome(e, o, len(st.tasks) == 1)
	e.Free()
	return b
}

// part is what the k-th task of a build does.
func (st *site) part(k int, api frontend.API, s scriptRun, pre func(frontend.API)) {
	if k == 0 && !st.late {
		pre(api)
	}
	s.run(api)
	if k == 0 && st.late {
		pre(api)
	}
}

func switches(p *lab.Plan, total int) (s []simsync.Switch) {
	for _, f := range p.Faults {
		if f.K == "switch" {
			at := f.A[0]
			if f.A[2] == 1 {
				at = 1 + int(int64(f.A[0])*int64(total)>>16)
			}
			s = append(s, simsync.Switch{At: at, To: f.A[1]})
		}
	}
	return
}

func randSwitch(r *rand.Rand) lab.Fault {
	if r.Intn(2) == 0 {
		return lab.Fault{K: "switch", A: []int{r.Intn(1 << 16), r.Intn(8), 1}}
	}
	return lab.Fault{K: "switch", A: []int{1 + r.Intn(1<<uint(3+r.Intn(9))), r.Intn(8), 0}}
}

// unjudgeable tells why the scheduler cannot run this tree.
func unjudgeable() string {
	if !simsync.Instrumented {
		return "the instrumented copy does not build: concurrency not simulated"
	}
	if simsync.Channels {
		return "the code synchronises through channels: concurrency not simulated"
	}
	return ""
}

func judgeSched(s *simsync.Sched, res *lab.Result, p *lab.Plan) bool {
	res.Steps += int64(s.Steps())
	if s.Dead == "stalled outside the simulated primitives" || s.Dead == "no end within the step limit" {
		res.Note = "not judged: " + s.Dead
		return false
	}
	if s.Dead != "" {
		res.Viol = s.Dead
		return false
	}
	if len(s.Races) > 0 {
		res.Viol = "shared memory is accessed without synchronisation: " + s.Races[0]
		return false
	}
	if ps := s.Panics(); len(ps) > 0 {
		res.Viol = "a task panics: " + ps[0]
		return false
	}
	res.Fired["preemption"] += s.Switches
	return true
}

func c07Builds(p *lab.Plan) *lab.Result {
	if w := unjudgeable(); w != "" {
		return &lab.Result{Note: w}
	}
	r := lab.Rng(p.Seed, "scripts")
	var sites []*site
	for i := 0; i < p.P["sites"]; i++ {
		st := &site{backend: r.Intn(4), boom: -1}
		n := 1
		if r.Intn(2) == 0 || p.P["sites"] == 1 {
			n = 2 + r.Intn(2)
		}
		for j := 0; j < n; j++ {
			t := genScript(r, p.P["heavy"] == 1)
			if n > 1 { // a foreign gadget's place in the order of one build matters to gnark
				for k := range t {
					if t[k].kind == 7 {
						t[k].kind, t[k].width = 0, 16
					}
				}
			}
			st.tasks = append(st.tasks, t)
		}
		if i == 0 && p.P["prefill"] > 0 {
			st.backend, st.prefill, st.late = eng.Commit, p.P["prefill"], p.P["late"] == 1
		}
		sites = append(sites, st)
	}
	for _, f := range p.Faults {
		if f.K == "builder-failure" {
			sites[f.A[0]%len(sites)].boom = f.A[1]
		}
	}
	probes := []*site{{backend: r.Intn(4), boom: -1, tasks: [][]scriptOp{genScript(r, false)}}}
	res := &lab.Result{Fired: map[string]int{}, Sig: lab.Hash(p.Seed, p.Faults)}
	want := make([]built, 0, len(sites)+1)
	simsync.Run(nil, 0, func() { // clean scheduler state
		for _, st := range append(append([]*site(nil), sites...), probes...) {
			want = append(want, st.alone())
		}
	})
	got := make([]built, len(sites)+1)
	boomed := make([]bool, len(sites))
	var bodies []func()
	var wg simsync.WaitGroup
	var wgs []*simsync.WaitGroup
	var engines []*eng.Engine
	for i, st := range sites {
		i, st := i, st
		_, e, rs, pre := st.prepare()
		engines = append(engines, e)
		if st.boom >= 0 {
			n := 0
			e.Boom = func(op string) bool {
				n++
				if n-1 == st.boom {
					boomed[i] = true
					res.Fired["builder failure at "+op]++
				}
				return n-1 == st.boom
			}
		}
		wgs = append(wgs, &wg)
		if len(rs) == 1 {
			bodies = append(bodies, func() {
				defer wg.Done()
				got[i] = outcome(e, e.Run(func(api frontend.API) { pre(api); rs[0].run(api) }), true)
			})
			continue
		}
		// several goroutines of one build; its end waits for all of them
		var part simsync.WaitGroup
		fail := make([]eng.Outcome, len(rs))
		for k, s := range rs {
			k, s := k, s
			wgs = append(wgs, &part)
			bodies = append(bodies, func() {
				defer part.Done()
				fail[k] = e.Part(func(api frontend.API) { st.part(k, api, s, pre) })
			})
		}
		bodies = append(bodies, func() {
			defer wg.Done()
			part.Wait()
			for _, o := range fail {
				if !o.Accept {
					got[i] = outcome(e, o, false)
					return
				}
			}
			got[i] = outcome(e, e.Finish(), false)
		})
	}
	bodies = append(bodies, func() {
		wg.Wait()
		_, e, rs, pre := probes[0].prepare()
		engines = append(engines, e)
		got[len(sites)] = outcome(e, e.Run(func(api frontend.API) { pre(api); rs[0].run(api) }), true)
	})
	first := bodies[0]
	bodies[0] = func() { // runs first
		for _, w := range wgs {
			w.Add(1)
		}
		first()
	}
	total := 0
	for _, b := range want {
		total += 8*b.Ops + 40
	}
	s := simsync.Run(switches(p, total), 20_000_000, bodies...)
	defer func() {
		for _, e := range engines {
			e.Free()
		}
	}()
	res.Digest = digest(s.Order, s.Steps(), got)
	if !judgeSched(s, res, p) {
		return res
	}
	res.Sig = lab.Hash(s.Order, p.Seed)
	res.Note = "as alone"
	for i := range got {
		who := fmt.Sprintf("builder %d", i)
		if i == len(sites) {
			who = "the next build"
		} else if boomed[i] {
			continue
		}
		if got[i] != want[i] {
			be := probes[0].backend
			if i < len(sites) {
				be = sites[i].backend
			}
			res.Viol = fmt.Sprintf("%s (%s) ends up with other constraints than alone: %v; alone: %v", who, eng.BackendName[be], got[i], want[i])
			return res
		}
	}
	return res
}

// c07Sessions: whole verifier builds concurrently.
func c07Sessions(p *lab.Plan) *lab.Result {
	if w := unjudgeable(); w != "" {
		return &lab.Result{Note: w}
	}
	n := p.P["n"]
	res := &lab.Result{Fired: map[string]int{}, Note: "as alone"}
	build := func(k int) (b built) {
		run := circ.Honest(int64(p.P[fmt.Sprint("circuit", k)]), circ.Tiny, 0)
		e := traced(run.In.C.NumPI%2*eng.Both + (1-run.In.C.NumPI%2)*eng.Native)
		b = outcome(e, e.Run(func(api frontend.API) { runVerify(api, e, run.In.C, run.Msg) }), true)
		e.Free()
		return
	}
	want, got := make([]built, n), make([]built, n)
	var bodies []func()
	total := 0
	for k := 0; k < n; k++ {
		k := k
		s := simsync.Run(nil, 0, func() { want[k] = build(k) })
		total += s.Steps()
		bodies = append(bodies, func() { got[k] = build(k) })
	}
	s := simsync.Run(switches(p, total), 0, bodies...)
	res.Digest = digest(s.Order, got)
	if !judgeSched(s, res, p) {
		return res
	}
	res.Sig = lab.Hash(s.Order, p.P)
	for k := range got {
		if got[k] != want[k] {
			res.Viol = fmt.Sprintf("verifier build %d ends up with other constraints than alone: %v; alone: %v", k, got[k], want[k])
			return res
		}
	}
	return res
}

func traced(backend int) *eng.Engine {
	_, e := eng.New(backend)
	e.Trace, e.Collect = true, true
	return e
}

// scriptCircuit lets gnark's own builders run a script.
type scriptCircuit struct {
	X   [][]frontend.Variable
	ops []scriptOp
}

func newScriptCircuit(ops []scriptOp) *scriptCircuit {
	c := &scriptCircuit{ops: ops}
	for _, o := range ops {
		c.X = append(c.X, make([]frontend.Variable, len(o.x)))
	}
	return c
}

func (c *scriptCircuit) Define(api frontend.API) error {
	s := scriptRun{ops: c.ops}
	for _, x := range c.X {
		s.in = append(s.in, br.Wrap(x))
	}
	s.run(api)
	return nil
}

// c07Gnark: gnark's own builders compile several circuits concurrently.
func c07Gnark(p *lab.Plan) (res *lab.Result) {
	if w := unjudgeable(); w != "" {
		return &lab.Result{Note: w}
	}
	withOverride("true", func() {
		r := lab.Rng(p.Seed, "gnark")
		res = &lab.Result{Fired: map[string]int{}, Note: "as alone"}
		n := 2 + r.Intn(2)
		var scripts [][]scriptOp
		for i := 0; i < n; i++ {
			var s []scriptOp
			for _, o := range genScript(r, false) {
				if o.kind != 7 { // needs a commitment
					s = append(s, o)
				}
			}
			scripts = append(scripts, s)
		}
		build := func(k int) string {
			if len(scripts[k]) == 0 {
				return ""
			}
			ccs, err := compileGnark(k%2 == 1, newScriptCircuit(scripts[k]))
			if err != nil {
				return err.Error()
			}
			h := sha256.New()
			ccs.WriteTo(h)
			return fmt.Sprintf("%x", h.Sum(nil)[:8])
		}
		want, got := make([]string, n), make([]string, n)
		total := 0
		var bodies []func()
		for k := range scripts {
			k := k
			s := simsync.Run(nil, 0, func() { want[k] = build(k) })
			total += s.Steps()
			bodies = append(bodies, func() { got[k] = build(k) })
		}
		s := simsync.Run(switches(p, total), 0, bodies...)
		res.Digest = digest(s.Order, got)
		if !judgeSched(s, res, p) {
			return
		}
		res.Sig = lab.Hash(s.Order, p.Seed)
		for k := range got {
			if got[k] != want[k] {
				res.Viol = fmt.Sprintf("the constraint system gnark compiles for build %d differs from the one compiled alone", k)
			}
		}
	})
	return
}

// c07History: builds one after another, some failing, with the garbage collector in between.
func c07History(p *lab.Plan) *lab.Result {
	r := lab.Rng(p.Seed, "history")
	res := &lab.Result{Fired: map[string]int{}, Note: "as alone"}
	scripts := make([]*site, 3)
	want := make([]built, 3)
	for i := range scripts {
		scripts[i] = &site{backend: r.Intn(4), boom: -1, tasks: [][]scriptOp{genScript(r, false)}}
	}
	body := func() {
		for i := range scripts {
			want[i] = scripts[i].alone()
		}
		for k := 0; k < p.P["n"]; k++ {
			i := r.Intn(3)
			boom := -1
			for _, f := range p.Faults {
				if f.K == "builder-failure" && f.A[0] == k {
					boom = f.A[1]
				}
				if f.K == "collect" && f.A[0] == k {
					runtime.GC()
					res.Fired["garbage collection"]++
				}
			}
			_, e, rs, _ := scripts[i].prepare()
			n, hit := 0, false
			if boom >= 0 {
				e.Boom = func(op string) bool {
					n++
					hit = hit || n-1 == boom
					return n-1 == boom
				}
			}
			b := outcome(e, e.Run(func(api frontend.API) { rs[0].run(api) }), true)
			e.Free()
			res.Subs++
			if hit {
				res.Fired["builder failure"]++
				continue
			}
			if b != want[i] {
				res.Viol = fmt.Sprintf("build %d in a row (%s) ends up with other constraints than the first: %v; first: %v", k, eng.BackendName[scripts[i].backend], b, want[i])
				return
			}
		}
	}
	if simsync.Instrumented && !simsync.Channels {
		s := simsync.Run(nil, 50_000_000, body)
		if s.Dead != "" && res.Viol == "" {
			res.Viol = "a build after a failed one never ends: " + s.Dead
		}
		res.Steps = int64(s.Steps())
	} else {
		body()
	}
	res.Digest = digest(want)
	res.Sig = lab.Hash(p.Seed, p.Faults)
	return res
}

// C07: concurrent builds.
func C07() *lab.Check {
	gen := func(prefill bool) func(r *rand.Rand, i int) *lab.Plan {
		return func(r *rand.Rand, i int) *lab.Plan {
			p := &lab.Plan{P: map[string]int{"sites": 1 + r.Intn(3), "heavy": 0}}
			if r.Intn(8) == 0 {
				p.P["heavy"] = 1
			}
			if prefill {
				p.P["prefill"] = 66500
				p.P["sites"] = 1
				p.P["late"] = r.Intn(2)
			}
			for k := 1 + r.Intn(8); k > 0; k-- {
				p.Faults = append(p.Faults, randSwitch(r))
			}
			if !prefill && r.Intn(3) == 0 {
				p.Faults = append(p.Faults, lab.Fault{K: "builder-failure", A: []int{r.Intn(3), r.Intn(1 << uint(1+r.Intn(7)))}})
			}
			return p
		}
	}
	return &lab.Check{
		Prop: "C07", Level: "exploration",
		Rule:    "tasks create chips, issue range checks and arithmetic and finalise builds on own and shared simulated builders; a seeded scheduler preempts them at instrumented statements, injected builder failures abort builds, and a further build follows every run; every builder's constraints must equal those of the same script alone; non-trivial: the run was scheduled and compared",
		Measure: "distinct interleavings (fingerprint of every task switch with its step) per set of scripts",
		Real:    append([]string{"gnark r1cs and scs builders (gnark world)"}, realParts...),
		Stub:    append([]string{"package sync and goroutine scheduling: simsync (cooperative, seeded)"}, stubParts...),
		Assumptions: []string{"interleavings are explored at statement granularity of the repository's packages; gnark itself runs between two scheduling points",
			"if the tree synchronises through channels, the concurrent worlds are skipped"},
		Worlds: []lab.World{
			{Name: "builds", Quick: 6000, Thorough: 400000, Serial: true, Exec: c07Builds, Gen: gen(false)},
			{Name: "batched", Quick: 20, Thorough: 2000, Serial: true, NoRerun: true, Exec: c07Builds, Gen: gen(true)},
			{Name: "history", Quick: 60, Thorough: 3000, Serial: true, Exec: c07History, Gen: func(r *rand.Rand, i int) *lab.Plan {
				p := &lab.Plan{P: map[string]int{"n": 20 + r.Intn(60)}}
				for k := r.Intn(6); k > 0; k-- {
					p.Faults = append(p.Faults, lab.Fault{K: "builder-failure", A: []int{r.Intn(40), r.Intn(1 << uint(1+r.Intn(7)))}}, lab.Fault{K: "collect", A: []int{r.Intn(60)}})
				}
				return p
			}},
			{Name: "gnark", Quick: 150, Thorough: 10000, Serial: true, Exec: c07Gnark, Gen: func(r *rand.Rand, i int) *lab.Plan {
				p := &lab.Plan{P: map[string]int{}}
				for k := 1 + r.Intn(6); k > 0; k-- {
					p.Faults = append(p.Faults, randSwitch(r))
				}
				return p
			}},
			{Name: "sessions", Quick: 6, Thorough: 400, Serial: true, NoRerun: true, Exec: c07Sessions, Gen: func(r *rand.Rand, i int) *lab.Plan {
				p := &lab.Plan{P: map[string]int{"n": 2 + r.Intn(2)}}
				for k := 0; k < 3; k++ {
					p.P[fmt.Sprint("circuit", k)] = r.Intn(200)
				}
				for k := 1 + r.Intn(40); k > 0; k-- {
					p.Faults = append(p.Faults, lab.Fault{K: "switch", A: []int{r.Intn(1 << 16), r.Intn(8), 1}})
				}
				return p
			}},
		},
	}
}
