package checks

import (
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strings"

	"github.com/consensys/gnark/frontend"
	"github.com/succinctlabs/gnark-plonky2-verifier/plonk/gates"
	"github.com/succinctlabs/gnark-plonky2-verifier/types"
	"github.com/succinctlabs/gnark-plonky2-verifier/verifier"

	"verif/sim/br"
	"verif/sim/circ"
	"verif/sim/eng"
	"verif/sim/lab"
	"verif/sim/ref"
	"verif/sim/simsync"
)

// emitted builds the verifier and fingerprints everything it emits, whatever the values.
func emitted(backend int, common types.CommonCircuitData, m *ref.Msg, setup func(*eng.Engine)) built {
	e := traced(backend)
	if setup != nil {
		setup(e)
	}
	o := e.Run(func(api frontend.API) {
		mk := br.Mk(e)
		pr, pi, vd := br.Proof(mk, &m.Proof), br.Fs(mk, m.PIs), br.VData(mk, &m.VD)
		verifier.NewVerifierChip(api, common).Verify(pr, pi, vd)
	})
	b := outcome(e, o, true)
	b.Bad = 0 // how many constraints the values violate
	e.Free()
	return b
}

// garble replaces every value of a message, keeping its shape.
func garble(r *rand.Rand, m *ref.Msg, how int) *ref.Msg {
	g := m.Clone()
	x := func(h *ref.X) {
		for i := range h {
			switch how {
			case 0:
				h[i].SetUint64(ref.RandF(r))
			case 1:
				h[i].SetUint64([]uint64{0, 1, ref.P - 1, ref.P, ^uint64(0)}[r.Intn(5)])
			case 2:
				h[i].SetRandom()
				h[i].SetUint64(r.Uint64())
				h[i].Square(&h[i])
				h[i].Square(&h[i])
			case 3:
				h[i].SetZero()
			}
		}
	}
	hash := func(h *ref.H) {
		var y ref.X
		x(&y)
		*h = y[0]
	}
	walkMsg(g, x, hash)
	for i := range g.PIs {
		if how != 3 {
			g.PIs[i] = ref.RandF(r)
		} else {
			g.PIs[i] = 0
		}
	}
	return g
}

func c14Values(p *lab.Plan) *lab.Result {
	run := honest(p)
	be := p.P["backend"]
	common := br.Common(run.In.C)
	before, _ := json.Marshal(common)
	want := emitted(be, common, run.Msg, nil)
	res := &lab.Result{Fired: map[string]int{}, Steps: int64(want.Ops), Note: "same stream"}
	digests := []built{want}
	for i, f := range p.Faults {
		r := lab.Rng(p.Seed, fmt.Sprint("variant", i))
		m := run.Msg
		var setup func(*eng.Engine)
		switch f.K {
		case "other-session":
			m = circ.Honest(int64(p.P["circuit"]), p.P["class"], int64(1+f.A[0]%3)).Msg
		case "garbage":
			m = garble(r, run.Msg, f.A[0]%4)
		case "lying-hints":
			setup = func(e *eng.Engine) {
				e.Hint = liarWith([]lab.Fault{lie(r, r.Intn(20000)), lie(r, r.Intn(2000)), lie(r, r.Intn(200))}, map[string]int{}, 0)
			}
		case "map-order":
			old := simsync.MapSeed
			simsync.MapSeed = int64(f.A[0])
			setup = func(e *eng.Engine) {}
			defer func() { simsync.MapSeed = old }()
		case "other-circuit": // history
			o := circ.Honest(int64(f.A[0]), circ.Tiny, 0)
			emitted(f.A[1]%4, br.Common(o.In.C), o.Msg, nil)
		case "aborted-build":
			_, e := eng.New(be)
			n := 0
			e.Boom = func(string) bool { n++; return n > f.A[0] }
			e.Run(func(api frontend.API) { runVerify(api, e, run.In.C, run.Msg) })
			e.Free()
		case "same-data": // the caller's circuit data is used again
		}
		cd := common
		if f.K != "same-data" {
			cd = br.Common(run.In.C)
		}
		got := emitted(be, cd, m, setup)
		res.Fired[f.K]++
		res.Subs++
		res.Steps += int64(got.Ops)
		digests = append(digests, got)
		if got != want {
			res.Viol = fmt.Sprintf("the emitted circuit changes with %s: %v; before: %v (%s, %s)", f.K, got, want, eng.BackendName[be], circ.Describe(run.In.C))
			return res
		}
	}
	after, _ := json.Marshal(common)
	if !bytes.Equal(before, after) || !reflect.DeepEqual(common, br.Common(run.In.C)) {
		res.Viol = "building the verifier changes the caller's circuit data"
	}
	res.Sig = lab.Hash(p.P, p.Faults)
	res.Digest = digest(digests)
	return res
}

// walkMsg visits every value of a message.
func walkMsg(m *ref.Msg, x func(*ref.X), h func(*ref.H)) {
	var walk func(v reflect.Value)
	xt, ht := reflect.TypeOf(ref.X{}), reflect.TypeOf(ref.H{})
	walk = func(v reflect.Value) {
		switch v.Type() {
		case xt:
			x(v.Addr().Interface().(*ref.X))
			return
		case ht:
			h(v.Addr().Interface().(*ref.H))
			return
		}
		switch v.Kind() {
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i))
			}
		case reflect.Slice, reflect.Array:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		case reflect.Pointer:
			if !v.IsNil() {
				walk(v.Elem())
			}
		}
	}
	walk(reflect.ValueOf(m).Elem())
}

// c14Process compares with a process in which nothing else was ever built.
func c14Process(p *lab.Plan) *lab.Result {
	run := honest(p)
	be := p.P["backend"]
	for _, f := range p.Faults {
		o := circ.Honest(int64(f.A[0]), circ.Tiny, 0)
		emitted(f.A[1]%4, br.Common(o.In.C), o.Msg, nil)
	}
	got := emitted(be, br.Common(run.In.C), run.Msg, nil)
	cmd := exec.Command(os.Args[0], "emitted", fmt.Sprint(p.P["circuit"]), fmt.Sprint(p.P["class"]), fmt.Sprint(be), fmt.Sprint(p.P["map"]))
	env := lab.Rng(p.Seed, "environment")
	cmd.Env = append(os.Environ(), fmt.Sprint("GOMAXPROCS=", 1+env.Intn(12)), fmt.Sprint("HOME=/nonexistent/", env.Intn(9)), fmt.Sprint("TZ=UTC-", env.Intn(9)), fmt.Sprint("LANG=", []string{"C", "de_DE.UTF-8", ""}[env.Intn(3)]), "SEED="+fmt.Sprint(env.Intn(1<<30)))
	cmd.Dir = os.TempDir()
	if ts, err := exec.LookPath("taskset"); err == nil && env.Intn(2) == 0 { // another number of processors
		if self, err := filepath.Abs(os.Args[0]); err == nil {
			args := append([]string{"taskset", "-c", []string{"0", "0-1", "0-2"}[env.Intn(3)], self}, cmd.Args[1:]...)
			cmd.Path, cmd.Args = ts, args
		}
	} else if self, err := filepath.Abs(os.Args[0]); err == nil {
		cmd.Path = self
	}
	out, err := cmd.Output()
	if err != nil {
		return &lab.Result{Err: fmt.Sprint("child process: ", err)}
	}
	want := strings.TrimSpace(string(out))
	s := fmt.Sprintf("%+v %d", got, got.Digest)
	res := &lab.Result{Steps: 2 * int64(got.Ops), Note: "same stream", Sig: lab.Hash(p.P, p.Faults), Digest: digest(s), Fired: map[string]int{"other-circuit": len(p.Faults), "fresh process": 1}}
	if s != want {
		res.Viol = fmt.Sprintf("the emitted circuit depends on what the process built before: %s; in a fresh process: %s (%s)", s, want, circ.Describe(run.In.C))
	}
	return res
}

// Emitted serves c14Process in the child process.
func Emitted(args []string) string {
	var c, cls, be, mp int
	fmt.Sscan(strings.Join(args, " "), &c, &cls, &be, &mp)
	simsync.MapSeed = int64(mp)
	run := circ.Honest(int64(c), cls, 0)
	got := emitted(be, br.Common(run.In.C), run.Msg, nil)
	return fmt.Sprintf("%+v %d", got, got.Digest)
}

// c14Concurrent: the stream does not depend on what is built at the same time.
func c14Concurrent(p *lab.Plan) *lab.Result { return c07Sessions(p) }

// c14Gnark: gnark's own compilation result is the same for every proof, history and map order.
func c14Gnark(p *lab.Plan) (res *lab.Result) {
	withOverride("", func() {
		run := honest(p)
		c := run.In.C
		res = &lab.Result{Fired: map[string]int{}, Note: "same constraint system"}
		compile := func(m *ref.Msg) (string, error) {
			ccs, err := compileGnark(p.P["scs"] == 1, mkGnark(c, m))
			if err != nil {
				return "", err
			}
			h := sha256.New()
			ccs.WriteTo(h)
			res.Steps += int64(ccs.GetNbConstraints())
			return fmt.Sprintf("%x", h.Sum(nil)[:8]), nil
		}
		want, err := compile(run.Msg)
		if err != nil {
			res = &lab.Result{Note: "refused: " + err.Error()}
			return
		}
		old := simsync.MapSeed
		defer func() { simsync.MapSeed = old }()
		for i, f := range p.Faults {
			m := run.Msg
			switch f.K {
			case "garbage":
				m = garble(lab.Rng(p.Seed, fmt.Sprint(i)), run.Msg, f.A[0]%4)
			case "map-order":
				simsync.MapSeed = int64(f.A[0])
			}
			res.Fired[f.K]++
			got, err := compile(m)
			if err != nil || got != want {
				res.Viol = fmt.Sprintf("the constraint system gnark compiles (scs=%d) changes with %s: %s %v, before %s", p.P["scs"], f.K, got, err, want)
				return
			}
		}
		res.Sig, res.Digest = lab.Hash(p.P, p.Faults), digest(want)
	})
	return
}

// c14Ids: which registered pattern is tried first does not matter.
func c14Ids(p *lab.Plan) *lab.Result {
	r := lab.Rng(p.Seed, "ids")
	ids := br.Common(circ.Get(int64(p.P["circuit"]), circ.Full).C).GateIds
	id := ids[r.Intn(len(ids))]
	for _, f := range p.Faults {
		switch f.K {
		case "join":
			id += ids[f.A[0]%len(ids)]
		case "cut":
			id = id[:f.A[0]%(len(id)+1)]
		case "prefix":
			id = string(rune('A'+f.A[0]%26)) + id
		case "flip":
			b := []byte(id + " ")
			b[f.A[0]%len(b)] ^= byte(1 << (f.A[1] % 7))
			id = string(b)
		}
	}
	parse := func() (s string) {
		defer func() {
			if e := recover(); e != nil {
				s = "refused"
			}
		}()
		g := gates.GateInstanceFromId(id)
		var b strings.Builder
		dump(&b, reflect.ValueOf(g), 8)
		return fmt.Sprintf("%T %s %s", g, g.Id(), b.String())
	}
	old := simsync.MapSeed
	defer func() { simsync.MapSeed = old }()
	res := &lab.Result{Fired: map[string]int{"map-order": 12}, Sig: lab.Hash(id), Subs: 12, Note: "refused"}
	first := ""
	for k := 0; k < 12; k++ {
		simsync.MapSeed = int64(1 + r.Intn(1<<30))
		got := parse()
		if k == 0 {
			first = got
		}
		if got != first {
			res.Viol = fmt.Sprintf("gate ID %q is read as %s or as %s depending on the iteration order", id, first, got)
			return res
		}
	}
	if first != "refused" {
		res.Note = "recognised"
	}
	for _, f := range p.Faults {
		res.Fired[f.K]++
	}
	res.Digest, res.Steps = digest(first), 12
	return res
}

// dump writes the plain data reachable from a value.
func dump(b *strings.Builder, v reflect.Value, depth int) {
	if depth == 0 || !v.IsValid() {
		return
	}
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		dump(b, v.Elem(), depth-1)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			dump(b, v.Field(i), depth-1)
		}
	case reflect.Slice, reflect.Array:
		b.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			dump(b, v.Index(i), depth-1)
		}
		b.WriteByte(']')
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(b, v.Int(), " ")
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		fmt.Fprint(b, v.Uint(), " ")
	case reflect.Bool:
		fmt.Fprint(b, v.Bool(), " ")
	case reflect.String:
		fmt.Fprintf(b, "%q ", v.String())
	}
}

// C14: the circuit is a function of the circuit data.
func C14() *lab.Check {
	variant := func(r *rand.Rand) lab.Fault {
		k := []string{"other-session", "garbage", "garbage", "lying-hints", "other-circuit", "aborted-build", "same-data"}[r.Intn(7)]
		return lab.Fault{K: k, A: []int{1 + r.Intn(1<<uint(4+r.Intn(14))), r.Intn(1 << 20)}}
	}
	return &lab.Check{
		Prop: "C14", Level: "exploration",
		Rule:    "the verifier is built for the same circuit data several times: with other honest proofs, arbitrary values, lying hints, seeded map iteration orders, after other circuits and aborted builds, with reused circuit data, next to concurrent builds and in a fresh process; the fingerprint of every emitted operation, constraint and hint call must not change; non-trivial: at least two builds were compared",
		Measure: "distinct (circuit, back end, sequence of variants)",
		Real:    append([]string{"gnark r1cs and scs builders (gnark world)"}, realParts...), Stub: append([]string{"map iteration order and goroutine scheduling: simsync"}, stubParts...),
		Worlds: []lab.World{
			{Name: "variants", Quick: 40, Thorough: 6000, NoRerun: true, Weight: 6, Exec: c14Values, Gen: func(r *rand.Rand, i int) *lab.Plan {
				p := &lab.Plan{P: map[string]int{"circuit": r.Intn(1 << 30), "class": []int{circ.Tiny, circ.Tiny, circ.Wild, circ.Tiny}[i%4], "session": 0, "backend": []int{eng.Native, eng.Both, eng.Commit, eng.Native, eng.Native, eng.Plain}[i%6]}}
				if i%10 == 3 {
					p.P["class"], p.P["circuit"] = circ.Deep, r.Intn(12)
				}
				if p.P["backend"] == eng.Plain {
					p.P["class"] = circ.Tiny
				}
				for k := 2 + r.Intn(2); k > 0; k-- {
					p.Faults = append(p.Faults, variant(r))
				}
				return p
			}},
			{Name: "map-order", Quick: 12, Thorough: 600, Serial: true, NoRerun: true, Exec: c14Values, Gen: func(r *rand.Rand, i int) *lab.Plan {
				p := &lab.Plan{P: map[string]int{"circuit": r.Intn(1 << 30), "class": circ.Tiny, "session": 0, "backend": eng.Native}}
				for k := 0; k < 3; k++ {
					p.Faults = append(p.Faults, lab.Fault{K: "map-order", A: []int{1 + r.Intn(1<<30), 0}})
				}
				return p
			}},
			{Name: "gate-ids", Quick: 4000, Thorough: 400000, Serial: true, Exec: c14Ids, Gen: func(r *rand.Rand, i int) *lab.Plan {
				p := &lab.Plan{P: map[string]int{"circuit": r.Intn(40)}}
				for k := r.Intn(3); k > 0; k-- {
					p.Faults = append(p.Faults, lab.Fault{K: []string{"join", "cut", "prefix", "flip"}[r.Intn(4)], A: randArgs(r, 2)})
				}
				return p
			}},
			{Name: "process", Quick: 8, Thorough: 400, NoRerun: true, Serial: true, Exec: c14Process, Gen: func(r *rand.Rand, i int) *lab.Plan {
				p := &lab.Plan{P: map[string]int{"circuit": r.Intn(1 << 30), "class": circ.Tiny, "session": 0, "backend": eng.Native, "map": r.Intn(1000)}}
				for k := r.Intn(3); k > 0; k-- {
					p.Faults = append(p.Faults, lab.Fault{K: "other-circuit", A: []int{r.Intn(1 << 30), 1}})
				}
				return p
			}},
			{Name: "concurrent", Quick: 4, Thorough: 200, NoRerun: true, Serial: true, Exec: c14Concurrent, Gen: func(r *rand.Rand, i int) *lab.Plan {
				p := &lab.Plan{P: map[string]int{"n": 2}}
				for k := 0; k < 3; k++ {
					p.P[fmt.Sprint("circuit", k)] = r.Intn(1 << 30)
				}
				for k := 1 + r.Intn(60); k > 0; k-- {
					p.Faults = append(p.Faults, lab.Fault{K: "switch", A: []int{r.Intn(1 << 16), r.Intn(8), 1}})
				}
				return p
			}},
			{Name: "gnark", Quick: 1, Thorough: 60, NoRerun: true, Serial: true, Exec: c14Gnark, Gen: func(r *rand.Rand, i int) *lab.Plan {
				c := r.Intn(1 << 30)
				for circ.Opts(int64(c), circ.Tiny).PowBits != 0 {
					c++
				}
				return &lab.Plan{P: map[string]int{"circuit": c, "class": circ.Tiny, "session": 0, "scs": i % 2},
					Faults: []lab.Fault{{K: "garbage", A: []int{r.Intn(4)}}, {K: "map-order", A: []int{1 + r.Intn(1000)}}}}
			}},
		},
	}
}
