package checks

import (
	"fmt"
	"math/rand"
	"reflect"

	"github.com/consensys/gnark/frontend"
	"github.com/succinctlabs/gnark-plonky2-verifier/verifier"

	"verif/sim/br"
	"verif/sim/circ"
	"verif/sim/eng"
	"verif/sim/lab"
)

// slices visits every slice reachable from v (a pointer).
func slices(v reflect.Value, f func(reflect.Value)) {
	switch v.Kind() {
	case reflect.Pointer:
		slices(v.Elem(), f)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			slices(v.Field(i), f)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			slices(v.Index(i), f)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			slices(v.Index(i), f)
		}
		if v.CanSet() {
			f(v)
		}
	}
}

// carve moves the slices of a message into one array per type, in a seeded order, so that the spare
// capacity of one is the content of the next; roomy gives each its own array with spare capacity.
func carve(r *rand.Rand, roomy bool, xs ...any) {
	by := map[reflect.Type][]reflect.Value{}
	var order []reflect.Type
	for _, x := range xs {
		slices(reflect.ValueOf(x), func(s reflect.Value) {
			if by[s.Type()] == nil {
				order = append(order, s.Type())
			}
			by[s.Type()] = append(by[s.Type()], s)
		})
	}
	for _, t := range order {
		l := by[t]
		if r.Intn(2) == 0 {
			r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
		}
		n := 0
		for _, s := range l {
			n += s.Len()
		}
		arena, at := reflect.MakeSlice(t, n, n), 0
		for _, s := range l {
			if roomy {
				arena, at = reflect.MakeSlice(t, s.Len(), s.Len()+r.Intn(300)), 0
			}
			reflect.Copy(arena.Slice(at, at+s.Len()), s)
			s.Set(arena.Slice(at, at+s.Len()))
			at += s.Len()
		}
	}
}

func leaves(v reflect.Value, f func(reflect.Value)) {
	switch v.Kind() {
	case reflect.Pointer:
		leaves(v.Elem(), f)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			leaves(v.Field(i), f)
		}
	case reflect.Array, reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			leaves(v.Index(i), f)
		}
	default:
		f(v)
	}
}

// layoutWorld verifies honest proofs whose parts lie in memory in unusual ways.
func layoutWorld(p *lab.Plan) *lab.Result {
	run := honest(p)
	c, m := run.In.C, run.Msg
	res := &lab.Result{Note: "accepted", Fired: map[string]int{}, Sig: lab.Hash(p.P, p.Faults)}
	_, e := eng.New(eng.Native)
	what := ""
	changed := ""
	o := e.Run(func(api frontend.API) {
		mk := br.Mk(e)
		pr, pi, vd := br.Proof(mk, &m.Proof), br.Fs(mk, m.PIs), br.VData(mk, &m.VD)
		cd := br.Common(c)
		n := 1
		for _, f := range p.Faults {
			r := rand.New(rand.NewSource(int64(f.A[0])))
			what += " " + f.K
			res.Fired[f.K]++
			switch f.K {
			case "carve":
				carve(r, false, &pr, &pi, &vd, &cd)
			case "roomy":
				carve(r, true, &pr, &pi, &vd, &cd)
			case "twice":
				n = 2
			}
		}
		snap := func() (s []any) {
			for _, x := range []any{&pr, &pi, &vd, &cd} {
				leaves(reflect.ValueOf(x), func(v reflect.Value) {
					if v.CanInterface() {
						s = append(s, v.Interface())
					}
				})
			}
			return
		}
		before := snap()
		for ; n > 0; n-- {
			verifier.NewVerifierChip(api, cd).Verify(pr, pi, vd)
		}
		after := snap()
		for i := range before {
			if len(after) != len(before) || before[i] != after[i] {
				changed = fmt.Sprintf("value %d of %d of the caller's message and circuit data is overwritten", i, len(before))
				break
			}
		}
	})
	res.Steps, res.Digest = int64(e.Ops), digest(e.Ops, e.Calls, say(o))
	e.Free()
	if o.Unsup {
		return &lab.Result{Err: o.Why}
	}
	if !o.Accept {
		res.Viol = fmt.Sprintf("honest proof not accepted (%s; memory layout:%s): %s %s", circ.Describe(c), what, say(o), changed)
	} else if changed != "" {
		res.Viol = fmt.Sprintf("%s (%s; memory layout:%s)", changed, circ.Describe(c), what)
	}
	return res
}
