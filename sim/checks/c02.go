package checks

import (
	"fmt"
	"math/big"
	"math/rand"
	"sort"

	"verif/sim/circ"
	"verif/sim/eng"
	"verif/sim/lab"
	"verif/sim/ref"
)

var transportKinds = []string{"flip-bit", "increment", "overwrite", "swap-slots", "swap-items", "drop-item", "duplicate-item", "rotate", "replay-slot", "replay-list", "replay-all-but", "splice-public-inputs", "splice-digest", "splice-verifier-data", "negate"}

func classesOf(n int, class func(int) string) (names []string, by map[string][]int) {
	by = map[string][]int{}
	for i := 0; i < n; i++ {
		by[class(i)] = append(by[class(i)], i)
	}
	for k := range by {
		names = append(names, k)
	}
	sort.Strings(names)
	return
}

// deliver applies one transport fault to m. other is another session's message. It reports what happened.
func deliver(m, other *ref.Msg, f lab.Fault) (string, bool) {
	a := func(i int) int {
		if i < len(f.A) {
			return f.A[i]
		}
		return 0
	}
	slots, lists := ref.Walk(m)
	pickSlot := func(c, i int) ref.Slot {
		names, by := classesOf(len(slots), func(i int) string { return slots[i].Class })
		l := by[names[c%len(names)]]
		return slots[l[i%len(l)]]
	}
	pickList := func(c, i int) ref.List {
		names, by := classesOf(len(lists), func(i int) string { return lists[i].Class })
		l := by[names[c%len(names)]]
		return lists[l[i%len(l)]]
	}
	switch f.K {
	case "flip-bit":
		s := pickSlot(a(0), a(1))
		h := s.Get()
		var b big.Int
		h.BigInt(&b)
		w := 253
		if s.IsField() {
			w = 64
		}
		b.SetBit(&b, a(2)%w, b.Bit(a(2)%w)^1)
		h.SetBigInt(&b)
		s.Set(h)
		return s.Path, true
	case "increment":
		s := pickSlot(a(0), a(1))
		h := s.Get()
		var one ref.H
		one.SetOne()
		h.Add(&h, &one)
		s.Set(h)
		return s.Path, true
	case "negate":
		s := pickSlot(a(0), a(1))
		s.Set(ref.FtoH(ref.Neg(ref.HtoF(s.Get()))))
		return s.Path, true
	case "overwrite":
		s := pickSlot(a(0), a(1))
		s.Set(ref.FtoH(ref.RandF(rand.New(rand.NewSource(int64(a(2)))))))
		return s.Path, true
	case "swap-slots":
		s, t := pickSlot(a(0), a(1)), pickSlot(a(0), a(2))
		x, y := s.Get(), t.Get()
		s.Set(y)
		t.Set(x)
		return s.Path + "<->" + t.Path, true
	case "swap-items":
		l := pickList(a(0), a(1))
		if l.Len() < 2 {
			return "", false
		}
		i, j := a(2)%l.Len(), a(3)%l.Len()
		if i == j {
			j = (j + 1) % l.Len()
		}
		l.Swap(i, j)
		return fmt.Sprintf("%s %d<->%d", l.Path, i, j), true
	case "drop-item":
		l := pickList(a(0), a(1))
		if l.Len() == 0 {
			return "", false
		}
		i := a(2) % l.Len()
		l.Drop(i)
		return fmt.Sprintf("%s -%d", l.Path, i), true
	case "duplicate-item":
		l := pickList(a(0), a(1))
		if l.Len() == 0 {
			return "", false
		}
		i := a(2) % l.Len()
		j := a(3) % (l.Len() + 1)
		l.Dup(i, j)
		return fmt.Sprintf("%s +%d@%d", l.Path, i, j), true
	case "rotate":
		l := pickList(a(0), a(1))
		if l.Len() < 2 {
			return "", false
		}
		l.Dup(0, l.Len())
		l.Drop(0)
		return l.Path + " rotated", true
	case "replay-slot":
		s := pickSlot(a(0), a(1))
		os, _ := ref.Walk(other)
		for _, t := range os {
			if t.Path == s.Path {
				s.Set(t.Get())
				return s.Path + " from another session", true
			}
		}
		return "", false
	case "replay-list":
		l := pickList(a(0), a(1))
		_, ol := ref.Walk(other)
		for _, t := range ol {
			if t.Path == l.Path {
				l.Copy(t)
				return l.Path + " from another session", true
			}
		}
		return "", false
	case "replay-all-but": // everything from the other session except one sequence
		l := pickList(a(0), a(1))
		n := other.Clone()
		_, nl := ref.Walk(n)
		for _, t := range nl {
			if t.Path == l.Path {
				t.Copy(l)
				*m = *n
				return "other session with our " + l.Path, true
			}
		}
		return "", false
	case "splice-public-inputs":
		m.PIs = append([]ref.F(nil), other.PIs...)
		return "public inputs of another session", true
	case "splice-digest":
		m.VD.Digest = other.VD.Digest
		if a(0)%2 == 0 {
			m.VD.Digest = ref.RandH(rand.New(rand.NewSource(int64(a(1)))))
		}
		return "circuit digest", true
	case "splice-verifier-data":
		m.VD = ref.VData{Cap: append([]ref.H(nil), other.VD.Cap...), Digest: other.VD.Digest}
		return "verifier data of another circuit", true
	}
	return "", false
}

func randArgs(r *rand.Rand, n int) []int {
	a := make([]int, n)
	for i := range a {
		a[i] = r.Intn(1 << 28)
	}
	return a
}

// C02: transport faults.
func C02() *lab.Check {
	exec := func(p *lab.Plan) *lab.Result {
		run := honest(p)
		other := circ.Honest(int64(p.P["circuit2"]), p.P["class"], int64(p.P["session2"])).Msg
		m := run.Msg.Clone()
		res := &lab.Result{Fired: map[string]int{}}
		what := ""
		for _, f := range p.Faults {
			w, ok := deliver(m, other.Clone(), f)
			if ok {
				res.Fired[f.K]++
				what += f.K + " " + w + "; "
			}
		}
		want := safeRef(run.In.C, m)
		o, st := verify(eng.Native, run.In.C, m, nil)
		if o.Unsup {
			return &lab.Result{Err: o.Why}
		}
		res.Steps = int64(st.Ops)
		res.Digest = digest(st, say(o))
		res.Note = verdict(o)
		if what != "" {
			res.Sig = lab.Hash(p.P, what)
		}
		if o.Accept != (want == nil) {
			w := "valid"
			if want != nil {
				w = "invalid (" + want.Error() + ")"
			}
			res.Viol = fmt.Sprintf("delivered message is %s by the specification but was %s [%s] %s", w, say(o), what, circ.Describe(run.In.C))
		}
		return res
	}
	gen := func(r *rand.Rand, i int) *lab.Plan {
		base := r.Intn(24)
		p := &lab.Plan{P: map[string]int{"circuit": base, "class": circ.Tiny, "session": r.Intn(2), "circuit2": base, "session2": 2 + r.Intn(2)}}
		if i%5 == 4 {
			p.P["class"] = circ.Wild
			for o := circ.Opts(int64(base), circ.Wild); o.D > 6; o = circ.Opts(int64(base), circ.Wild) {
				base++
			}
			p.P["circuit"], p.P["circuit2"] = base, base
		}
		if i%11 == 7 {
			base %= 12
			p.P["class"], p.P["circuit"], p.P["circuit2"] = circ.Deep, base, base
		} else if r.Intn(4) == 0 {
			p.P["circuit2"] = r.Intn(24)
			p.P["class"], p.P["circuit"] = circ.Tiny, base%24
		}
		n := 1
		if r.Intn(4) == 0 {
			n += r.Intn(3)
		}
		for k := 0; k < n; k++ {
			kind := transportKinds[(i+k)%len(transportKinds)]
			if r.Intn(3) == 0 {
				kind = transportKinds[r.Intn(3)]
			}
			p.Faults = append(p.Faults, lab.Fault{K: kind, A: randArgs(r, 4)})
		}
		return p
	}
	return &lab.Check{
		Prop: "C02", Level: "exploration",
		Rule:    "an honest session's message goes through a faulty channel that corrupts, drops, duplicates, reorders and replays parts of it (from other sessions and circuits); the circuit's decision is compared with the native reference verifier's on the delivered message; non-trivial: at least one fault took effect",
		Measure: "distinct (circuit, session, fault effects) tuples",
		Real:    realParts, Stub: stubParts,
		Assumptions: []string{"the reference verifier implements the plonky2 specification", "public inputs are delivered canonically (they are the caller's responsibility)"},
		Worlds:      []lab.World{{Name: "channel", Quick: 420, Thorough: 25000, Gen: gen, Exec: exec}},
	}
}

// safeRef runs the reference verifier; a message it cannot even index is malformed.
func safeRef(c *ref.Common, m *ref.Msg) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("malformed: %v", r)
		}
	}()
	return c.Verify(m)
}
