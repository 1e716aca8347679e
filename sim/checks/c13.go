package checks

import (
	"fmt"
	"math/rand"
	"regexp"
	"strings"

	"github.com/consensys/gnark/frontend"
	"github.com/succinctlabs/gnark-plonky2-verifier/plonk/gates"
	"github.com/succinctlabs/gnark-plonky2-verifier/types"
	"github.com/succinctlabs/gnark-plonky2-verifier/verifier"

	"verif/sim/br"
	"verif/sim/circ"
	"verif/sim/eng"
	"verif/sim/lab"
	"verif/sim/ref"
)

// buildAny builds the circuit for a message without stopping at violated constraints: only a refusal
// to build remains.
func buildAny(cd types.CommonCircuitData, m *ref.Msg) (eng.Outcome, stat) {
	_, e := eng.New(eng.Native)
	e.Collect = true
	o := e.Run(func(api frontend.API) {
		mk := br.Mk(e)
		verifier.NewVerifierChip(api, cd).Verify(br.Proof(mk, &m.Proof), br.Fs(mk, m.PIs), br.VData(mk, &m.VD))
	})
	st := stat{e.Ops, e.Calls, uint64(len(e.Fails))}
	e.Free()
	return o, st
}

var shapeOps = []string{"drop", "drop-last", "duplicate", "append-zero", "clear", "swap-lists"}

// reshape applies one shape fault.
func reshape(m *ref.Msg, f lab.Fault) (string, bool) {
	_, lists := ref.Walk(m)
	names, by := classesOf(len(lists), func(i int) string { return lists[i].Class })
	pick := func(c, i int) ref.List { l := by[names[c%len(names)]]; return lists[l[i%len(l)]] }
	l := pick(f.A[0], f.A[1])
	n := l.Len()
	switch f.K {
	case "drop":
		if n == 0 {
			return "", false
		}
		l.Drop(f.A[2] % n)
	case "drop-last":
		if n == 0 {
			return "", false
		}
		l.Drop(n - 1)
	case "duplicate":
		if n == 0 {
			return "", false
		}
		l.Dup(f.A[2]%n, f.A[3]%(n+1))
	case "append-zero":
		l.Zero()
	case "clear":
		if n == 0 {
			return "", false
		}
		l.Clear()
	case "swap-lists": // a list of another place, usually of another length
		o := pick(f.A[2], f.A[3])
		if !l.Copy(o) {
			return "", false
		}
	}
	return f.K + " " + l.Path, true
}

func shapesExec(p *lab.Plan) *lab.Result {
	run := honest(p)
	c := run.In.C
	m := run.Msg.Clone()
	res := &lab.Result{Fired: map[string]int{}}
	var what []string
	for _, f := range p.Faults {
		w, ok := reshape(m, f)
		if ok {
			res.Fired[f.K]++
			what = append(what, w)
		}
	}
	err := c.Shape(m)
	if err == nil {
		res.Note = "shape unchanged"
		return res
	}
	o, st := buildAny(br.Common(c), m)
	res.Steps, res.Digest, res.Note = int64(st.Ops), digest(st, say(o)), verdict(o)
	res.Sig = lab.Hash(p.P, p.Faults)
	if o.Unsup {
		return &lab.Result{Err: o.Why}
	}
	if !o.Refused {
		res.Viol = fmt.Sprintf("circuit is built for a message of the wrong shape: %s (%v; %s)", strings.Join(what, ", "), err, circ.Describe(c))
	}
	return res
}

// forged messages of the wrong shape whose values are filled in so that every value check passes
var misfits = []string{"extra-public-input", "missing-public-input", "extra-quotient-opening", "extra-next-opening", "extra-final-coefficient", "fewer-queries", "more-queries", "short-path", "long-path", "wide-leaf", "short-step-path", "long-step-path"}

func misfitExec(p *lab.Plan) *lab.Result {
	res := &lab.Result{Fired: map[string]int{}}
	var kind string
	a := make([]int, 4)
	for _, f := range p.Faults {
		kind, a = f.K, f.A
	}
	r := lab.Rng(p.Seed, "misfit")
	var o eng.Outcome
	var st stat
	var bad error
	desc := ""
	switch kind {
	case "", "extra-public-input", "missing-public-input", "extra-quotient-opening", "extra-next-opening":
		base := p.P["circuit"]
		in := circ.Get(int64(base), circ.Tiny)
		if kind == "missing-public-input" && in.C.NumPI > 0 {
			pis := append([]ref.F(nil), in.PIs...)
			pis[len(pis)-1] = 0
			in = in.WithPIs(pis)
		}
		hk := &ref.Hooks{}
		switch kind {
		case "extra-quotient-opening":
			hk.Openings = func(o *ref.Openings, _ *ref.Challenges) { o.Quot = append(o.Quot, ref.X{}) }
		case "extra-next-opening":
			hk.Openings = func(o *ref.Openings, _ *ref.Challenges) { o.ZsNext = append(o.ZsNext, ref.X{}) }
		}
		run := in.Prove(r, hk)
		m := run.Msg.Clone()
		switch kind {
		case "extra-public-input":
			// the sponge overwrites its state: appending what is already there leaves the hash as it is
			m.PIs = append(m.PIs, 0)
		case "missing-public-input":
			if len(m.PIs) > 0 {
				m.PIs = m.PIs[:len(m.PIs)-1]
			}
		}
		bad = in.C.Shape(m)
		desc = circ.Describe(in.C)
		if kind != "" && bad == nil {
			return &lab.Result{Note: "not applicable"}
		}
		o, st = verify(eng.Native, in.C, m, nil)
	default:
		c := friShape(int64(p.P["shape"]))
		s := ref.Synthesize(r, c, nil)
		q := a[0] % len(s.Fri.Queries)
		or := a[1] % 4
		switch kind {
		case "extra-final-coefficient":
			for k := 1 + a[2]%3; k > 0; k-- {
				s.Fri.Final = append(s.Fri.Final, ref.X{})
			}
		case "fewer-queries":
			s.Fri.Queries = s.Fri.Queries[:len(s.Fri.Queries)-1]
			s.Ch.Indices = s.Ch.Indices[:len(s.Ch.Indices)-1]
		case "more-queries":
			s.Fri.Queries = append(s.Fri.Queries, s.Fri.Queries[q])
			s.Ch.Indices = append(append([]ref.F(nil), s.Ch.Indices...), s.Ch.Indices[q])
		case "short-path", "long-path", "wide-leaf", "short-step-path", "long-step-path":
			step := strings.Contains(kind, "step")
			if step && c.Steps == 0 {
				return &lab.Result{Note: "not applicable"}
			}
			l := a[1] % max(c.Steps, 1)
			for i := range s.Fri.Queries {
				x := int(s.Ch.Indices[i] & (1<<c.LdeBits() - 1))
				capIdx := x >> (c.LdeBits() - ref.CapHeight)
				sib := &s.Fri.Queries[i].Init[or].Sib
				cap := s.Caps[or]
				if step {
					sib, cap = &s.Fri.Queries[i].Steps[l].Sib, s.Fri.Caps[l]
				}
				switch kind {
				case "short-path", "short-step-path":
					if len(*sib) == 0 {
						return &lab.Result{Note: "not applicable"}
					}
					*sib = (*sib)[:len(*sib)-1]
				case "long-path", "long-step-path":
					*sib = append(append([]ref.H(nil), *sib...), edgeH(r))
				case "wide-leaf":
					q := &s.Fri.Queries[i].Init[or]
					q.Leaf = append(append([]ref.H(nil), q.Leaf...), ref.FtoH(edgeF(r)))
				}
				var leaf []ref.H
				if step {
					x >>= ref.ArityBits * (l + 1)
					for _, e := range s.Fri.Queries[i].Steps[l].Evals {
						leaf = append(leaf, e[0], e[1])
					}
				} else {
					leaf = s.Fri.Queries[i].Init[or].Leaf
				}
				cap[capIdx] = ref.Root(leaf, x, *sib)
			}
		}
		bad = c.FriShape(&s.Fri)
		desc = circ.Describe(c)
		o, st = friOnly(s, nil)
	}
	res.Fired[kind]++
	res.Sig = lab.Hash(p.P, p.Faults)
	res.Steps, res.Digest, res.Note = int64(st.Ops), digest(st, say(o)), verdict(o)
	if o.Unsup {
		return &lab.Result{Err: o.Why}
	}
	if bad != nil && o.Accept {
		res.Viol = fmt.Sprintf("message of the wrong shape accepted: %s (%v; %s)", kind, bad, desc)
	}
	return res
}

var badData = []string{"prefixed-gate", "suffixed-gate", "unknown-gate", "missing-parameter", "huge-parameter", "oversized-parameter", "coset-degree", "coset-weights", "extension-degree", "renamed-parameter",
	"cap-height", "arity", "few-gate-constraints", "missing-generator", "unequal-groups", "missing-selector-index", "rate", "queries"}

var sizeParam = regexp.MustCompile(`(num_[a-z_]+|bits|subgroup_bits): ([0-9]+)`)
var cosetDegree = regexp.MustCompile(` degree: [0-9]+`)

// badDataExec builds for unsupported or inconsistent circuit data with a message of matching shape.
func badDataExec(p *lab.Plan) *lab.Result {
	in := circ.Get(int64(p.P["circuit"]), p.P["class"])
	c := *in.C
	r := lab.Rng(p.Seed, "bad-data")
	res := &lab.Result{Fired: map[string]int{}}
	// a full garbage message of the circuit's shape
	full := func(c *ref.Common, capH int, arity []int) *ref.Msg {
		g := *c
		g.D = max(g.D, ref.ArityBits*g.Steps) // the final polynomial is made below
		m := garbage(r, &g, 1<<capH)
		hs := func(n int) []ref.H {
			o := make([]ref.H, max(n, 0))
			for i := range o {
				o[i] = edgeH(r)
			}
			return o
		}
		fs := func(n int) []ref.H {
			o := make([]ref.H, n)
			for i := range o {
				o[i] = ref.FtoH(edgeF(r))
			}
			return o
		}
		folded := 0
		for _, a := range arity {
			folded += a
		}
		if n := c.D - folded; n >= 0 {
			m.Proof.Fri.Final = m.Proof.Fri.Final[:0]
			for k := 0; k < 1<<n; k++ {
				m.Proof.Fri.Final = append(m.Proof.Fri.Final, ref.XofE(ref.E{edgeF(r), edgeF(r)}))
			}
		}
		for q := 0; q < c.Queries; q++ {
			var qq ref.Query
			for _, w := range c.Widths() {
				qq.Init = append(qq.Init, ref.LeafProof{Leaf: fs(w), Sib: hs(c.LdeBits() - capH)})
			}
			at := c.LdeBits() - capH
			for _, a := range arity {
				var s ref.StepProof
				for j := 0; j < 1<<a; j++ {
					s.Evals = append(s.Evals, ref.XofE(ref.E{edgeF(r), edgeF(r)}))
				}
				at -= a
				s.Sib = hs(at)
				qq.Steps = append(qq.Steps, s)
			}
			m.Proof.Fri.Queries = append(m.Proof.Fri.Queries, qq)
		}
		return m
	}
	var arity []int
	for _, f := range p.Faults {
		if f.K == "arity" { // any mixture of folding steps that is not the supported one
			r := lab.Rng(int64(f.A[0]), "arity")
			folded := 0
			for n := 1 + r.Intn(3); n > 0; n-- {
				a := ref.ArityBits
				if r.Intn(3) > 0 || n == 1 {
					a = []int{0, 1, 2, 3, 5, 5, 6, 7, 8}[r.Intn(9)]
				}
				arity = append(arity, a)
				folded += a
			}
			r.Shuffle(len(arity), func(i, j int) { arity[i], arity[j] = arity[j], arity[i] })
			c.Steps = len(arity)
			c.D = folded + r.Intn(3) + max(0, ref.CapHeight-c.LdeBits()+c.D)
			c.Queries = 1 + c.Queries%3
		}
	}
	capH := ref.CapHeight
	for len(arity) < c.Steps {
		arity = append(arity, ref.ArityBits)
	}
	cd := br.Common(&c)
	what := ""
	for _, f := range p.Faults {
		g := f.A[0] % len(cd.GateIds)
		if strings.HasPrefix(f.K, "coset-") {
			for i, id := range cd.GateIds {
				if strings.Contains(id, "barycentric") {
					g = i
				}
			}
		}
		id := cd.GateIds[g]
		open := strings.HasPrefix(id, "PoseidonGate") || strings.HasPrefix(id, "PoseidonMdsGate")
		setGate := func(s string) bool {
			if s == id {
				return false
			}
			cd.GateIds[g] = s
			what += " gate ID " + s
			return true
		}
		ok := true
		switch f.K {
		case "prefixed-gate":
			ok = setGate([]string{"U32", "Base", "Comparison", " ", "X", "Ext"}[f.A[1]%6] + id)
		case "suffixed-gate":
			ok = !open && setGate(id+[]string{"V2", " ", "<D=4>", "x", " + Base: 3"}[f.A[1]%5])
		case "unknown-gate":
			ok = setGate([]string{"LookupGate { num_slots: 26 }", "LookupTableGate { num_slots: 26 }", "AssertLessThanGate { bits: 4 }", "", "Gate", "U32AddManyGate { num_addends: 2 }", "SwitchGate { chunk_size: 3 }", "noopgate"}[f.A[1]%8])
		case "missing-parameter":
			i, j := strings.Index(id, "{"), strings.Index(id, "}")
			ok = i >= 0 && j > i && setGate(id[:i+1]+" "+id[j:])
		case "huge-parameter":
			i := strings.IndexAny(id, "0123456789")
			ok = i >= 0 && !open && strings.Contains(id, ": "+id[i:i+1]) && setGate(id[:i]+"99999999999999999999999"+id[i:])
		case "oversized-parameter": // more wires or constants than there are
			head, _, _ := strings.Cut(id, "barycentric")
			at := sizeParam.FindAllStringSubmatchIndex(head, -1)
			ok = !open && len(at) > 0
			if ok {
				m := at[f.A[1]%len(at)]
				v := "10000"
				if strings.HasSuffix(head[m[2]:m[3]], "bits") && !strings.HasSuffix(head[m[2]:m[3]], "power_bits") {
					v = "13"
				}
				ok = setGate(id[:m[4]] + v + id[m[5]:])
			}
		case "coset-degree":
			ok = strings.Contains(id, " degree: ") && setGate(cosetDegree.ReplaceAllString(id, fmt.Sprint(" degree: ", f.A[1]%2)))
		case "coset-weights": // fewer than the subgroup has elements
			i := -1
			if w := strings.Index(id, "barycentric_weights: ["); w >= 0 {
				i = w + strings.Index(id[w:], ",")
			}
			ok = i >= 0 && setGate(id[:i]+id[i+strings.IndexAny(id[i+1:], ",]")+1:])
		case "extension-degree":
			ok = strings.Contains(id, "<D=2>") && setGate(strings.Replace(id, "<D=2>", fmt.Sprintf("<D=%d>", []int{1, 3, 4, 5}[f.A[1]%4]), 1))
		case "renamed-parameter":
			ok = strings.Contains(id, "num_") && setGate(strings.Replace(id, "num_", "nun_", 1))
		case "cap-height":
			h := []int{0, 1, 2, 3, 5, 6}[f.A[1]%6]
			if c.LdeBits()-ref.ArityBits*c.Steps < h {
				h = f.A[1] % 4
			}
			capH = h
			cd.Config.FriConfig.CapHeight, cd.FriParams.Config.CapHeight = uint64(h), uint64(h)
			what += fmt.Sprint(" cap height ", h)
		case "arity":
			for i, a := range arity {
				cd.FriParams.ReductionArityBits[i] = uint64(a)
			}
			what += fmt.Sprint(" arity bits ", arity)
		case "few-gate-constraints":
			ok = cd.NumGateConstraints > 0
			if ok {
				cd.NumGateConstraints -= 1 + uint64(f.A[1])%cd.NumGateConstraints
				what += fmt.Sprint(" num_gate_constraints ", cd.NumGateConstraints)
			}
		case "missing-generator":
			cd.KIs = cd.KIs[:len(cd.KIs)-1-f.A[1]%len(cd.KIs)]
			ok = len(cd.KIs) < c.Routed
			what += " k_is too short"
		case "unequal-groups", "missing-selector-index":
			// handed over unbuilt: building the selector info is part of reading circuit data
		case "rate":
			cd.Config.FriConfig.RateBits++
			cd.FriParams.Config.RateBits++
			what += " rate differs from the proof's"
		case "queries":
			cd.Config.FriConfig.NumQueryRounds++
			cd.FriParams.Config.NumQueryRounds++
			what += " number of queries differs from the proof's"
		}
		if ok {
			res.Fired[f.K]++
		} else {
			return &lab.Result{Note: "not applicable"}
		}
	}
	m := full(&c, capH, arity)
	_, e := eng.New(eng.Native)
	e.Collect = true
	o := e.Run(func(api frontend.API) {
		for _, f := range p.Faults {
			if f.K == "unequal-groups" || f.K == "missing-selector-index" {
				var idx, st, en []uint64
				for i := range c.Gates {
					idx = append(idx, uint64(c.SelIdx[i]))
				}
				for _, g := range c.Groups {
					st, en = append(st, uint64(g[0])), append(en, uint64(g[1]))
				}
				if f.K == "unequal-groups" {
					en = en[:len(en)-1]
					what += " a group without an end"
				} else {
					idx = idx[:len(idx)-1]
					what += " a gate without a selector index"
				}
				cd.SelectorsInfo = *gates.NewSelectorsInfo(idx, st, en)
			}
		}
		mk := br.Mk(e)
		verifier.NewVerifierChip(api, cd).Verify(br.Proof(mk, &m.Proof), br.Fs(mk, m.PIs), br.VData(mk, &m.VD))
	})
	res.Steps, res.Digest, res.Note = int64(e.Ops), digest(e.Ops, say(o)), verdict(o)
	e.Free()
	if o.Unsup {
		return &lab.Result{Err: o.Why}
	}
	if len(p.Faults) == 0 {
		if o.Refused {
			res.Viol = "circuit refused for supported circuit data and a message of its shape: " + say(o) + " (" + circ.Describe(&c) + ")"
		}
		return res
	}
	res.Sig = lab.Hash(p.P, p.Faults)
	if !o.Refused {
		res.Viol = fmt.Sprintf("circuit is built for unsupported circuit data:%s (%s)", what, circ.Describe(&c))
	}
	return res
}

// C13: shapes and circuit data.
func C13() *lab.Check {
	return &lab.Check{
		Prop: "C13", Level: "exploration",
		Rule:    "seeded reshaping (drop, duplicate, append, empty, transplant) of every list of honest messages: the build must be refused whatever the values; forged messages of the wrong shape whose values satisfy every value check; circuit data altered to unsupported or inconsistent values with a message of matching shape; non-trivial: the shape or the data really differs",
		Measure: "distinct (circuit, reshaping), (configuration, forgery) and (circuit, data alteration)",
		Real:    realParts, Stub: stubParts,
		Worlds: []lab.World{
			{Name: "shapes", Quick: 1500, Thorough: 120000, Exec: shapesExec, Gen: func(r *rand.Rand, i int) *lab.Plan {
				p := &lab.Plan{P: map[string]int{"circuit": r.Intn(60), "class": circ.Tiny, "session": 0}}
				if i%4 == 3 {
					p.P["class"], p.P["circuit"] = circ.Wild, r.Intn(24)
				}
				if i%9 == 4 {
					p.P["class"], p.P["circuit"] = circ.Deep, r.Intn(12)
				}
				n := 1
				if r.Intn(4) == 0 {
					n = 2 + r.Intn(2)
				}
				for ; n > 0; n-- {
					p.Faults = append(p.Faults, lab.Fault{K: shapeOps[r.Intn(len(shapeOps))], A: randArgs(r, 4)})
				}
				return p
			}},
			{Name: "misfits", Quick: 500, Thorough: 30000, Exec: misfitExec, Gen: func(r *rand.Rand, i int) *lab.Plan {
				return &lab.Plan{P: map[string]int{"circuit": r.Intn(60), "shape": r.Intn(1 << 28)}, Faults: []lab.Fault{{K: misfits[i%len(misfits)], A: randArgs(r, 4)}}}
			}},
			{Name: "circuit-data", Quick: 850, Thorough: 40000, Exec: badDataExec, Gen: func(r *rand.Rand, i int) *lab.Plan {
				p := &lab.Plan{P: map[string]int{"circuit": r.Intn(40), "class": circ.Tiny}}
				if i%3 == 0 {
					p.P["class"], p.P["circuit"] = circ.Full, r.Intn(12)
				}
				if i%10 != 0 {
					p.Faults = []lab.Fault{{K: badData[r.Intn(len(badData))], A: randArgs(r, 2)}}
				}
				return p
			}},
		},
	}
}
