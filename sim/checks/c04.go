package checks

import (
	"encoding/binary"
	"fmt"
	"hash/fnv"
	"math/big"
	"math/rand"
	"runtime"
	"sort"

	"github.com/consensys/gnark/frontend"
	"github.com/succinctlabs/gnark-plonky2-verifier/verifier"

	"verif/sim/br"
	"verif/sim/circ"
	"verif/sim/eng"
	"verif/sim/lab"
	"verif/sim/ref"
)

// getChallenges derives the coins in circuit.
func getChallenges(c *ref.Common, m *ref.Msg, hint eng.HintFn) (o eng.Outcome, got []*big.Int, st stat) {
	_, e := eng.New(eng.Native)
	e.Hint = hint
	var out []frontend.Variable
	o = e.Run(func(api frontend.API) {
		mk := br.Mk(e)
		v := verifier.NewVerifierChip(api, br.Common(c))
		h := v.GetPublicInputsHash(br.Fs(mk, m.PIs))
		ch := v.GetChallenges(br.Proof(mk, &m.Proof), h, br.VData(mk, &m.VD))
		out = append(out, lv(h[:]...)...)
		out = append(out, lv(ch.PlonkBetas...)...)
		out = append(out, lv(ch.PlonkGammas...)...)
		out = append(out, lv(ch.PlonkAlphas...)...)
		out = append(out, le(ch.PlonkZeta, ch.FriChallenges.FriAlpha)...)
		out = append(out, le(ch.FriChallenges.FriBetas...)...)
		out = append(out, lv(ch.FriChallenges.FriPowResponse)...)
		out = append(out, lv(ch.FriChallenges.FriQueryIndices...)...)
	})
	for _, v := range out {
		x := e.Of(v)
		b := new(big.Int)
		x.BigInt(b)
		got = append(got, b)
	}
	st = stat{e.Ops, e.Calls, e.Digest}
	e.Free()
	return
}

func wantChallenges(c *ref.Common, m *ref.Msg) []*big.Int {
	ch := c.Derive(m)
	h := ref.PIHash(m.PIs)
	w := bigs(h[:]...)
	w = append(w, bigs(ch.Betas...)...)
	w = append(w, bigs(ch.Gammas...)...)
	w = append(w, bigs(ch.Alphas...)...)
	w = append(w, bigE(ch.Zeta, ch.FriAlpha)...)
	w = append(w, bigE(ch.FriBetas...)...)
	w = append(w, bigs(ch.PowResp)...)
	return append(w, bigs(ch.Indices...)...)
}

func lie(r *rand.Rand, call int) lab.Fault {
	n := eng.LieNames
	return lab.Fault{K: n[r.Intn(len(n))], A: []int{call, r.Intn(1 << 28)}}
}

// operands of a gadget run.
func operands(g *gadget, seed int64, special bool) ([]ref.F, int) {
	r := lab.Rng(seed, "operands")
	xs := make([]ref.F, g.n(r))
	for i := range xs {
		xs[i] = edgeF(r)
	}
	if special && g.mk != nil {
		g.mk(r, xs)
	}
	konst := 0
	if r.Intn(3) == 0 {
		konst = r.Intn(1 << 20)
	}
	return xs, konst
}

// site counting: hint calls grouped by where in the running system they are issued.
func callSite() uint64 {
	var pcs [48]uintptr
	n := runtime.Callers(4, pcs[:])
	h := fnv.New64a()
	var b [8]byte
	for _, p := range pcs[:n] {
		binary.LittleEndian.PutUint64(b[:], uint64(p))
		h.Write(b[:])
	}
	return h.Sum64()
}

// component runs one part of the verifier on a consistent session.
func component(p *lab.Plan) (run func(eng.HintFn) (eng.Outcome, stat), what string) {
	switch p.P["part"] {
	case 0:
		c := ref.Layout(circ.Opts(int64(p.P["circuit"]), circ.Full))
		op, ch, pih := ref.SynthPlonk(lab.Rng(p.Seed, "synth"), c, -1, 0, 0)
		return func(h eng.HintFn) (eng.Outcome, stat) { return plonkOnly(c, op, ch, pih, h) }, "quotient check"
	case 1:
		c := friShape(int64(p.P["circuit"]))
		s := ref.Synthesize(lab.Rng(p.Seed, "synth"), c, nil)
		return func(h eng.HintFn) (eng.Outcome, stat) { return friOnly(s, h) }, "FRI check"
	}
	r := circ.Honest(int64(p.P["circuit"]%16), circ.Tiny, 0)
	return func(h eng.HintFn) (eng.Outcome, stat) {
		return verify(eng.Native, r.In.C, r.Msg, func(e *eng.Engine) { e.Hint = h })
	}, "whole verifier"
}

// pinnedWorld answers one chosen hint call of a consistent session with a lie; any later lie-free
// answer adapts to it. A satisfied circuit would mean the value is the prover's free choice.
func pinnedWorld(p *lab.Plan) *lab.Result {
	run, what := component(p)
	res := &lab.Result{Fired: map[string]int{}}
	sites := map[uint64][]int{}
	var order []uint64
	var hashes []uint64
	acc := uint64(14695981039346656037)
	fold := func(in []*big.Int) uint64 {
		for _, x := range in {
			for _, w := range x.Bits() {
				acc = (acc ^ uint64(w)) * 1099511628211
			}
			acc = (acc ^ 77) * 1099511628211
		}
		return acc
	}
	var honestAns [][]*big.Int
	o, st := run(func(call int, k eng.Kind, in, honest []*big.Int, nOut int) []*big.Int {
		s := callSite()
		if sites[s] == nil {
			order = append(order, s)
		}
		sites[s] = append(sites[s], call)
		hashes = append(hashes, fold(in))
		if honest == nil {
			honest = eng.Fallback(k, in, nOut)
		}
		honestAns = append(honestAns, honest)
		return honest
	})
	res.Steps = int64(st.Ops)
	if o.Unsup {
		return &lab.Result{Err: o.Why}
	}
	if !o.Accept {
		res.Note = "consistent session not accepted (decided by C01)"
		return res
	}
	if len(order) == 0 {
		res.Note = "no hints"
		return res
	}
	sort.Slice(order, func(a, b int) bool { return sites[order[a]][0] < sites[order[b]][0] })
	dg := digest(st)
	for _, f := range p.Faults {
		l := sites[order[f.A[0]%len(order)]]
		target := l[f.A[1]%len(l)]
		fired := map[string]int{}
		inner := liarWith([]lab.Fault{{K: f.K, A: []int{target, f.A[2]}}}, fired, f.A[2]%5)
		var kind eng.Kind
		var ans, inAt []*big.Int
		acc = 14695981039346656037
		last := uint64(0)
		o, st := run(func(call int, k eng.Kind, in, honest []*big.Int, nOut int) []*big.Int {
			last = fold(in)
			a := inner(call, k, in, honest, nOut)
			if call == target {
				kind, ans, inAt = k, a, in
			}
			return a
		})
		res.Subs++
		res.Steps += int64(st.Ops)
		dg = digest(dg, st, say(o))
		if o.Unsup {
			return &lab.Result{Err: o.Why}
		}
		if fired[f.K] == 0 {
			continue
		}
		res.Fired[f.K]++
		res.Fired["hint "+kind.Name]++
		res.Sig = lab.Hash(p.P["part"], order[f.A[0]%len(order)], f.K)
		if !o.Accept {
			continue
		}
		free := false
		switch kind.Name {
		case "muladd", "reduce":
			free = ans[kind.Perm[1]].Cmp(honestAns[target][kind.Perm[1]]) != 0
		case "inverse":
			free = new(big.Int).Mod(inAt[0], eng.P).Sign() != 0
		case "split", "bits":
			free = true
		default:
			free = st.Calls != len(hashes) || last != hashes[len(hashes)-1]
		}
		if free {
			res.Viol = fmt.Sprintf("%s satisfied although hint call %d (%s) answered %v instead of %v [%s]", what, target, kind.Name, ans, honestAns[target], f.K)
			return res
		}
	}
	res.Digest = dg
	res.Note = what + ": every lie caught"
	return res
}

// C04: a lying hint service.
func C04() *lab.Check {
	gadgetExec := func(p *lab.Plan) *lab.Result {
		g := &gadgets[p.P["gadget"]%len(gadgets)]
		xs, konst := operands(g, p.Seed, p.P["special"] == 1)
		want := g.want(xs)
		be := p.P["backend"]
		res := &lab.Result{Fired: map[string]int{}, Note: g.name}
		o, got, st := runGadget(g, be, xs, konst, liar(nil, res.Fired))
		res.Steps = int64(st.Ops)
		if o.Unsup {
			return &lab.Result{Err: o.Why}
		}
		if d := gadgetDiff(g, o, got, want); d != "" {
			res.Viol = fmt.Sprintf("%s%v with truthful hints: %s", g.name, xs, d)
			return res
		}
		if st.Calls == 0 {
			return res
		}
		dg := digest(st)
		try := func(fs []lab.Fault, hint eng.HintFn, fired map[string]int) bool {
			o, got, st := runGadget(g, be, xs, konst, hint)
			res.Subs++
			res.Steps += int64(st.Ops)
			dg = digest(dg, st, say(o))
			for k, v := range fired {
				res.Fired[k] += v
			}
			if len(fired) > 0 {
				res.Sig = lab.Hash(g.name, xs, fs)
			}
			if d := gadgetDiff(g, o, got, want); d != "" {
				res.Viol = fmt.Sprintf("%s%v satisfied with a wrong value under lies %v: %s", g.name, xs, fs, d)
				return true
			}
			return false
		}
		fix := make([]lab.Fault, len(p.Faults))
		for i, f := range p.Faults {
			a := append([]int(nil), f.A...)
			a[0] %= st.Calls
			fix[i] = lab.Fault{K: f.K, A: a}
		}
		if p.P["joint"] == 1 {
			if len(fix) > 0 {
				fired := map[string]int{}
				try(fix, liarWith(fix, fired, p.P["split"]), fired)
			}
		} else {
			for _, f := range fix {
				fired := map[string]int{}
				if try([]lab.Fault{f}, liarWith([]lab.Fault{f}, fired, p.P["split"]), fired) {
					break
				}
			}
		}
		res.Digest = dg
		return res
	}
	var fast, slow []int
	for i := range gadgets {
		if gadgets[i].slow {
			slow = append(slow, i)
		} else {
			fast = append(fast, i)
		}
	}
	gen := func(set []int, n int) func(r *rand.Rand, i int) *lab.Plan {
		return func(r *rand.Rand, i int) *lab.Plan {
			p := &lab.Plan{P: map[string]int{"gadget": set[i%len(set)], "special": r.Intn(3) % 2, "joint": r.Intn(2), "split": r.Intn(5), "backend": eng.Native}}
			if r.Intn(2) == 0 {
				p.P["special"] = 1
			}
			if len(set) == len(fast) && r.Intn(8) == 0 {
				p.P["backend"] = eng.Plain
			}
			if p.P["joint"] == 1 {
				at := r.Intn(1 << 16)
				for k := 1 + r.Intn(3); k > 0; k-- {
					p.Faults = append(p.Faults, lie(r, at))
					at += 1 + r.Intn(3)
				}
				return p
			}
			for k := 0; k < n; k++ {
				p.Faults = append(p.Faults, lie(r, r.Intn(1<<20)))
			}
			return p
		}
	}
	transcript := lab.World{Name: "transcript", Quick: 32, Thorough: 4000,
		Gen: func(r *rand.Rand, i int) *lab.Plan {
			p := &lab.Plan{P: map[string]int{"circuit": r.Intn(16), "class": circ.Tiny, "split": r.Intn(5)}}
			for k := 0; k < 6; k++ {
				p.Faults = append(p.Faults, lie(r, r.Intn(1<<20)))
			}
			return p
		},
		Exec: func(p *lab.Plan) *lab.Result {
			run := honest(p)
			want := wantChallenges(run.In.C, run.Msg)
			res := &lab.Result{Fired: map[string]int{}, Note: "lies caught"}
			o, got, st := getChallenges(run.In.C, run.Msg, nil)
			if o.Unsup {
				return &lab.Result{Err: o.Why}
			}
			if o.Accept && !same(got, want) {
				res.Viol = fmt.Sprintf("challenges with truthful hints are %v instead of %v", got, want)
				return res
			}
			if st.Calls == 0 {
				return res
			}
			dg := digest(st)
			for _, f := range p.Faults {
				f = lab.Fault{K: f.K, A: []int{f.A[0] % st.Calls, f.A[1]}}
				fired := map[string]int{}
				o, got, s2 := getChallenges(run.In.C, run.Msg, liarWith([]lab.Fault{f}, fired, p.P["split"]))
				dg = digest(dg, s2, say(o))
				res.Subs++
				res.Steps += int64(s2.Ops)
				if fired[f.K] > 0 {
					res.Fired[f.K]++
					res.Sig = lab.Hash(p.P, p.Faults)
				}
				if o.Accept && !same(got, want) {
					res.Viol = fmt.Sprintf("wrong challenges under lie %v", f)
					return res
				}
			}
			res.Digest = dg
			return res
		}}
	pinned := lab.World{Name: "pinned", Quick: 150, Thorough: 9000, Exec: pinnedWorld,
		Gen: func(r *rand.Rand, i int) *lab.Plan {
			p := &lab.Plan{P: map[string]int{"circuit": r.Intn(1 << 28), "part": []int{0, 1, 0, 2}[i%4]}}
			for k := 0; k < 10; k++ {
				n := eng.LieNames
				name := n[r.Intn(len(n))]
				if r.Intn(3) == 0 {
					name = []string{"freeR", "freeQ", "shiftQ", "wrap", "plusP", "big"}[r.Intn(6)]
				}
				p.Faults = append(p.Faults, lab.Fault{K: name, A: randArgs(r, 3)})
			}
			return p
		}}
	forge := lab.World{Name: "forge", Quick: 90, Thorough: 6000, Exec: forgeWorld,
		Gen: func(r *rand.Rand, i int) *lab.Plan {
			p := &lab.Plan{P: map[string]int{"shape": r.Intn(1 << 28), "part": i % 3, "cheat": r.Intn(1 << 28)}}
			for k := 0; k < 4; k++ {
				p.Faults = append(p.Faults, lab.Fault{K: "substitute", A: []int{k % 2 * 2, r.Intn(1 << 20)}})
			}
			p.Faults = append(p.Faults, lab.Fault{K: "everything", A: []int{r.Intn(len(eng.LieNames)), r.Intn(1 << 28)}})
			return p
		}}
	return &lab.Check{
		Prop: "C04", Level: "exploration",
		Rule:    "the hint service is an adversarial node: it answers chosen calls with lies (off by one, shifted by the field orders, free quotient or remainder solved for the other, limb carries, stale answers, …) and adapts all later answers; a satisfied run must carry the mathematically correct result; non-trivial: a lie changed an answer",
		Measure: "distinct (operation, operands, lies) and (component, hint call site, lie) tuples",
		Real:    realParts, Stub: stubParts,
		Assumptions: []string{"Inverse of zero reports hasInv=0 and leaves the inverse unspecified"},
		Worlds: []lab.World{
			{Name: "operation", Quick: 50000, Thorough: 3000000, Gen: gen(fast, 10), Exec: gadgetExec},
			{Name: "composite", Quick: 2400, Thorough: 150000, Gen: gen(slow, 6), Exec: gadgetExec},
			{Name: "script", Quick: 15000, Thorough: 400000, Gen: genHistory, Exec: scriptWorld},
			transcript, pinned, forge},
	}
}

// forgeWorld: an invalid session whose prover also controls the hints. It first learns which equality
// fails and with which values, then steers the hint answers towards satisfying it.
func forgeWorld(p *lab.Plan) *lab.Result {
	res := &lab.Result{Fired: map[string]int{}, Note: "rejected"}
	r := lab.Rng(p.Seed, "forge")
	var run func(eng.HintFn, bool) (eng.Outcome, *eng.Engine)
	what := ""
	collect := func(setup func(api frontend.API, e *eng.Engine)) func(eng.HintFn, bool) (eng.Outcome, *eng.Engine) {
		return func(h eng.HintFn, coll bool) (eng.Outcome, *eng.Engine) {
			_, e := eng.New(eng.Native)
			e.Hint, e.Collect = h, coll
			o := e.Run(func(api frontend.API) { setup(api, e) })
			return o, e
		}
	}
	switch p.P["part"] {
	case 0:
		c := friShape(int64(p.P["shape"]))
		kinds := []string{"fold", "fold-other-slot", "final", "pow", "init-leaf", "step-leaf"}
		kind := kinds[p.P["cheat"]%len(kinds)]
		if c.Steps == 0 && kind != "pow" || kind == "pow" && c.PowBits == 0 {
			kind = "final"
		}
		l := 4
		if kind[0] == 's' || kind[:3] == "fol" {
			l = max(c.Steps, 1)
		}
		s := ref.Synthesize(lab.Rng(p.Seed, "synth"), c, &ref.FriCheat{Kind: kind, Q: r.Intn(c.Queries), L: r.Intn(l), Arg: r.Intn(1 << 20), Coord: r.Intn(2), DeltaSel: r.Intn(1 << 20)})
		if !s.Hit {
			return res
		}
		what = "FRI session with " + kind
		run = collect(func(api frontend.API, e *eng.Engine) { friBody(api, e, s) })
	case 1:
		c := ref.Layout(circ.Opts(int64(p.P["shape"]), circ.Wild))
		op, ch, pih := ref.SynthPlonk(lab.Rng(p.Seed, "synth"), c, r.Intn(c.NumChal), r.Intn(2), r.Intn(1<<20))
		what = "openings violating the quotient identity"
		run = collect(func(api frontend.API, e *eng.Engine) { plonkBody(api, e, c, op, ch, pih) })
	default:
		h := circ.Honest(int64(p.P["shape"]%16), circ.Tiny, 0)
		m := h.Msg.Clone()
		slots, _ := ref.Walk(m)
		for {
			s := slots[r.Intn(len(slots))]
			if s.IsField() {
				v := ref.HtoF(s.Get())
				s.Set(ref.FtoH(ref.Add(v, 1+ref.F(r.Intn(1000)))))
				what = "altered " + s.Path
				break
			}
		}
		if h.In.C.Verify(m) == nil {
			return res
		}
		run = collect(func(api frontend.API, e *eng.Engine) { runVerify(api, e, h.In.C, m) })
	}
	o, e := run(liar(nil, map[string]int{}), true)
	if o.Unsup {
		return &lab.Result{Err: o.Why}
	}
	if o.Refused {
		return res
	}
	var eqs []eng.Fail
	for _, f := range e.Fails {
		if f.X.Cmp(&f.Y) != 0 {
			eqs = append(eqs, f)
		}
	}
	if len(e.Fails) == 0 {
		res.Viol = what + " satisfied with truthful hints"
		return res
	}
	res.Steps = int64(e.Ops)
	e.Free()
	dg := digest(len(eqs))
	for _, f := range p.Faults {
		fired := map[string]int{}
		var hint eng.HintFn
		switch f.K {
		case "substitute":
			if len(eqs) == 0 {
				continue
			}
			q := eqs[f.A[1]%len(eqs)]
			from, to := new(big.Int).Set(&q.X), new(big.Int).Set(&q.Y)
			if f.A[1]%3 == 0 {
				from, to = to, from
			}
			hint = substitute(from, to, f.A[0], fired)
		case "everything": // the same lie at every call
			rr := rand.New(rand.NewSource(int64(f.A[1])))
			hint = func(call int, k eng.Kind, in, honest []*big.Int, nOut int) []*big.Int {
				if honest == nil {
					honest = eng.Fallback(k, in, nOut)
				}
				if l := eng.Lie(eng.LieNames[f.A[0]], k, in, honest, nil, nOut, rr); l != nil {
					fired["everything"]++
					return l
				}
				return honest
			}
		}
		o, e := run(hint, false)
		res.Subs++
		res.Steps += int64(e.Ops)
		dg = digest(dg, e.Ops, say(o))
		e.Free()
		for k, v := range fired {
			res.Fired[k] += v
		}
		if len(fired) > 0 {
			res.Sig = lab.Hash(p.P, p.Seed)
		}
		if o.Accept {
			res.Viol = fmt.Sprintf("%s satisfied by lying hints (%v)", what, f)
			return res
		}
	}
	res.Digest = dg
	return res
}
