package checks

import (
	"fmt"
	"math/rand"

	"github.com/consensys/gnark/frontend"
	"github.com/succinctlabs/gnark-plonky2-verifier/verifier"

	"verif/sim/br"
	"verif/sim/circ"
	"verif/sim/eng"
	"verif/sim/lab"
	"verif/sim/ref"
)

func mustAccept(o eng.Outcome, what string) *lab.Result {
	if o.Unsup {
		return &lab.Result{Err: "builder feature not simulated: " + o.Why}
	}
	if !o.Accept {
		return &lab.Result{Viol: fmt.Sprintf("honest proof not accepted (%s): %s", what, say(o))}
	}
	return &lab.Result{Note: "accepted"}
}

// C01: completeness.
func C01() *lab.Check {
	honestWorld := func(p *lab.Plan) *lab.Result {
		run := honest(p)
		be := p.P["backend"]
		o, st := verify(be, run.In.C, run.Msg, nil)
		if be == eng.Commit && o.Refused {
			// the batched back end documents that it only supports large circuits: a refusal is not a rejection
			return &lab.Result{Note: "refused (batched back end, small circuit)", Sig: "", Steps: int64(st.Ops)}
		}
		r := mustAccept(o, eng.BackendName[be]+" "+circ.Describe(run.In.C))
		r.Steps, r.Digest = int64(st.Ops), digest(st, o.Accept)
		r.Sig = lab.Hash(be, circ.Params(run.In.C), p.P["session"])
		return r
	}
	return &lab.Check{
		Prop: "C01", Level: "exploration",
		Rule:    "each run draws a circuit (gates and their parameters, selector layout, degree, rate, FRI steps, queries, challenges, proof-of-work bits, public inputs), an honest witness and session from its seed, and executes the whole verifier circuit in a simulated builder; non-trivial: the verifier ran to completion",
		Measure: "distinct (back end, circuit parameters, session) tuples",
		Real:    realParts, Stub: stubParts,
		Assumptions: []string{"the reference prover follows plonky2 (cross-checked: the reference verifier accepts the recorded proofs of testdata and every generated proof)"},
		Worlds: []lab.World{
			{Name: "generated", Quick: 130, Thorough: 6000, Exec: honestWorld, Gen: func(r *rand.Rand, i int) *lab.Plan {
				cls := []int{circ.Wild, circ.Tiny, circ.Wild, circ.Full, circ.Wild, circ.Deep, circ.Wild, circ.Full}[i%8]
				if i%64 == 5 {
					cls = circ.Abyss
				}
				return &lab.Plan{P: map[string]int{"circuit": r.Intn(1 << 30), "class": cls, "session": 0, "backend": eng.Native}}
			}},
			{Name: "bit-decomposition", Quick: 4, Thorough: 120, NoRerun: true, Exec: honestWorld, Gen: func(r *rand.Rand, i int) *lab.Plan {
				return &lab.Plan{P: map[string]int{"circuit": r.Intn(1 << 30), "class": circ.Tiny, "backend": eng.Plain}}
			}},
			{Name: "batched", Quick: 6, Thorough: 200, NoRerun: true, Exec: honestWorld, Gen: func(r *rand.Rand, i int) *lab.Plan {
				seed, cls := r.Intn(1<<30), circ.Full
				for circ.Opts(int64(seed), cls).PowBits != 0 {
					seed++
				}
				return &lab.Plan{P: map[string]int{"circuit": seed, "class": cls, "backend": eng.Commit}}
			}},
			{Name: "recorded", Quick: 5, Thorough: 6, NoRerun: true, Gen: func(r *rand.Rand, i int) *lab.Plan {
				return &lab.Plan{P: map[string]int{"proof": i % 2, "backend": []int{eng.Native, eng.Native, eng.Commit, eng.Commit, eng.Plain, eng.Plain}[i]}}
			}, Exec: func(p *lab.Plan) *lab.Result {
				n := []string{"decode_block", "step"}[p.P["proof"]]
				c, m, err := br.Load("/repo/testdata/" + n)
				if err != nil {
					return &lab.Result{Err: err.Error()}
				}
				if err := c.Verify(m); err != nil {
					return &lab.Result{Err: "reference verifier rejects recorded proof: " + err.Error()}
				}
				o, st := verify(p.P["backend"], c, m, nil)
				r := mustAccept(o, eng.BackendName[p.P["backend"]]+" recorded "+n)
				r.Sig, r.Steps, r.Digest = fmt.Sprint(n, p.P["backend"]), int64(st.Ops), digest(st)
				return r
			}},
			{Name: "operations", Quick: 12000, Thorough: 600000, Gen: func(r *rand.Rand, i int) *lab.Plan {
				p := &lab.Plan{P: map[string]int{"gadget": i % len(gadgets), "special": r.Intn(2), "backend": eng.Native}}
				if r.Intn(6) == 0 {
					p.P["backend"] = eng.Plain
				}
				return p
			}, Exec: func(p *lab.Plan) *lab.Result {
				g := &gadgets[p.P["gadget"]]
				xs, konst := operands(g, p.Seed, p.P["special"] == 1)
				want := g.want(xs)
				o, got, st := runGadget(g, p.P["backend"], xs, konst, nil)
				if o.Unsup {
					return &lab.Result{Err: o.Why}
				}
				if want == nil {
					return &lab.Result{Note: "outside the domain"}
				}
				res := &lab.Result{Note: "satisfied", Steps: int64(st.Ops), Digest: digest(st), Sig: lab.Hash(g.name, xs)}
				if !o.Accept {
					res.Viol = fmt.Sprintf("%s%v is not satisfiable with truthful hints: %s", g.name, xs, say(o))
				} else if d := gadgetDiff(g, o, got, want); d != "" {
					res.Viol = fmt.Sprintf("%s%v: %s", g.name, xs, d)
				}
				return res
			}},
			{Name: "history", Quick: 30, Thorough: 1500, Exec: historyWorld, Gen: func(r *rand.Rand, i int) *lab.Plan {
				p := &lab.Plan{P: map[string]int{}}
				n := 2 + r.Intn(3)
				for k := 0; k < n; k++ {
					p.Faults = append(p.Faults, lab.Fault{K: []string{"same-builder", "new-builder", "reject-first", "abort-build"}[r.Intn(4)], A: []int{r.Intn(1 << 30), circ.Tiny, r.Intn(3)}})
				}
				return p
			}},
			{Name: "layouts", Quick: 24, Thorough: 1200, Exec: layoutWorld, Gen: func(r *rand.Rand, i int) *lab.Plan {
				p := &lab.Plan{P: map[string]int{"circuit": r.Intn(1 << 30), "class": i % 2, "session": 0}}
				for _, k := range [][]string{{"carve"}, {"roomy"}, {"twice"}, {"carve", "twice"}, {"roomy", "twice"}}[i%5] {
					p.Faults = append(p.Faults, lab.Fault{K: k, A: []int{r.Intn(1 << 30)}})
				}
				return p
			}},
			{Name: "gnark-builder", Quick: 6, Thorough: 60, Weight: 4, NoRerun: true, Exec: gnarkWorld, Gen: func(r *rand.Rand, i int) *lab.Plan {
				seed := r.Intn(1 << 30)
				for circ.Opts(int64(seed), circ.Tiny).PowBits != 0 {
					seed++
				}
				return &lab.Plan{P: map[string]int{"circuit": seed, "class": circ.Tiny, "scs": i % 2}}
			}},
		},
	}
}

// historyWorld verifies several sessions one after another, some in one builder, with failing builds in between.
func historyWorld(p *lab.Plan) *lab.Result {
	res := &lab.Result{Note: "accepted", Fired: map[string]int{}}
	_, e := eng.New(eng.Native)
	sig := ""
	for i, f := range p.Faults {
		run := circ.Honest(int64(f.A[0]), f.A[1], int64(f.A[2]))
		res.Fired[f.K]++
		sig += f.K
		switch f.K {
		case "new-builder":
			_, e = eng.New(eng.Native)
		case "reject-first":
			m := run.Msg.Clone()
			m.Proof.Op.Wires[0][0].SetUint64(uint64(i) + 77)
			if o, _ := verify(eng.Native, run.In.C, m, nil); o.Accept {
				return &lab.Result{Note: "altered message accepted (decided by C02)"}
			}
		case "abort-build":
			_, e2 := eng.New(eng.Native)
			n := 0
			e2.RangeFail = func(int) bool { n++; return n > 50 }
			e2.Run(func(api frontend.API) { runVerify(api, e2, run.In.C, run.Msg) })
			e2.Free()
		}
		o := e.Run(func(api frontend.API) { runVerify(api, e, run.In.C, run.Msg) })
		if r := mustAccept(o, fmt.Sprintf("session %d of history %s: %s", i, sig, circ.Describe(run.In.C))); r.Viol != "" || r.Err != "" {
			return r
		}
		res.Steps = int64(e.Ops)
		res.Subs++
	}
	res.Sig = lab.Hash(p.Faults)
	res.Digest = digest(e.Ops, e.Calls)
	e.Free()
	return res
}

func runVerify(api frontend.API, e *eng.Engine, c *ref.Common, m *ref.Msg) {
	mk := br.Mk(e)
	pr, pi, vd := br.Proof(mk, &m.Proof), br.Fs(mk, m.PIs), br.VData(mk, &m.VD)
	verifier.NewVerifierChip(api, br.Common(c)).Verify(pr, pi, vd)
}
