package checks

import (
	"fmt"
	"math/rand"
	"strings"

	"github.com/consensys/gnark/frontend"
	"github.com/succinctlabs/gnark-plonky2-verifier/fri"
	"github.com/succinctlabs/gnark-plonky2-verifier/plonk"
	"github.com/succinctlabs/gnark-plonky2-verifier/poseidon"
	"github.com/succinctlabs/gnark-plonky2-verifier/variables"

	"verif/sim/br"
	"verif/sim/circ"
	"verif/sim/eng"
	"verif/sim/lab"
	"verif/sim/ref"
)

// friOnly runs the FRI verifier with rigged coins.
func friOnly(s *ref.Synth, hint eng.HintFn) (eng.Outcome, stat) {
	_, e := eng.New(eng.Native)
	e.Hint = hint
	o := e.Run(func(api frontend.API) { friBody(api, e, s) })
	st := stat{e.Ops, e.Calls, e.Digest}
	e.Free()
	return o, st
}

// plonkOnly runs the quotient identity check with rigged coins.
func plonkOnly(c *ref.Common, op *ref.Openings, ch *ref.Challenges, pih [4]ref.F, hint eng.HintFn) (eng.Outcome, stat) {
	_, e := eng.New(eng.Native)
	e.Hint = hint
	o := e.Run(func(api frontend.API) { plonkBody(api, e, c, op, ch, pih) })
	st := stat{e.Ops, e.Calls, e.Digest}
	e.Free()
	return o, st
}

func friBody(api frontend.API, e *eng.Engine, s *ref.Synth) {
	mk := br.Mk(e)
	cd := br.Common(s.C)
	chip := fri.NewChip(api, &cd, &cd.FriParams)
	op := br.Openings(mk, &s.Op)
	ch := br.FriChallenges(mk, s.Ch)
	fp := br.Fri(mk, &s.Fri)
	var caps []variables.FriMerkleCap
	for _, c := range s.Caps {
		caps = append(caps, br.Hashes(mk, c))
	}
	chip.VerifyFriProof(chip.GetInstance(br.E(mk, s.Ch.Zeta)), chip.ToOpenings(op), &ch, caps, &fp)
}

func plonkBody(api frontend.API, e *eng.Engine, c *ref.Common, op *ref.Openings, ch *ref.Challenges, pih [4]ref.F) {
	mk := br.Mk(e)
	chip := plonk.NewPlonkChip(api, br.Common(c))
	var h poseidon.GoldilocksHashOut
	copy(h[:], br.Fs(mk, pih[:]))
	chip.Verify(br.Challenges(mk, ch), br.Openings(mk, op), h)
}

// friShape draws a small FRI configuration from a seed.
func friShape(seed int64) *ref.Common {
	r := lab.Rng(seed, "fri-shape")
	for {
		c := &ref.Common{D: 2 + r.Intn(9), RateBits: 1 + r.Intn(4), PowBits: []int{0, 1, 7, 16, 20}[r.Intn(5)], Queries: 1 + r.Intn(3), NumChal: 1 + r.Intn(3), QDF: 1 + r.Intn(4), NumPP: r.Intn(3), NumWires: 1 + r.Intn(6), Routed: 1 + r.Intn(4), NumConsts: 1 + r.Intn(3)}
		c.Steps = r.Intn(3)
		switch r.Intn(12) {
		case 0:
			c.Steps, c.D = 3, 12+r.Intn(3)
		case 1:
			c.Queries = 4 + r.Intn(13)
		case 2:
			c.PowBits = 21 + r.Intn(40)
		case 3: // as large as circuits get
			c.D, c.Queries = 15+r.Intn(14), 1+r.Intn(2)
			c.RateBits = 1 + r.Intn(min(8, 32-c.D))
			c.Steps = c.D / 4
			if c.D%4 > 1 || r.Intn(2) == 0 && c.D%4 == 1 {
				c.Steps = (c.D - 1) / 4
			}
		}
		if c.D-4*c.Steps < 0 || c.LdeBits()-4*c.Steps < 4 || c.FinalLen() < c.Queries || c.FinalLen() > 32 {
			continue
		}
		return c
	}
}

var friCheats = []string{"init-index", "init-leaf", "init-sibling", "init-cap", "fold", "fold-other-slot", "step-leaf", "step-index", "step-sibling", "step-cap", "final", "final-pair", "pow"}

func decide(o eng.Outcome, want error, what string, res *lab.Result) *lab.Result {
	if o.Unsup {
		return &lab.Result{Err: o.Why}
	}
	if want != nil && o.Accept {
		res.Viol = fmt.Sprintf("cheating prover accepted: %s (specification: %v)", what, want)
	}
	if want == nil && !o.Accept {
		res.Viol = fmt.Sprintf("consistent session not accepted: %s: %s", what, say(o))
	}
	res.Note = verdict(o)
	return res
}

// C03: Byzantine provers.
func C03() *lab.Check {
	friWorld := lab.World{Name: "fri-rigged-coins", Quick: 910, Thorough: 30000,
		Gen: func(r *rand.Rand, i int) *lab.Plan {
			p := &lab.Plan{P: map[string]int{"shape": r.Intn(1 << 28)}}
			kind := friCheats[i%len(friCheats)]
			for {
				c := friShape(int64(p.P["shape"]))
				lmax := 4
				if kind[0] == 's' || strings.HasPrefix(kind, "fold") {
					lmax = c.Steps
				}
				if lmax == 0 || kind == "final-pair" && c.Queries == 1 || kind == "pow" && c.PowBits == 0 {
					p.P["shape"]++
					continue
				}
				p.Faults = []lab.Fault{{K: kind, A: []int{r.Intn(c.Queries), r.Intn(lmax), r.Intn(1 << 20), r.Intn(6), r.Intn(1 << 20)}}}
				break
			}
			if i%17 == 16 {
				p.Faults = nil
			}
			return p
		},
		Exec: func(p *lab.Plan) *lab.Result {
			c := friShape(int64(p.P["shape"]))
			res := &lab.Result{Fired: map[string]int{}}
			var ch *ref.FriCheat
			what := "no deviation"
			if len(p.Faults) > 0 {
				f := p.Faults[0]
				ch = &ref.FriCheat{Kind: f.K, Q: f.A[0], L: f.A[1], Arg: f.A[2], Coord: f.A[3], DeltaSel: f.A[4]}
				what = fmt.Sprintf("%s query %d of %d, layer/oracle %d of %d, position %d, coordinate %d", f.K, f.A[0], c.Queries, f.A[1], c.Steps, f.A[2], f.A[3])
			}
			s := ref.Synthesize(lab.Rng(p.Seed, "synth"), c, ch)
			want := c.FriCheck(ref.XstoE(s.Op.Batch0()), ref.XstoE(s.Op.ZsNext), s.Ch, s.Caps, &s.Fri)
			if ch != nil && s.Hit {
				res.Fired[ch.Kind]++
				res.Sig = lab.Hash(p.P, what)
			} else if want != nil {
				return &lab.Result{Err: "reference rejects a consistent session: " + want.Error()}
			}
			o, st := friOnly(s, nil)
			res.Steps, res.Digest = int64(st.Ops), digest(st, say(o))
			return decide(o, want, fmt.Sprintf("%s (d%d r%d steps%d q%d pow%d)", what, c.D, c.RateBits, c.Steps, c.Queries, c.PowBits), res)
		}}
	plonkWorld := lab.World{Name: "quotient-rigged-coins", Quick: 330, Thorough: 8000,
		Gen: func(r *rand.Rand, i int) *lab.Plan {
			p := &lab.Plan{P: map[string]int{"circuit": r.Intn(1 << 28), "class": i % 3}}
			o := circ.Opts(int64(p.P["circuit"]), i%3)
			if r.Intn(6) > 0 {
				p.Faults = []lab.Fault{{K: "identity", A: []int{r.Intn(o.NumChal), r.Intn(6), r.Intn(1 << 20)}}}
				if r.Intn(4) == 0 {
					p.Faults[0].A = append(p.Faults[0].A, r.Intn(16))
				}
			}
			return p
		},
		Exec: func(p *lab.Plan) *lab.Result {
			c := ref.Layout(circ.Opts(int64(p.P["circuit"]), p.P["class"]))
			k, co, sel := -1, 0, 0
			var pair []int
			res := &lab.Result{Fired: map[string]int{}}
			if len(p.Faults) > 0 {
				k, co, sel = p.Faults[0].A[0], p.Faults[0].A[1], p.Faults[0].A[2]
				pair = p.Faults[0].A[3:]
				res.Fired["identity"]++
				res.Sig = lab.Hash(circ.Params(c), k, co)
			}
			op, ch, pih := ref.SynthPlonk(lab.Rng(p.Seed, "synth"), c, k, co, sel, pair...)
			want := c.PlonkCheck(op, ch, pih)
			if (want == nil) != (k < 0) {
				return &lab.Result{Err: fmt.Sprint("reference disagrees with the construction: ", want)}
			}
			o, st := plonkOnly(c, op, ch, pih, nil)
			res.Steps, res.Digest = int64(st.Ops), digest(st, say(o))
			return decide(o, want, fmt.Sprintf("quotient identity broken for challenge %d of %d in coordinate %d: %s", k, c.NumChal, co, circ.Describe(c)), res)
		}}
	return &lab.Check{
		Prop: "C03", Level: "exploration",
		Rule:    "an adversarial prover node deviates at one protocol step chosen by the seed and makes everything it sends afterwards consistent; in the rigged-coins worlds it also knows the verifier's coins, so exactly one verifier check can notice; non-trivial: the deviation took effect",
		Measure: "distinct (shape, deviation, query, layer, position, coordinate) tuples",
		Real:    realParts, Stub: stubParts,
		Assumptions: []string{"the reference verifier implements the plonky2 specification"},
		Worlds:      []lab.World{friWorld, plonkWorld, byzantineWorld()},
	}
}

var byzKinds = []string{"gate-wire", "copy", "z-start", "z-row", "partial-product", "quotient", "opening", "fri-layer", "fri-fold", "final-poly", "pow-missing", "false-public-inputs", "constant-opening", "sibling", "leaf"}

// byzantineWorld runs the whole protocol with Fiat-Shamir coins against a deviating prover.
func byzantineWorld() lab.World {
	return lab.World{Name: "byzantine-session", Quick: 210, Thorough: 15000,
		Gen: func(r *rand.Rand, i int) *lab.Plan {
			base := r.Intn(40)
			kind := byzKinds[i%len(byzKinds)]
			for {
				o := circ.Opts(int64(base), circ.Tiny)
				if (kind == "fri-layer" || kind == "fri-fold") && o.Steps == 0 || kind == "pow-missing" && o.PowBits == 0 || kind == "false-public-inputs" && o.NumPI == 0 {
					base++
					continue
				}
				break
			}
			cls := circ.Tiny
			if i%13 == 7 && kind != "pow-missing" && kind != "false-public-inputs" || kind[:3] == "fri" && i/len(byzKinds)%3 == 1 {
				cls, base = circ.Deep, base%12
			}
			return &lab.Plan{P: map[string]int{"circuit": base, "class": cls}, Faults: []lab.Fault{{K: kind, A: randArgs(r, 4)}}}
		},
		Exec: func(p *lab.Plan) *lab.Result {
			in := circ.Get(int64(p.P["circuit"]), p.P["class"])
			c := in.C
			res := &lab.Result{Fired: map[string]int{}}
			hk := &ref.Hooks{}
			what := ""
			after := func(m *ref.Msg) {}
			for _, f := range p.Faults {
				a := f.A
				d := ref.F(a[3])%(ref.P-1) + 1
				res.Fired[f.K]++
				what += f.K + " "
				switch f.K {
				case "gate-wire":
					hk.Wires = func(w [][]ref.F) {
						row := a[0] % c.N()
						g := c.Gates[in.RowG[row]]
						col := 0
						if g.NumWires() > 0 {
							col = a[1] % g.NumWires()
						}
						w[col][row] = ref.Add(w[col][row], d)
					}
				case "copy":
					hk.Wires = func(w [][]ref.F) {
						row := a[0] % c.N()
						w[a[1]%c.Routed][row] = ref.Add(w[a[1]%c.Routed][row], d)
					}
				case "z-start":
					hk.Zs = func(z, pp [][]ref.F) {
						k := a[0] % c.NumChal
						s := d%(ref.P-2) + 2
						for i := range z[k] {
							z[k][i] = ref.Mul(z[k][i], s)
						}
						for i := 0; i < c.NumPP; i++ {
							for j := range pp[k*c.NumPP+i] {
								pp[k*c.NumPP+i][j] = ref.Mul(pp[k*c.NumPP+i][j], s)
							}
						}
					}
				case "z-row":
					hk.Zs = func(z, pp [][]ref.F) {
						k, i := a[0]%c.NumChal, 1+a[1]%(c.N()-1)
						z[k][i] = ref.Add(z[k][i], d)
					}
				case "partial-product":
					hk.Zs = func(z, pp [][]ref.F) {
						if len(pp) == 0 { // the accumulator alone carries the product
							pp = z
						}
						k, i := a[0]%len(pp), a[1]%c.N()
						pp[k][i] = ref.Add(pp[k][i], d)
					}
				case "quotient":
					hk.Quot = func(q [][]ref.F) {
						k, i := a[0]%len(q), a[1]%len(q[0])
						q[k][i] = ref.Add(q[k][i], d)
					}
				case "opening", "constant-opening":
					hk.Openings = func(o *ref.Openings, ch *ref.Challenges) {
						ls := [][]ref.X{o.Constants, o.Sigmas, o.Wires, o.Zs, o.ZsNext, o.PPs, o.Quot}
						l := ls[a[0]%len(ls)]
						if f.K == "constant-opening" {
							l = o.Constants
						}
						if len(l) == 0 {
							l = o.Quot
						}
						x := &l[a[1]%len(l)][a[2]%2]
						*x = ref.FtoH(ref.Add(ref.HtoF(*x), d))
					}
				case "fri-layer": // commit to another low-degree function
					hk.FriValues = func(k int, shift ref.F, v []ref.E) {
						if k == a[0]%c.Steps {
							for i := range v {
								v[i][a[1]%2] = ref.Add(v[i][a[1]%2], d)
							}
						}
					}
				case "fri-fold":
					hk.FriCoefs = func(k int, co []ref.E, beta ref.E) {
						if k == a[0]%c.Steps {
							co[a[2]%c.FinalLen()][a[1]%2] = ref.Add(co[a[2]%c.FinalLen()][a[1]%2], d)
						}
					}
				case "final-poly":
					hk.Final = func(x []ref.X) {
						y := &x[a[0]%len(x)][a[1]%2]
						*y = ref.FtoH(ref.Add(ref.HtoF(*y), d))
					}
				case "pow-missing":
					hk.Pow = func(ok func(ref.F) bool) ref.F {
						v := ref.F(a[0])
						for ok(v) {
							v++
						}
						return v
					}
				case "false-public-inputs": // claims public inputs the witness was not built for
					after = func(m *ref.Msg) {}
					q := *in
					q.PIs = append([]ref.F(nil), in.PIs...)
					q.PIs[a[0]%len(q.PIs)] = ref.Add(q.PIs[a[0]%len(q.PIs)], d)
					if a[1]%2 == 0 {
						h := ref.PIHash(in.PIs)
						hk.PISwap = &h
					}
					in = &q
				case "sibling":
					hk.Response = func(q, x int, out *ref.Query) {
						if q != a[0]%c.Queries {
							return
						}
						if len(out.Steps) > 0 && a[1]%2 == 0 {
							s := &out.Steps[a[2]%len(out.Steps)]
							if len(s.Sib) > 0 {
								s.Sib[a[3]%len(s.Sib)].SetUint64(uint64(a[3]))
								return
							}
						}
						l := &out.Init[a[2]%4]
						if len(l.Sib) == 0 { // the leaf is itself in the cap
							l.Leaf[a[3]%len(l.Leaf)].SetUint64(uint64(a[3]))
							return
						}
						l.Sib[a[3]%len(l.Sib)].SetUint64(uint64(a[3]))
					}
				case "leaf":
					hk.Response = func(q, x int, out *ref.Query) {
						if q == a[0]%c.Queries {
							l := out.Init[a[1]%4].Leaf
							l[a[2]%len(l)] = ref.FtoH(ref.Add(ref.HtoF(l[a[2]%len(l)]), d))
						}
					}
				}
			}
			run := in.Prove(lab.Rng(p.Seed, "prove"), hk)
			after(run.Msg)
			want := c.Verify(run.Msg)
			if want != nil {
				res.Sig = lab.Hash(p.P, p.Faults)
				what += "(" + want.Error() + ")"
			}
			o, st := verify(eng.Native, c, run.Msg, nil)
			res.Steps, res.Digest = int64(st.Ops), digest(st, say(o))
			return decide(o, want, what+" "+circ.Describe(c), res)
		}}
}
