package checks

import (
	"fmt"
	"math/big"
	"math/rand"
	"sort"
	"strings"

	"github.com/consensys/gnark/frontend"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"

	"verif/sim/circ"
	"verif/sim/eng"
	"verif/sim/lab"
	"verif/sim/ref"
)

var pH = func() ref.H { var h ref.H; h.SetUint64(ref.P); return h }()

// repr is another representative of the same residue: v + k*p.
func repr(v ref.F, k *big.Int) ref.H {
	b := new(big.Int).Mul(k, eng.P)
	b.Add(b, new(big.Int).SetUint64(v))
	var h ref.H
	h.SetBigInt(b)
	return h
}

func failSet(c *ref.Common, m *ref.Msg) (map[string]int, eng.Outcome, int) {
	_, e := eng.New(eng.Native)
	e.Collect = true
	o := e.Run(func(api frontend.API) { runVerify(api, e, c, m) })
	s := map[string]int{}
	for _, f := range e.Fails {
		s[fmt.Sprint(f.At, f.Kind)]++
	}
	ops := e.Ops
	e.Free()
	return s, o, ops
}

// proofFields lists the Goldilocks elements of the proof proper.
func proofFields(m *ref.Msg) []ref.Slot {
	slots, _ := ref.Walk(m)
	var o []ref.Slot
	for _, s := range slots {
		if s.IsField() && !strings.HasPrefix(s.Class, ".PIs") {
			o = append(o, s)
		}
	}
	return o
}

// blankShape draws shapes beyond those the reference prover can afford.
func blankShape(seed int64) *ref.Common {
	r := lab.Rng(seed, "blank-shape")
	o := circ.Opts(seed, circ.Tiny)
	switch r.Intn(3) {
	case 0: // deep
		o.D, o.Queries = 8+r.Intn(18), 1+r.Intn(2)
		o.RateBits = 1 + r.Intn(min(6, 31-o.D))
	case 1: // wide
		o.Queries = 20 + r.Intn(25)
	case 2: // long final polynomial
		o.D, o.Steps, o.RateBits = 6+r.Intn(4), 0, 1+r.Intn(3)
		return ref.Layout(o)
	}
	for k := 0; o.D-4*k >= 0 && o.D+o.RateBits-4*k >= 4; k++ {
		o.Steps = k
	}
	return ref.Layout(o)
}

// sweepExec re-encodes every element of a proof. One execution re-encodes all of them, further ones
// half of them each, so that every violated constraint is attributed to one element; an element no
// constraint objects to is confirmed alone.
func sweepExec(p *lab.Plan) *lab.Result {
	var c *ref.Common
	var msg *ref.Msg
	if p.P["blank"] == 1 { // any shape: the sweep does not need a valid proof
		c = blankShape(int64(p.P["circuit"]))
		msg = ref.Blank(lab.Rng(p.Seed, "blank"), c)
		if err := c.Shape(msg); err != nil {
			return &lab.Result{Err: "blank message: " + err.Error()}
		}
	} else {
		run := honest(p)
		c, msg = run.In.C, run.Msg
	}
	res := &lab.Result{Fired: map[string]int{}}
	n := len(proofFields(msg))
	r := lab.Rng(p.Seed, "values")
	vs := make([]ref.F, n)
	for i := range vs {
		vs[i] = []ref.F{0, 1, 1<<32 - 2, ref.F(r.Uint32() / 2), ref.F(r.Uint32() / 2)}[r.Intn(5)]
	}
	mk := func(alt func(i int) bool) *ref.Msg {
		m := msg.Clone()
		for i, s := range proofFields(m) {
			h := ref.FtoH(vs[i])
			if alt(i) {
				h.Add(&h, &pH)
			}
			s.Set(h)
		}
		return m
	}
	dg := uint64(0)
	exec := func(alt func(i int) bool) (map[string]int, eng.Outcome) {
		f, o, ops := failSet(c, mk(alt))
		res.Subs++
		res.Steps += int64(ops)
		dg = digest(dg, ops, len(f), say(o))
		return f, o
	}
	base, o := exec(func(int) bool { return false })
	if o.Unsup {
		return &lab.Result{Err: o.Why}
	}
	if o.Refused {
		return &lab.Result{Note: "refused"}
	}
	all, o := exec(func(int) bool { return true })
	if o.Refused {
		return &lab.Result{Note: "refused"}
	}
	code := map[string]int{}
	for k := range all {
		if base[k] == 0 {
			code[k] = 0
		}
	}
	for b := 0; 1<<b < n; b++ {
		f, o := exec(func(i int) bool { return i>>b&1 == 1 })
		if o.Refused {
			return &lab.Result{Note: "refused"}
		}
		for k := range code {
			if f[k] > 0 {
				code[k] |= 1 << b
			}
		}
	}
	seen := map[int]bool{}
	for _, v := range code {
		seen[v] = true
	}
	res.Fired["re-encode"] = n
	res.Sig = lab.Hash(p.P, p.Seed)
	res.Note = "every element objected to"
	var miss []int
	for i := 0; i < n; i++ {
		if !seen[i] {
			miss = append(miss, i)
		}
	}
	sort.Ints(miss)
	for k, i := range miss {
		if k >= 6 {
			break
		}
		f, o := exec(func(j int) bool { return j == i })
		if o.Refused {
			continue
		}
		bad := false
		for k := range f {
			if base[k] == 0 {
				bad = true
			}
		}
		if !bad {
			res.Viol = fmt.Sprintf("no constraint distinguishes %s = %d from its non-canonical encoding %d + p (%s)", proofFields(msg)[i].Path, vs[i], vs[i], circ.Describe(c))
			return res
		}
	}
	res.Digest = dg
	return res
}

// C05: non-canonical encodings.
func C05() *lab.Check {
	sweep := lab.World{Name: "sweep", Quick: 24, Thorough: 900, Exec: sweepExec,
		Gen: func(r *rand.Rand, i int) *lab.Plan {
			p := &lab.Plan{P: map[string]int{"circuit": r.Intn(1 << 20), "class": circ.Tiny, "session": 0}}
			if i%4 == 3 {
				p.P["class"] = circ.Wild
				for o := circ.Opts(int64(p.P["circuit"]), circ.Wild); o.D > 6; o = circ.Opts(int64(p.P["circuit"]), circ.Wild) {
					p.P["circuit"]++
				}
			}
			if i%6 == 1 {
				p.P["class"] = circ.Deep
			}
			if i%3 == 2 {
				p.P["blank"] = 1
			}
			return p
		}}
	// a prover that commits to the altered encoding and continues consistently
	consistent := lab.World{Name: "consistent-prover", Quick: 120, Thorough: 8000,
		Gen: func(r *rand.Rand, i int) *lab.Plan {
			kind := []string{"opening", "leaf", "step", "final", "pow"}[i%5]
			base := r.Intn(40)
			for kind == "step" && circ.Opts(int64(base), circ.Tiny).Steps == 0 {
				base++
			}
			cls := circ.Tiny
			if kind == "step" && i%2 == 0 || i%20 == 3 {
				cls, base = circ.Deep, base%12
			}
			return &lab.Plan{P: map[string]int{"circuit": base, "class": cls}, Faults: []lab.Fault{{K: kind, A: append(randArgs(r, 4), r.Intn(6))}}}
		},
		Exec: func(p *lab.Plan) *lab.Result {
			in := circ.Get(int64(p.P["circuit"]), p.P["class"])
			c := in.C
			res := &lab.Result{Fired: map[string]int{}}
			hk := &ref.Hooks{}
			hit := false
			what := ""
			for _, f := range p.Faults {
				a := f.A
				mult := big.NewInt(1)
				switch a[4] {
				case 4:
					mult.SetInt64(int64(1 + a[0]%5))
				case 5:
					mult.Lsh(mult, uint(a[0]%180))
				}
				enc := func(v ref.F) ref.H { hit = true; return repr(v, mult) }
				what = f.K
				switch f.K {
				case "opening":
					hk.Openings = func(o *ref.Openings, ch *ref.Challenges) {
						ls := [][]ref.X{o.Constants, o.Sigmas, o.Wires, o.Zs, o.ZsNext, o.PPs, o.Quot}
						l := ls[a[1]%len(ls)]
						if len(l) == 0 {
							l = o.Wires
						}
						x := &l[a[2]%len(l)][a[3]%2]
						*x = enc(ref.HtoF(*x))
					}
				case "final":
					hk.Final = func(x []ref.X) {
						y := &x[a[2]%len(x)][a[3]%2]
						*y = enc(ref.HtoF(*y))
					}
				case "pow":
					hk.EncPow = enc
				case "leaf":
					or := a[1] % 4
					col := a[2] % c.Widths()[or]
					hk.Enc = func(o, cl, leaf int, v ref.F) ref.H {
						if o == or && cl == col {
							return enc(v)
						}
						return ref.FtoH(v)
					}
				case "step":
					hk.EncStep = func(step, leaf, j, coord int, v ref.F) ref.H {
						if step == a[1]%c.Steps && j == a[2]%16 && coord == a[3]%2 {
							return enc(v)
						}
						return ref.FtoH(v)
					}
				}
			}
			// prefer a residue with a short second representative where the prover can choose it
			run := in.Prove(lab.Rng(p.Seed, "prove"), hk)
			want := c.Verify(run.Msg)
			if hit {
				res.Fired[what]++
				res.Sig = lab.Hash(p.P, p.Faults)
			}
			o, st := verify(eng.Native, c, run.Msg, nil)
			res.Steps, res.Digest = int64(st.Ops), digest(st, say(o))
			if o.Unsup {
				return &lab.Result{Err: o.Why}
			}
			res.Note = verdict(o)
			if want != nil && o.Accept {
				res.Viol = fmt.Sprintf("proof with a non-canonical %s accepted: %v (%s)", what, p.Faults, circ.Describe(c))
			}
			return res
		}}
	// the range check itself at the boundaries, with a prover choosing the limbs
	gate := lab.World{Name: "range-check", Quick: 4000, Thorough: 200000,
		Gen: func(r *rand.Rand, i int) *lab.Plan {
			return &lab.Plan{P: map[string]int{"value": r.Intn(12), "split": r.Intn(5), "backend": []int{eng.Native, eng.Native, eng.Plain}[r.Intn(3)], "form": r.Intn(2)}, Faults: []lab.Fault{lie(r, r.Intn(3))}}
		},
		Exec: func(p *lab.Plan) *lab.Result {
			r := lab.Rng(p.Seed, "value")
			x := new(big.Int)
			one := big.NewInt(1)
			switch p.P["value"] {
			case 0:
				x.SetUint64(edgeF(r))
			case 1:
				x.SetUint64(ref.P + uint64(r.Intn(3)))
			case 2:
				x.SetUint64(ref.P + uint64(small(r)))
				if x.Cmp(new(big.Int).Lsh(one, 64)) >= 0 {
					x.SetUint64(^uint64(0))
				}
			case 3:
				x.Lsh(one, 64).Add(x, big.NewInt(int64(r.Intn(5)-2)))
			case 4:
				x.Lsh(one, uint(60+r.Intn(190))).Add(x, big.NewInt(int64(r.Intn(5)-2)))
			case 5:
				x.Mul(eng.P, new(big.Int).Lsh(one, uint(r.Intn(180)))).Add(x, new(big.Int).SetUint64(edgeF(r)))
			case 6:
				x.SetUint64(ref.P - 1 - uint64(small(r)))
			case 7:
				x.Sub(new(big.Int).Set(fieldOrder), big.NewInt(int64(1+r.Intn(4))))
			case 8:
				x.Rand(r, fieldOrder)
			case 9:
				x.SetUint64(uint64(r.Uint32())<<32 | uint64(r.Uint32()))
			case 10:
				x.SetUint64(0xFFFFFFFF<<32 + uint64(r.Intn(2)))
			case 11: // a high limb one too large
				x.Lsh(big.NewInt(1<<32+int64(r.Intn(2))), 32).Add(x, big.NewInt(int64(r.Intn(3))))
			}
			x.Mod(x, fieldOrder)
			ok := x.Cmp(eng.P) < 0
			var h ref.H
			h.SetBigInt(x)
			res := &lab.Result{Fired: map[string]int{}, Note: "in range", Sig: lab.Hash(p.P, x.String(), p.Faults)}
			exec := func(hint eng.HintFn) eng.Outcome {
				_, e := eng.New(p.P["backend"])
				e.Hint = hint
				o := e.Run(func(api frontend.API) {
					v := gl.NewVariable(e.Var(h))
					c := gl.New(api)
					if p.P["form"] == 1 {
						c.RangeCheckQE(gl.QuadraticExtensionVariable{gl.NewVariable(e.U64(5)), v})
					} else {
						c.RangeCheck(v)
					}
				})
				res.Steps += int64(e.Ops)
				e.Free()
				return o
			}
			fired := map[string]int{}
			o := exec(liarWith(p.Faults, fired, p.P["split"]))
			o2 := exec(nil)
			res.Digest = digest(say(o), say(o2), x.String())
			if o.Unsup || o2.Unsup {
				return &lab.Result{Err: o.Why + o2.Why}
			}
			for k, v := range fired {
				res.Fired[k] += v
			}
			if !ok {
				res.Note = "out of range"
				res.Fired["non-canonical"]++
				if o.Accept || o2.Accept {
					res.Viol = fmt.Sprintf("%v passes the range check (%s)", x, eng.BackendName[p.P["backend"]])
				}
			}
			return res
		}}
	return &lab.Check{
		Prop: "C05", Level: "exploration",
		Rule:    "a prover node re-encodes field elements of its proof as value + k*p: every element of a message at once (with attribution of each objecting constraint to one element by group testing), single elements with commitments recomputed consistently, and the range check itself under lying limb splits; non-trivial: an element was re-encoded",
		Measure: "distinct (circuit, element values) sweeps, (circuit, element, multiple) provers and (value, split policy) range checks",
		Real:    realParts, Stub: stubParts,
		Worlds: []lab.World{sweep, consistent, gate},
	}
}
