package checks

import (
	"fmt"
	"math/big"
	"math/rand"
	"strings"

	"github.com/consensys/gnark/frontend"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"

	"verif/sim/eng"
	"verif/sim/lab"
	"verif/sim/ref"
)

// A script is a history of operations on one builder: operands are drawn from the inputs and from
// earlier results, so that the same variable is an operand several times, operations repeat with the
// same and with permuted operands, and results feed later operations.
type scriptStep struct {
	g  *gadget
	at []int // operand indices into the pool
}

func scriptOf(p *lab.Plan) (inputs []ref.F, konst int, steps []scriptStep, want [][]*big.Int) {
	r := lab.Rng(p.Seed, "script")
	n := 1 + r.Intn(6)
	for i := 0; i < n; i++ {
		inputs = append(inputs, edgeF(r))
	}
	if r.Intn(3) == 0 {
		konst = r.Intn(1 << 6)
	}
	if r.Intn(3) == 0 && n > 1 { // equal values under different names
		inputs[n-1] = inputs[0]
	}
	pool := append([]ref.F(nil), inputs...)
	var recent *scriptStep
	for len(steps) < p.P["steps"] {
		var s scriptStep
		if recent != nil && r.Intn(3) == 0 {
			s = scriptStep{recent.g, append([]int(nil), recent.at...)}
			switch r.Intn(4) {
			case 0:
				r.Shuffle(len(s.at), func(a, b int) { s.at[a], s.at[b] = s.at[b], s.at[a] })
			case 1:
				if len(s.at) > 0 {
					s.at[r.Intn(len(s.at))] = r.Intn(len(pool))
				}
			}
		} else {
			for {
				s.g = &gadgets[r.Intn(len(gadgets))]
				if !s.g.slow || p.P["slow"] == 1 && r.Intn(4) == 0 {
					break
				}
			}
			few := 1 + r.Intn(len(pool))
			lo := r.Intn(len(pool) - few + 1)
			s.at = make([]int, s.g.n(r))
			for i := range s.at {
				s.at[i] = lo + r.Intn(few)
			}
			if len(s.at) == 4 && r.Intn(2) == 0 { // the two extension operands coincide
				s.at[2], s.at[3] = s.at[0], s.at[1]
			}
		}
		if s.g.name == "IsZero+Lookup" {
			for i := 2; i < 4; i++ { // the selecting operands must be bits
				for try := 0; pool[s.at[i]] > 1 && try < 20; try++ {
					s.at[i] = r.Intn(len(pool))
				}
			}
		}
		xs := make([]ref.F, len(s.at))
		for i, a := range s.at {
			xs[i] = pool[a]
		}
		w := s.g.want(xs)
		if w == nil { // outside the domain of the operation
			recent = nil
			continue
		}
		steps = append(steps, s)
		want = append(want, w)
		recent = &steps[len(steps)-1]
		if !s.g.wide && !strings.HasPrefix(s.g.name, "BN254") {
			for _, x := range w {
				pool = append(pool, x.Uint64())
			}
		}
	}
	return
}

func scriptWorld(p *lab.Plan) *lab.Result {
	inputs, konst, steps, want := scriptOf(p)
	res := &lab.Result{Fired: map[string]int{}, Note: "every result correct"}
	run := func(hint eng.HintFn) (o eng.Outcome, diff string, st stat) {
		_, e := eng.New(p.P["backend"])
		e.Hint = hint
		if p.P["shared"] == 1 {
			e.Chips = map[string]any{}
		}
		var outs [][]frontend.Variable
		o = e.Run(func(api frontend.API) {
			var pool []gl.Variable
			for i, x := range inputs {
				if konst>>uint(i)&1 == 1 {
					pool = append(pool, gl.NewVariable(x))
				} else {
					pool = append(pool, gl.NewVariable(e.U64(x)))
				}
			}
			for _, s := range steps {
				in := make([]gl.Variable, len(s.at))
				for i, a := range s.at {
					in[i] = pool[a]
				}
				out := s.g.run(api, gl.New(api), in, e)
				outs = append(outs, out)
				if !s.g.wide && !strings.HasPrefix(s.g.name, "BN254") {
					for _, v := range out {
						pool = append(pool, gl.NewVariable(v))
					}
				}
			}
		})
		if o.Accept {
			for i, s := range steps {
				var got []*big.Int
				for _, v := range outs[i] {
					x := e.Of(v)
					b := new(big.Int)
					x.BigInt(b)
					if s.g.wide {
						b.Mod(b, eng.P)
					}
					got = append(got, b)
				}
				if d := gadgetDiff(s.g, o, got, want[i]); d != "" {
					diff = fmt.Sprintf("step %d %s%v: %s", i, s.g.name, s.at, d)
					break
				}
			}
		}
		st = stat{e.Ops, e.Calls, e.Digest}
		e.Free()
		return
	}
	tell := func() string {
		var b strings.Builder
		for i, s := range steps {
			fmt.Fprintf(&b, " %d:%s%v", i, s.g.name, s.at)
		}
		return fmt.Sprintf("inputs %v constants %b;%s", inputs, konst, b.String())
	}
	o, d, st := run(liar(nil, res.Fired))
	res.Steps = int64(st.Ops)
	if o.Unsup {
		return &lab.Result{Err: o.Why}
	}
	if d != "" {
		res.Viol = d + " with truthful hints: " + tell()
		return res
	}
	if !o.Accept {
		res.Viol = "operations inside their domain cannot be satisfied: " + say(o) + ": " + tell()
		return res
	}
	if st.Calls == 0 {
		res.Note = "no hints"
		return res
	}
	dg := digest(st)
	for _, f := range p.Faults {
		fs := []lab.Fault{{K: f.K, A: []int{f.A[0] % st.Calls, f.A[1]}}}
		if p.P["joint"] == 1 { // the same lie wherever the question recurs
			fs = nil
			for k := f.A[0] % (1 + st.Calls/4); k < st.Calls; k += 1 + f.A[1]%4 {
				fs = append(fs, lab.Fault{K: f.K, A: []int{k, f.A[1]}})
			}
		}
		fired := map[string]int{}
		o, d, s2 := run(liarWith(fs, fired, p.P["split"]))
		res.Subs++
		res.Steps += int64(s2.Ops)
		dg = digest(dg, s2, say(o))
		for k, v := range fired {
			res.Fired[k] += v
		}
		if len(fired) > 0 {
			res.Sig = lab.Hash(p.Seed, p.Faults)
		}
		if d != "" {
			res.Viol = fmt.Sprintf("satisfied with a wrong value under lies %v: %s: %s", f, d, tell())
			return res
		}
	}
	res.Digest = dg
	return res
}

func genHistory(r *rand.Rand, i int) *lab.Plan {
	p := &lab.Plan{P: map[string]int{"steps": 2 + r.Intn(9), "joint": r.Intn(3) / 2, "split": r.Intn(5) * r.Intn(2), "backend": eng.Native, "shared": r.Intn(2)}}
	if i%10 == 0 {
		p.P["slow"], p.P["steps"] = 1, 2+r.Intn(4)
	}
	for k := 0; k < 5; k++ {
		p.Faults = append(p.Faults, lie(r, r.Intn(1<<20)))
	}
	return p
}
