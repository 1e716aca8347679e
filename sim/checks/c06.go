package checks

import (
	"fmt"
	"math/big"
	"math/rand"

	"github.com/consensys/gnark/frontend"
	"github.com/succinctlabs/gnark-plonky2-verifier/challenger"
	"github.com/succinctlabs/gnark-plonky2-verifier/fri"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
	"github.com/succinctlabs/gnark-plonky2-verifier/poseidon"
	"github.com/succinctlabs/gnark-plonky2-verifier/types"
	"github.com/succinctlabs/gnark-plonky2-verifier/variables"

	"verif/sim/br"
	"verif/sim/circ"
	"verif/sim/eng"
	"verif/sim/lab"
	"verif/sim/ref"
)

var transcriptOps = []string{"element", "elements", "hash", "bn254", "cap", "extension", "extensions", "openings", "get", "get-n", "get-extension", "get-hash", "fri"}

func edgeH(r *rand.Rand) (h ref.H) {
	b := new(big.Int)
	switch r.Intn(6) {
	case 0:
		b.SetInt64(int64(r.Intn(3)))
	case 1:
		b.Sub(fieldOrder, big.NewInt(int64(1+r.Intn(3))))
	case 2:
		b.Lsh(big.NewInt(1), uint(56*(1+r.Intn(4)))).Sub(b, big.NewInt(int64(r.Intn(3)-1)))
	case 3:
		b.Lsh(big.NewInt(1), uint(r.Intn(253)))
	default:
		return ref.RandH(r)
	}
	h.SetBigInt(b)
	return
}

// transcriptWorld runs a history of observe and squeeze operations on several transcripts at once.
func transcriptWorld(p *lab.Plan) *lab.Result {
	res := &lab.Result{Fired: map[string]int{}, Note: "transcripts agree", Sig: lab.Hash(p.Faults)}
	_, e := eng.New(eng.Native)
	mk := br.Mk(e)
	n := p.P["transcripts"]
	var got, want []*big.Int
	at := []string{}
	o := e.Run(func(api frontend.API) {
		cs := make([]*challenger.Chip, n)
		rs := make([]ref.Challenger, n)
		for i := range cs {
			cs[i] = challenger.NewChip(api)
		}
		emit := func(op string, vs []frontend.Variable, ws []*big.Int) {
			for _, v := range vs {
				x := e.Of(v)
				b := new(big.Int)
				x.BigInt(b)
				got = append(got, b)
				at = append(at, op)
			}
			want = append(want, ws...)
		}
		for step, f := range p.Faults {
			c, w := cs[f.A[0]%n], &rs[f.A[0]%n]
			k := f.A[1]
			r := rand.New(rand.NewSource(int64(f.A[2])))
			fs := func(m int) []ref.F {
				o := make([]ref.F, m)
				for i := range o {
					o[i] = edgeF(r)
				}
				return o
			}
			es := func(m int) []ref.E {
				o := make([]ref.E, m)
				for i := range o {
					o[i] = ref.E{edgeF(r), edgeF(r)}
				}
				return o
			}
			hs := func(m int) []ref.H {
				o := make([]ref.H, m)
				for i := range o {
					o[i] = edgeH(r)
				}
				return o
			}
			op := fmt.Sprintf("step %d %s", step, f.K)
			res.Fired[f.K]++
			switch f.K {
			case "element":
				x := fs(1)
				c.ObserveElement(br.Fs(mk, x)[0])
				w.Observe(x...)
			case "elements":
				x := fs(k % 20)
				c.ObserveElements(br.Fs(mk, x))
				w.Observe(x...)
			case "hash":
				x := fs(4)
				var h poseidon.GoldilocksHashOut
				copy(h[:], br.Fs(mk, x))
				c.ObserveHash(h)
				w.Observe(x...)
			case "bn254":
				h := hs(1)
				c.ObserveBN254Hash(br.Hashes(mk, h)[0])
				w.ObserveHash(h[0])
			case "cap":
				h := hs(k % 4)
				c.ObserveCap(br.Hashes(mk, h))
				w.ObserveCap(h)
			case "extension":
				x := es(1)
				c.ObserveExtensionElement(br.Es(mk, x)[0])
				w.ObserveE(x...)
			case "extensions":
				x := es(k % 9)
				c.ObserveExtensionElements(br.Es(mk, x))
				w.ObserveE(x...)
			case "openings":
				x, y := es(k%5), es(k/7%4)
				c.ObserveOpenings(fri.Openings{Batches: []fri.OpeningBatch{{Values: br.Es(mk, x)}, {Values: br.Es(mk, y)}}})
				w.ObserveE(x...)
				w.ObserveE(y...)
			case "get":
				emit(op, lv(c.GetChallenge()), bigs(w.Get()))
			case "get-n":
				emit(op, lv(c.GetNChallenges(uint64(k%19))...), bigs(w.GetN(k%19)...))
			case "get-extension":
				emit(op, le(c.GetExtensionChallenge()), bigE(w.GetE()))
			case "get-hash":
				h := c.GetHash()
				emit(op, lv(h[:]...), bigs(w.GetN(4)...))
			case "fri":
				var caps []variables.FriMerkleCap
				var wb []ref.E
				wa := w.GetE()
				for i := 0; i < k%3; i++ {
					h := hs(1 + k/3%2)
					caps = append(caps, br.Hashes(mk, h))
					w.ObserveCap(h)
					wb = append(wb, w.GetE())
				}
				fin := es(k / 11 % 4)
				pow := fs(1)
				q := k / 17 % 12
				w.ObserveE(fin...)
				w.Observe(pow...)
				ch := c.GetFriChallenges(caps, variables.PolynomialCoeffs{Coeffs: br.Es(mk, fin)}, gl.NewVariable(mk(ref.FtoH(pow[0]))), types.FriConfig{NumQueryRounds: uint64(q), CapHeight: 4})
				v := append(le(ch.FriAlpha), le(ch.FriBetas...)...)
				v = append(append(v, lv(ch.FriPowResponse)...), lv(ch.FriQueryIndices...)...)
				ws := append(bigE(wa), bigE(wb...)...)
				ws = append(append(ws, bigs(w.Get())...), bigs(w.GetN(q)...)...)
				emit(op, v, ws)
			}
		}
	})
	res.Steps, res.Digest = int64(e.Ops), digest(e.Ops, e.Calls)
	e.Free()
	if o.Unsup {
		return &lab.Result{Err: o.Why}
	}
	for i := range got {
		if i >= len(want) {
			break
		}
		if got[i].Cmp(want[i]) != 0 {
			res.Viol = fmt.Sprintf("challenge at %s is %v, the specified transcript gives %v", at[i], got[i], want[i])
			return res
		}
	}
	if len(got) != len(want) {
		res.Viol = fmt.Sprintf("%d challenge values instead of %d", len(got), len(want))
	} else if !o.Accept {
		res.Viol = "transcript cannot be evaluated: " + say(o)
	}
	return res
}

// garbage fills a message with arbitrary values; caps may be short.
func garbage(r *rand.Rand, c *ref.Common, capLen int) *ref.Msg {
	hs := func() []ref.H {
		o := make([]ref.H, capLen)
		for i := range o {
			o[i] = edgeH(r)
		}
		return o
	}
	xs := func(n int) []ref.X {
		o := make([]ref.X, n)
		for i := range o {
			o[i] = ref.XofE(ref.E{edgeF(r), edgeF(r)})
		}
		return o
	}
	m := &ref.Msg{VD: ref.VData{Cap: hs(), Digest: edgeH(r)}}
	for i := 0; i < c.NumPI; i++ {
		m.PIs = append(m.PIs, edgeF(r))
	}
	p := &m.Proof
	p.WiresCap, p.ZsCap, p.QuotCap = hs(), hs(), hs()
	p.Op = ref.Openings{Constants: xs(c.NumConsts), Sigmas: xs(c.Routed), Wires: xs(c.NumWires), Zs: xs(c.NumChal), ZsNext: xs(c.NumChal), PPs: xs(c.NumChal * c.NumPP), Quot: xs(c.NumChal * c.QDF)}
	for i := 0; i < c.Steps; i++ {
		p.Fri.Caps = append(p.Fri.Caps, hs())
	}
	p.Fri.Final = xs(c.FinalLen())
	p.Fri.Pow = ref.FtoH(edgeF(r))
	return m
}

func challengesWorld(p *lab.Plan) *lab.Result {
	r := lab.Rng(p.Seed, "garbage")
	c := friShape(int64(p.P["shape"]))
	c.NumPI = r.Intn(30)
	c.Queries = 1 + r.Intn(20)
	switch r.Intn(6) {
	case 0:
		c.NumPI = 30 + r.Intn(170)
	case 1:
		c.Queries = 20 + r.Intn(70)
	case 2:
		c.NumWires, c.Routed = 20+r.Intn(120), 10+r.Intn(70)
	}
	m := garbage(r, c, p.P["cap"])
	what := "garbage message"
	res := &lab.Result{Fired: map[string]int{}}
	base := wantChallenges(c, m)
	for _, f := range p.Faults {
		slots, _ := ref.Walk(m)
		s := slots[f.A[0]%len(slots)]
		if s.IsField() {
			s.Set(ref.FtoH(ref.Add(ref.HtoF(s.Get()), ref.F(1+f.A[1]%3))))
		} else {
			h := s.Get()
			d := ref.FtoH(ref.F(1 + f.A[1]%3))
			h.Add(&h, &d)
			s.Set(h)
		}
		what += ", altered " + s.Path
		res.Fired["alter "+s.Class]++
	}
	want := wantChallenges(c, m)
	if len(p.Faults) > 0 && !same(base, want) {
		res.Fired["challenges changed"]++
	}
	o, got, st := getChallenges(c, m, nil)
	res.Steps, res.Digest, res.Note = int64(st.Ops), digest(st, say(o)), verdict(o)
	if o.Unsup {
		return &lab.Result{Err: o.Why}
	}
	if o.Refused {
		if p.P["cap"] == 16 {
			res.Viol = "challenges refused for a well-shaped message: " + say(o)
		}
		return res
	}
	res.Sig = lab.Hash(p.P, p.Seed, p.Faults)
	if len(got) != len(want) {
		res.Viol = fmt.Sprintf("%d challenge values instead of %d for %s: %s", len(got), len(want), what, say(o))
		return res
	}
	for i := range got {
		if got[i].Cmp(want[i]) != 0 {
			res.Viol = fmt.Sprintf("challenge value %d of %d is %v, the specified transcript gives %v (%s)", i, len(got), got[i], want[i], what)
			return res
		}
	}
	if !o.Accept {
		res.Viol = "challenges cannot be evaluated: " + say(o)
	}
	return res
}

// C06: the transcript.
func C06() *lab.Check {
	return &lab.Check{
		Prop: "C06", Level: "exploration",
		Rule:    "seeded histories of observe and squeeze operations interleaved over up to three transcripts, and whole verifier transcripts over arbitrary messages with single-element alterations, each compared value by value with an independent duplex sponge; non-trivial: at least one challenge was squeezed",
		Measure: "distinct operation histories and messages",
		Real:    realParts, Stub: stubParts,
		Worlds: []lab.World{
			{Name: "histories", Quick: 1500, Thorough: 80000, Exec: transcriptWorld, Gen: func(r *rand.Rand, i int) *lab.Plan {
				p := &lab.Plan{P: map[string]int{"transcripts": 1 + r.Intn(3)}}
				for k := 2 + r.Intn(14); k > 0; k-- {
					op := transcriptOps[r.Intn(len(transcriptOps))]
					p.Faults = append(p.Faults, lab.Fault{K: op, A: []int{r.Intn(3), r.Intn(1 << 12), r.Intn(1 << 28)}})
				}
				p.Faults = append(p.Faults, lab.Fault{K: "get-n", A: []int{r.Intn(3), 3, 0}})
				return p
			}},
			{Name: "messages", Quick: 700, Thorough: 40000, Exec: challengesWorld, Gen: func(r *rand.Rand, i int) *lab.Plan {
				p := &lab.Plan{P: map[string]int{"shape": r.Intn(1 << 28), "cap": 1 + r.Intn(2)}}
				if i%12 == 0 {
					p.P["cap"] = 16
				}
				if r.Intn(2) == 0 {
					p.Faults = []lab.Fault{{K: "alter", A: randArgs(r, 2)}}
				}
				return p
			}},
			{Name: "sessions", Quick: 24, Thorough: 1500, Gen: func(r *rand.Rand, i int) *lab.Plan {
				return &lab.Plan{P: map[string]int{"circuit": r.Intn(1 << 20), "class": []int{circ.Tiny, circ.Wild, circ.Tiny, circ.Wild, circ.Deep, circ.Full}[i%6]}}
			}, Exec: func(p *lab.Plan) *lab.Result {
				run := circ.Honest(int64(p.P["circuit"]), p.P["class"], 0)
				o, got, st := getChallenges(run.In.C, run.Msg, nil)
				if o.Unsup {
					return &lab.Result{Err: o.Why}
				}
				res := &lab.Result{Note: verdict(o), Steps: int64(st.Ops), Digest: digest(st), Sig: lab.Hash(p.P)}
				if want := wantChallenges(run.In.C, run.Msg); !o.Accept || !same(got, want) {
					res.Viol = fmt.Sprintf("challenges of an honest session are %v instead of %v (%s)", got, want, say(o))
				}
				return res
			}},
		},
	}
}
