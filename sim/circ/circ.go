// Package circ generates circuits and honest proving sessions from seeds.
package circ

import (
	"fmt"
	"math/rand"
	"sync"

	"verif/sim/lab"
	"verif/sim/ref"
)

// Classes of generated circuits.
const (
	Tiny  = iota // few gates, few queries: fast
	Wild         // random gates and parameters
	Full         // every gate type
	Deep         // few gates, at least two FRI reductions
	Abyss        // three FRI reductions
)

func randGates(r *rand.Rand, qdf, n int, all bool) []ref.Gate {
	type mk func() ref.Gate
	// counts as in common configurations, now and then far beyond
	upTo := func(usual, rare int) int {
		if r.Intn(8) == 0 {
			usual = rare
		}
		return 1 + r.Intn(usual)
	}
	cand := []mk{
		func() ref.Gate { return ref.Noop{} },
		func() ref.Gate { return ref.Constant{N: upTo(4, 14)} },
		func() ref.Gate { return ref.PoseidonMds{} },
		func() ref.Gate { return ref.BaseSum{Limbs: 1 + r.Intn(63), Base: 2} },
		func() ref.Gate {
			b := 2 + r.Intn(qdf-1)
			n := 1
			for p := b; p < 1<<20 && n < 31; p *= b {
				n++
			}
			return ref.BaseSum{Limbs: 1 + r.Intn(n), Base: b}
		},
		func() ref.Gate { return ref.ReducingExt{N: 1 + r.Intn([]int{8, 32}[r.Intn(2)])} },
		func() ref.Gate { return ref.Reducing{N: 1 + r.Intn([]int{12, 43}[r.Intn(2)])} },
		func() ref.Gate { return ref.ArithmeticExt{N: upTo(10, 24)} },
		func() ref.Gate { return ref.Arithmetic{N: upTo(20, 120)} },
		func() ref.Gate { return ref.MulExt{N: upTo(13, 30)} },
		func() ref.Gate { return ref.Exponentiation{Bits: 1 + r.Intn([]int{20, 66}[r.Intn(2)])} },
		func() ref.Gate {
			b := 1 + r.Intn(min(6, qdf-1))
			return ref.RandomAccess{Bits: b, Copies: 1 + r.Intn(max(2, 80/(2+(1<<b)))), Extra: upTo(3, 14) - 1}
		},
		func() ref.Gate {
			// plonky2's with_max_degree: the least degree giving the number of intermediates of the maximum
			b := 2 + r.Intn(3)
			n := 1 << b
			maxd := 2 + r.Intn(qdf-1)
			inter := (n - 2) / (maxd - 1)
			d := maxd
			for d > 2 && (n-2)/(d-2) == inter {
				d--
			}
			return ref.CosetInterp{Bits: b, Deg: d}
		},
		func() ref.Gate { return ref.PoseidonG{} },
	}
	perm := r.Perm(len(cand))
	if all || r.Intn(3) == 0 { // several gates of one type
		for range 2 {
			k := perm[r.Intn(len(perm))]
			perm = append([]int{k}, perm...)
		}
	}
	gs := []ref.Gate{ref.PublicInput{}}
	seen := map[string]bool{}
	for _, i := range perm {
		if !all && len(gs) > n {
			break
		}
		g := cand[i]()
		if g.Degree() <= qdf && !seen[g.ID()] {
			seen[g.ID()] = true
			gs = append(gs, g)
		}
	}
	return gs
}

// Opts derives circuit options from a seed.
func Opts(seed int64, class int) ref.CircuitOpts {
	r := lab.Rng(seed, "circuit")
	o := ref.CircuitOpts{}
	switch class {
	case Tiny:
		o = ref.CircuitOpts{D: 3 + r.Intn(3), RateBits: 1 + r.Intn(4), PowBits: []int{0, 1, 2, 3, 5}[r.Intn(5)], Queries: 1 + r.Intn(2), NumChal: 1 + r.Intn(2), QDF: []int{3, 4, 8}[r.Intn(3)], NumPI: r.Intn(5)}
		o.Gates = randGates(r, o.QDF, 2, false)
	case Wild:
		o = ref.CircuitOpts{D: 3 + r.Intn(6), RateBits: 1 + r.Intn(4), PowBits: r.Intn(9), Queries: 1 + r.Intn(3), NumChal: 1 + r.Intn(3), QDF: 2 + r.Intn(7), NumPI: r.Intn(20)}
		o.Gates = randGates(r, o.QDF, 2+r.Intn(7), false)
		o.ExtraWires = r.Intn(3)
		o.Ragged = r.Intn(3) == 0
		if r.Intn(8) == 0 && o.D < 6 { // as many queries as real circuits have
			o.Queries = 12 + r.Intn(24)
		}
	case Full:
		o = ref.CircuitOpts{D: 4 + r.Intn(3), RateBits: 3, PowBits: 4 * r.Intn(3), Queries: 1 + r.Intn(2), NumChal: 2, QDF: 7 + r.Intn(2), NumPI: 1 + r.Intn(8)}
		o.Gates = randGates(r, o.QDF, 0, true)
	case Deep, Abyss:
		d := []int{8, 8, 9, 9, 10, 11}[r.Intn(6)]
		o = ref.CircuitOpts{D: d, RateBits: 12 - d, PowBits: []int{0, 2, 3}[r.Intn(3)], Queries: 1 + r.Intn(2), NumChal: 1 + r.Intn(2), QDF: 2 + r.Intn(2), NumPI: r.Intn(5)}
		if class == Abyss {
			o.D, o.RateBits = 12+r.Intn(3), 0
			o.RateBits = 16 - o.D
		}
		o.Gates = randGates(r, o.QDF, 1, false)
	}
	max := 0
	for k := 0; o.D-4*k >= 0 && o.D+o.RateBits-4*k >= 4; k++ {
		max = k
	}
	if o.D+o.RateBits < 4 {
		o.RateBits = 4 - o.D
	}
	o.Layout = r.Int63()
	o.Steps = max
	if class < Deep && r.Intn(4) == 0 {
		o.Steps = r.Intn(max + 1)
	}
	// the sponge absorbs eight elements at a time
	if q := lab.Rng(seed, "public inputs"); class != Tiny && q.Intn(4) == 0 {
		o.NumPI = 8 * (1 + q.Intn(3))
	} else if class != Tiny && q.Intn(9) == 0 {
		o.NumPI = 30 + q.Intn(160)
	}
	return o
}

type key struct {
	seed  int64
	class int
}
type entry struct {
	once sync.Once
	in   *ref.Instance
	run  map[int64]*ref.Run
	mu   sync.Mutex
}

var (
	mu    sync.Mutex
	cache = map[key]*entry{}
	order []key
)

// Get returns the circuit of a seed; instances are cached and must not be modified.
func Get(seed int64, class int) *ref.Instance { return get(seed, class).in }

func get(seed int64, class int) *entry {
	k := key{seed, class}
	mu.Lock()
	e := cache[k]
	if e == nil {
		e = &entry{run: map[int64]*ref.Run{}}
		cache[k] = e
		order = append(order, k)
		if len(order) > 64 {
			delete(cache, order[0])
			order = order[1:]
		}
	}
	mu.Unlock()
	e.once.Do(func() {
		e.in = ref.NewInstance(lab.Rng(seed, "instance"), Opts(seed, class))
	})
	return e
}

// Honest returns the honest session of a seed; cached, must not be modified.
func Honest(seed int64, class int, session int64) *ref.Run {
	e := get(seed, class)
	e.mu.Lock()
	defer e.mu.Unlock()
	if r := e.run[session]; r != nil {
		return r
	}
	r := lab.Rng(seed, fmt.Sprint("session", session))
	in := e.in
	if session > 0 { // later sessions prove other public inputs
		pis := make([]ref.F, len(in.PIs))
		for i := range pis {
			pis[i] = ref.RandF(r)
		}
		in = in.WithPIs(pis)
	}
	run := in.Prove(r, nil)
	if err := e.in.C.Verify(run.Msg); err != nil {
		panic(fmt.Sprintf("reference verifier rejects an honest session (seed %d class %d): %v", seed, class, err))
	}
	e.run[session] = run
	return run
}

// Describe summarises a circuit.
func Describe(c *ref.Common) string {
	s := fmt.Sprintf("d%d r%d s%d q%d pow%d ch%d qdf%d w%d/%d c%d pi%d sel%d", c.D, c.RateBits, c.Steps, c.Queries, c.PowBits, c.NumChal, c.QDF, c.NumWires, c.Routed, c.NumConsts, c.NumPI, c.NumSel())
	for _, g := range c.Gates {
		s += fmt.Sprintf(" %T", g)[5:]
	}
	return s
}

// Params lists the shape parameters of a circuit as a signature.
func Params(c *ref.Common) string {
	s := fmt.Sprint(c.D, c.RateBits, c.Steps, c.Queries, c.PowBits, c.NumChal, c.QDF, c.NumWires, c.Routed, c.NumConsts, c.NumPI, c.Groups)
	for _, g := range c.Gates {
		s += fmt.Sprintf("%T%v", g, g)
	}
	return s
}
