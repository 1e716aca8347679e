package eng

import (
	"math/big"
	"math/rand"
	"reflect"
	"sync"

	"github.com/consensys/gnark/constraint/solver"
)

// Kind is the behaviour class of a hint function, found by probing it, never by its name.
type Kind struct {
	Name string // muladd, reduce, split, inverse, bits, other
	Perm []int  // position of (quotient, remainder) or (high, low) in the outputs
	In   []int  // muladd: position of the addend is In[2]
	ptr  uintptr
}

var P = new(big.Int).SetUint64(0xFFFFFFFF00000001)
var two32 = new(big.Int).Lsh(big.NewInt(1), 32)

type kindKey struct {
	p       uintptr
	in, out int
}

// kinds is a per-process cache; probing is deterministic so order does not matter.
var kinds sync.Map

func KindOf(f solver.Hint, nIn, nOut int) Kind {
	key := kindKey{reflect.ValueOf(f).Pointer(), nIn, nOut}
	if k, ok := kinds.Load(key); ok {
		return k.(Kind)
	}
	k := probe(f, nIn, nOut)
	k.ptr = key.p
	kinds.Store(key, k)
	return k
}

func bi(x uint64) *big.Int { return new(big.Int).SetUint64(x) }

func probe(f solver.Hint, nIn, nOut int) Kind {
	match2 := func(r []*big.Int, a, b *big.Int) []int {
		if r == nil {
			return nil
		}
		if r[0].Cmp(a) == 0 && r[1].Cmp(b) == 0 {
			return []int{0, 1}
		}
		if r[1].Cmp(a) == 0 && r[0].Cmp(b) == 0 {
			return []int{1, 0}
		}
		return nil
	}
	switch {
	case nIn == 3 && nOut == 2:
		for c := 0; c < 3; c++ {
			in := []*big.Int{bi(0xF123456789ABCDE1), bi(0xE987654321FEDCB7), bi(0xD1B54A32D192ED03)}
			a, b := in[(c+1)%3], in[(c+2)%3]
			s := new(big.Int).Mul(a, b)
			s.Add(s, in[c])
			q, m := new(big.Int).DivMod(s, P, new(big.Int))
			r, _ := runHint(f, in, 2)
			if p := match2(r, q, m); p != nil {
				return Kind{Name: "muladd", Perm: p, In: []int{(c + 1) % 3, (c + 2) % 3, c}}
			}
		}
	case nIn == 1 && nOut == 2:
		x := new(big.Int).SetUint64(0x00000FED12345678)
		r, _ := runHint(f, []*big.Int{x}, 2)
		if p := match2(r, bi(0xFED), bi(0x12345678)); p != nil {
			return Kind{Name: "split", Perm: p}
		}
		x.Lsh(x, 70).Add(x, big.NewInt(987654321))
		q, m := new(big.Int).DivMod(x, P, new(big.Int))
		r, _ = runHint(f, []*big.Int{x}, 2)
		if p := match2(r, q, m); p != nil {
			return Kind{Name: "reduce", Perm: p}
		}
	case nIn == 1 && nOut == 1:
		x := bi(0x123456789ABCDEF)
		r, _ := runHint(f, []*big.Int{x}, 1)
		if r != nil && new(big.Int).Mod(new(big.Int).Mul(r[0], x), P).Cmp(big.NewInt(1)) == 0 {
			return Kind{Name: "inverse"}
		}
	}
	if nIn == 1 && nOut > 2 {
		x := bi(0b1011_0010)
		r, _ := runHint(f, []*big.Int{x}, nOut)
		ok := r != nil
		for i := range r {
			if !r[i].IsUint64() || r[i].Uint64() != uint64(x.Bit(i)) {
				ok = false
			}
		}
		if ok {
			return Kind{Name: "bits"}
		}
	}
	return Kind{Name: "other"}
}

func place(k Kind, a, b *big.Int) []*big.Int {
	r := make([]*big.Int, 2)
	r[k.Perm[0]], r[k.Perm[1]] = a, b
	return r
}

// total is the integer the outputs of a muladd/reduce hint must represent.
func total(k Kind, in []*big.Int) *big.Int {
	if k.Name == "reduce" {
		return new(big.Int).Set(in[0])
	}
	s := new(big.Int).Mul(in[k.In[0]], in[k.In[1]])
	s.Add(s, in[k.In[2]])
	return s.Mod(s, field)
}

// Fallback is the answer of a prover whose own solver never refuses an operand.
func Fallback(k Kind, in []*big.Int, nOut int) []*big.Int {
	switch k.Name {
	case "muladd", "reduce":
		q, m := new(big.Int).DivMod(total(k, in), P, new(big.Int))
		return place(k, q, m)
	case "split":
		q, m := new(big.Int).DivMod(in[0], two32, new(big.Int))
		return place(k, q, m)
	case "inverse":
		x := new(big.Int).Mod(in[0], P)
		if x.Sign() == 0 {
			return []*big.Int{new(big.Int)}
		}
		return []*big.Int{x.ModInverse(x, P)}
	}
	return nil
}

// Lie kinds, in the order used by traces.
var LieNames = []string{"inc", "dec", "plusP", "minusP", "swap", "zero", "one", "small", "big", "stale", "shiftQ", "freeR", "freeQ", "wrap", "limbCarry", "freeLimb", "bitsWrap", "bitsCarry", "negate", "max64", "wrapMid"}

// Lie produces a malicious answer. arg drives the details. It returns nil if the kind does not apply.
func Lie(name string, k Kind, in, honest []*big.Int, prev [][]*big.Int, nOut int, r *rand.Rand) []*big.Int {
	if honest == nil {
		honest = Fallback(k, in, nOut)
		if honest == nil {
			return nil
		}
	}
	cp := make([]*big.Int, nOut)
	for i := range cp {
		cp[i] = new(big.Int).Set(honest[i])
	}
	j := r.Intn(nOut)
	md := func() []*big.Int {
		for i := range cp {
			cp[i].Mod(cp[i], field)
		}
		return cp
	}
	qr := k.Name == "muladd" || k.Name == "reduce"
	inv := func(m *big.Int) *big.Int { return new(big.Int).ModInverse(m, field) }
	switch name {
	case "inc":
		cp[j].Add(cp[j], big.NewInt(1))
	case "dec":
		cp[j].Sub(cp[j], big.NewInt(1))
	case "plusP":
		cp[j].Add(cp[j], P)
	case "minusP":
		cp[j].Sub(cp[j], P)
	case "negate":
		if cp[j].Sign() == 0 {
			return nil
		}
		cp[j].Sub(P, cp[j])
	case "swap":
		if nOut < 2 {
			return nil
		}
		cp[0], cp[nOut-1] = cp[nOut-1], cp[0]
	case "zero":
		for i := range cp {
			cp[i].SetInt64(0)
		}
	case "one":
		for i := range cp {
			cp[i].SetInt64(1)
		}
	case "small":
		cp[j].SetInt64(r.Int63n(1 << 33))
	case "max64":
		cp[j].SetUint64(^uint64(0) - uint64(r.Intn(3)))
	case "big":
		cp[j].Rand(r, field)
	case "stale":
		if len(prev) == 0 {
			return nil
		}
		p := prev[r.Intn(len(prev))]
		if len(p) != nOut {
			return nil
		}
		for i := range cp {
			cp[i].Set(p[i])
		}
	case "shiftQ": // quotient off by t, remainder compensates
		if !qr {
			return nil
		}
		t := big.NewInt(int64(1 + r.Intn(3)))
		if r.Intn(2) == 0 {
			t.Neg(t)
		}
		q, m := cp[k.Perm[0]], cp[k.Perm[1]]
		q.Sub(q, t)
		m.Add(m, new(big.Int).Mul(t, P))
	case "freeR": // any canonical remainder, quotient solved in the native field
		if !qr {
			return nil
		}
		q, m := cp[k.Perm[0]], cp[k.Perm[1]]
		m.SetUint64(r.Uint64() % P.Uint64())
		q.Sub(total(k, in), m)
		q.Mul(q, inv(P))
	case "freeQ": // any in-range quotient, remainder solved
		if !qr {
			return nil
		}
		q, m := cp[k.Perm[0]], cp[k.Perm[1]]
		q.SetUint64(r.Uint64() % P.Uint64())
		m.Sub(total(k, in), new(big.Int).Mul(q, P))
	case "wrap", "wrapMid": // represent total + t*fieldOrder instead of total
		if !qr {
			return nil
		}
		t := big.NewInt(int64(1 + r.Intn(4)))
		if name == "wrapMid" {
			t.Lsh(t, uint(r.Intn(60)))
		}
		s := t.Mul(t, field)
		s.Add(s, total(k, in))
		q, m := new(big.Int).DivMod(s, P, new(big.Int))
		return place(k, q.Mod(q, field), m)
	case "limbCarry":
		if k.Name != "split" {
			return nil
		}
		h, l := cp[k.Perm[0]], cp[k.Perm[1]]
		t := big.NewInt(int64(1 + r.Intn(2)))
		if r.Intn(2) == 0 {
			t.Neg(t)
		}
		h.Sub(h, t)
		l.Add(l, new(big.Int).Mul(t, two32))
	case "freeLimb":
		if k.Name != "split" {
			return nil
		}
		h, l := cp[k.Perm[0]], cp[k.Perm[1]]
		if r.Intn(2) == 0 {
			l.SetUint64(uint64(r.Uint32()))
			h.Sub(in[0], l)
			h.Mul(h, inv(two32))
		} else {
			h.SetUint64(uint64(r.Uint32()))
			l.Sub(in[0], new(big.Int).Mul(h, two32))
		}
	case "bitsWrap":
		if k.Name != "bits" {
			return nil
		}
		s := new(big.Int).Add(in[0], field)
		if s.BitLen() > nOut {
			return nil
		}
		for i := range cp {
			cp[i].SetUint64(uint64(s.Bit(i)))
		}
	case "bitsCarry":
		if k.Name != "bits" || nOut < 2 {
			return nil
		}
		i := r.Intn(nOut - 1)
		cp[i].Add(cp[i], big.NewInt(2))
		cp[i+1].Sub(cp[i+1], big.NewInt(1))
	default:
		panic("unknown lie " + name)
	}
	return md()
}

// Substitute answers to instead of from, wherever a remainder (or an only output) equals from.
func Substitute(k Kind, in, honest []*big.Int, from, to *big.Int, mode int) []*big.Int {
	switch k.Name {
	case "muladd", "reduce":
		if honest[k.Perm[1]].Cmp(from) != 0 {
			return nil
		}
		q := new(big.Int).Set(honest[k.Perm[0]])
		if mode == 0 {
			q.Sub(total(k, in), to)
			q.Mul(q, new(big.Int).ModInverse(P, field))
			q.Mod(q, field)
		}
		return place(k, q, new(big.Int).Set(to))
	case "inverse":
		if honest[0].Cmp(from) != 0 {
			return nil
		}
		return []*big.Int{new(big.Int).Set(to)}
	}
	return nil
}

// SplitPolicy is how a cheating prover splits a value that is not canonical into two limbs: everything
// in the low limb (1), a maximal low limb (2), a full high limb (3) or a borrow from the high limb (4).
func SplitPolicy(k Kind, in []*big.Int, policy int) []*big.Int {
	if k.Name != "split" || in[0].Cmp(P) < 0 {
		return nil
	}
	h, l := new(big.Int), new(big.Int)
	switch policy {
	case 1:
		l.Set(in[0])
	case 2:
		l.SetUint64(1<<32 - 1)
		h.Sub(in[0], l)
		h.Mul(h, new(big.Int).ModInverse(two32, field))
	case 3:
		h.SetUint64(1<<32 - 1)
		l.Sub(in[0], new(big.Int).Mul(h, two32))
	default:
		h.Rsh(in[0], 32)
		h.Sub(h, big.NewInt(1))
		l.Sub(in[0], new(big.Int).Mul(h, two32))
	}
	return place(k, h.Mod(h, field), l.Mod(l, field))
}
