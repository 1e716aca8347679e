// Package ref is the executable reference model: a native (non-circuit) implementation of the
// Goldilocks field, both Poseidon instances, the Fiat-Shamir transcript, the plonky2 gates, and a
// complete plonky2 prover and verifier over the PoseidonBN254 configuration. It shares no code
// with the repository under test.
package ref

import "math/bits"

// P is the Goldilocks prime 2^64 - 2^32 + 1.
const P uint64 = 0xFFFFFFFF00000001

// F is a canonical Goldilocks element (always < P).
type F = uint64

func Add(a, b F) F {
	s, c := bits.Add64(a, b, 0)
	if c != 0 || s >= P {
		s -= P
	}
	return s
}

func Sub(a, b F) F {
	d, br := bits.Sub64(a, b, 0)
	if br != 0 {
		d += P
	}
	return d
}

func Neg(a F) F {
	if a == 0 {
		return 0
	}
	return P - a
}

func red128(hi, lo uint64) F {
	// hi*2^64 + lo, 2^64 = 2^32 - 1, 2^96 = -1 (mod P)
	hh := hi >> 32
	hl := hi & 0xFFFFFFFF
	t, br := bits.Sub64(lo, hh, 0)
	if br != 0 {
		t -= 0xFFFFFFFF
	}
	m := (hl << 32) - hl
	r, c := bits.Add64(t, m, 0)
	if c != 0 {
		r += 0xFFFFFFFF
	}
	if r >= P {
		r -= P
	}
	return r
}

func Mul(a, b F) F {
	hi, lo := bits.Mul64(a, b)
	return red128(hi, lo)
}

func Exp(a F, e uint64) F {
	r := F(1)
	for e > 0 {
		if e&1 == 1 {
			r = Mul(r, a)
		}
		a = Mul(a, a)
		e >>= 1
	}
	return r
}

func Inv(a F) F { return Exp(a, P-2) }

// E is an element of the quadratic extension F[X]/(X^2 - 7).
type E [2]F

var (
	E0 = E{0, 0}
	E1 = E{1, 0}
)

func EOf(a F) E { return E{a, 0} }
func EAdd(a, b E) E {
	return E{Add(a[0], b[0]), Add(a[1], b[1])}
}
func ESub(a, b E) E {
	return E{Sub(a[0], b[0]), Sub(a[1], b[1])}
}
func ENeg(a E) E { return E{Neg(a[0]), Neg(a[1])} }
func EMul(a, b E) E {
	return E{
		Add(Mul(a[0], b[0]), Mul(7, Mul(a[1], b[1]))),
		Add(Mul(a[0], b[1]), Mul(a[1], b[0])),
	}
}
func EMulF(a E, b F) E { return E{Mul(a[0], b), Mul(a[1], b)} }
func EInv(a E) E {
	// (a0 - a1 X) / (a0^2 - 7 a1^2)
	n := Inv(Sub(Mul(a[0], a[0]), Mul(7, Mul(a[1], a[1]))))
	return E{Mul(a[0], n), Mul(Neg(a[1]), n)}
}
func EExp(a E, e uint64) E {
	r := E1
	for e > 0 {
		if e&1 == 1 {
			r = EMul(r, a)
		}
		a = EMul(a, a)
		e >>= 1
	}
	return r
}

// EReduce computes sum terms[i]*s^i.
func EReduce(terms []E, s E) E {
	r := E0
	for i := len(terms) - 1; i >= 0; i-- {
		r = EAdd(EMul(r, s), terms[i])
	}
	return r
}

// A is an element of the extension algebra E[Y]/(Y^2 - 7) used by extension gates.
type A [2]E

func AAdd(a, b A) A { return A{EAdd(a[0], b[0]), EAdd(a[1], b[1])} }
func ASub(a, b A) A { return A{ESub(a[0], b[0]), ESub(a[1], b[1])} }
func AMul(a, b A) A {
	return A{
		EAdd(EMul(a[0], b[0]), EMulF(EMul(a[1], b[1]), 7)),
		EAdd(EMul(a[0], b[1]), EMul(a[1], b[0])),
	}
}
func AScale(s E, a A) A { return A{EMul(s, a[0]), EMul(s, a[1])} }

const (
	Generator    F = 7
	pow2Gen      F = 1753635133440165772
	twoAdicity     = 32
	UnusedSelect F = 0xFFFFFFFF
)

// RootOfUnity returns the generator of the subgroup of order 2^n.
func RootOfUnity(n int) F {
	r := pow2Gen
	for i := 0; i < twoAdicity-n; i++ {
		r = Mul(r, r)
	}
	return r
}

func bitrev(x, n int) int {
	r := 0
	for i := 0; i < n; i++ {
		r = r<<1 | (x>>i)&1
	}
	return r
}

func log2(n int) int { return bits.Len(uint(n)) - 1 }

// NTT evaluates coefficient vector a (length 2^k) on the subgroup of order 2^k, natural order.
func NTT(a []F) []F {
	n := len(a)
	k := log2(n)
	r := make([]F, n)
	for i := range a {
		r[bitrev(i, k)] = a[i]
	}
	for s := 1; s <= k; s++ {
		m := 1 << s
		w := RootOfUnity(s)
		tw := make([]F, m/2)
		t := F(1)
		for j := range tw {
			tw[j] = t
			t = Mul(t, w)
		}
		for b := 0; b < n; b += m {
			for j := 0; j < m/2; j++ {
				u := r[b+j]
				v := Mul(r[b+j+m/2], tw[j])
				r[b+j] = Add(u, v)
				r[b+j+m/2] = Sub(u, v)
			}
		}
	}
	return r
}

// INTT interpolates values on the subgroup (natural order) to coefficients.
func INTT(v []F) []F {
	n := len(v)
	r := NTT(v)
	ni := Inv(F(n) % P)
	// reverse all but first
	for i, j := 1, n-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	for i := range r {
		r[i] = Mul(r[i], ni)
	}
	return r
}

// CosetNTT evaluates coefficients, zero padded to size n, on shift*<w_n>, natural order.
func CosetNTT(c []F, n int, shift F) []F {
	a := make([]F, n)
	s := F(1)
	for i := range c {
		a[i] = Mul(c[i], s)
		s = Mul(s, shift)
	}
	return NTT(a)
}

// CosetINTT interpolates values on shift*<w_n>.
func CosetINTT(v []F, shift F) []F {
	r := INTT(v)
	si := Inv(shift)
	s := F(1)
	for i := range r {
		r[i] = Mul(r[i], s)
		s = Mul(s, si)
	}
	return r
}

func splitE(v []E) (a, b []F) {
	a = make([]F, len(v))
	b = make([]F, len(v))
	for i := range v {
		a[i], b[i] = v[i][0], v[i][1]
	}
	return
}
func joinE(a, b []F) []E {
	r := make([]E, len(a))
	for i := range a {
		r[i] = E{a[i], b[i]}
	}
	return r
}

// CosetNTTE is CosetNTT over the extension (componentwise: the domain lies in the base field).
func CosetNTTE(c []E, n int, shift F) []E {
	a, b := splitE(c)
	return joinE(CosetNTT(a, n, shift), CosetNTT(b, n, shift))
}

// EvalPoly evaluates base-field coefficients at an extension point.
func EvalPoly(c []F, x E) E {
	r := E0
	for i := len(c) - 1; i >= 0; i-- {
		r = EMul(r, x)
		r[0] = Add(r[0], c[i])
	}
	return r
}
