package ref

import (
	"fmt"
	"math/rand"
	"strings"
)

// Gate is a native plonky2 gate: constraint polynomials plus an honest witness generator for one row.
type Gate interface {
	ID() string
	Degree() int
	NumWires() int
	NumConsts() int
	NumConstraints() int
	Eval(c, w []E, pih [4]F) []E
	// Fill writes an honest random row. in() supplies values for free inputs.
	Fill(r *rand.Rand, in func() F, c, w []F, pih [4]F)
}

const phantom = "PhantomData<plonky2_field::goldilocks_field::GoldilocksField>"

func alg(w []E, i int) A { return A{w[i], w[i+1]} }
func fe(w []F, i int) E  { return E{w[i], w[i+1]} }
func setfe(w []F, i int, v E) {
	w[i], w[i+1] = v[0], v[1]
}

// ---- Arithmetic ----
type Arithmetic struct{ N int }

func (g Arithmetic) ID() string          { return fmt.Sprintf("ArithmeticGate { num_ops: %d }", g.N) }
func (g Arithmetic) Degree() int         { return 3 }
func (g Arithmetic) NumWires() int       { return 4 * g.N }
func (g Arithmetic) NumConsts() int      { return 2 }
func (g Arithmetic) NumConstraints() int { return g.N }
func (g Arithmetic) Eval(c, w []E, _ [4]F) []E {
	var o []E
	for i := 0; i < g.N; i++ {
		v := EAdd(EMul(EMul(w[4*i], w[4*i+1]), c[0]), EMul(w[4*i+2], c[1]))
		o = append(o, ESub(w[4*i+3], v))
	}
	return o
}
func (g Arithmetic) Fill(r *rand.Rand, in func() F, c, w []F, _ [4]F) {
	c[0], c[1] = in(), in()
	for i := 0; i < g.N; i++ {
		w[4*i], w[4*i+1], w[4*i+2] = in(), in(), in()
		w[4*i+3] = Add(Mul(Mul(w[4*i], w[4*i+1]), c[0]), Mul(w[4*i+2], c[1]))
	}
}

// ---- ArithmeticExtension ----
type ArithmeticExt struct{ N int }

func (g ArithmeticExt) ID() string {
	return fmt.Sprintf("ArithmeticExtensionGate { num_ops: %d }", g.N)
}
func (g ArithmeticExt) Degree() int         { return 3 }
func (g ArithmeticExt) NumWires() int       { return 8 * g.N }
func (g ArithmeticExt) NumConsts() int      { return 2 }
func (g ArithmeticExt) NumConstraints() int { return 2 * g.N }
func (g ArithmeticExt) Eval(c, w []E, _ [4]F) []E {
	var o []E
	for i := 0; i < g.N; i++ {
		v := AAdd(AScale(c[0], AMul(alg(w, 8*i), alg(w, 8*i+2))), AScale(c[1], alg(w, 8*i+4)))
		d := ASub(alg(w, 8*i+6), v)
		o = append(o, d[0], d[1])
	}
	return o
}
func (g ArithmeticExt) Fill(r *rand.Rand, in func() F, c, w []F, _ [4]F) {
	c[0], c[1] = in(), in()
	for i := 0; i < g.N; i++ {
		for j := 0; j < 6; j++ {
			w[8*i+j] = in()
		}
		v := EAdd(EMulF(EMul(fe(w, 8*i), fe(w, 8*i+2)), c[0]), EMulF(fe(w, 8*i+4), c[1]))
		setfe(w, 8*i+6, v)
	}
}

// ---- MulExtension ----
type MulExt struct{ N int }

func (g MulExt) ID() string          { return fmt.Sprintf("MulExtensionGate { num_ops: %d }", g.N) }
func (g MulExt) Degree() int         { return 3 }
func (g MulExt) NumWires() int       { return 6 * g.N }
func (g MulExt) NumConsts() int      { return 1 }
func (g MulExt) NumConstraints() int { return 2 * g.N }
func (g MulExt) Eval(c, w []E, _ [4]F) []E {
	var o []E
	for i := 0; i < g.N; i++ {
		d := ASub(alg(w, 6*i+4), AScale(c[0], AMul(alg(w, 6*i), alg(w, 6*i+2))))
		o = append(o, d[0], d[1])
	}
	return o
}
func (g MulExt) Fill(r *rand.Rand, in func() F, c, w []F, _ [4]F) {
	c[0] = in()
	for i := 0; i < g.N; i++ {
		for j := 0; j < 4; j++ {
			w[6*i+j] = in()
		}
		setfe(w, 6*i+4, EMulF(EMul(fe(w, 6*i), fe(w, 6*i+2)), c[0]))
	}
}

// ---- BaseSum ----
type BaseSum struct{ Limbs, Base int }

func (g BaseSum) ID() string {
	return fmt.Sprintf("BaseSumGate { num_limbs: %d } + Base: %d", g.Limbs, g.Base)
}
func (g BaseSum) Degree() int         { return g.Base }
func (g BaseSum) NumWires() int       { return 1 + g.Limbs }
func (g BaseSum) NumConsts() int      { return 0 }
func (g BaseSum) NumConstraints() int { return 1 + g.Limbs }
func (g BaseSum) Eval(c, w []E, _ [4]F) []E {
	o := []E{ESub(EReduce(w[1:1+g.Limbs], EOf(F(g.Base))), w[0])}
	for i := 0; i < g.Limbs; i++ {
		p := E1
		for b := 0; b < g.Base; b++ {
			p = EMul(p, ESub(w[1+i], EOf(F(b))))
		}
		o = append(o, p)
	}
	return o
}
func (g BaseSum) Fill(r *rand.Rand, in func() F, c, w []F, _ [4]F) {
	s := F(0)
	for i := 0; i < g.Limbs; i++ {
		w[1+i] = F(r.Intn(g.Base))
	}
	for i := g.Limbs - 1; i >= 0; i-- {
		s = Add(Mul(s, F(g.Base)), w[1+i])
	}
	w[0] = s
}

// ---- Constant ----
type Constant struct{ N int }

func (g Constant) ID() string          { return fmt.Sprintf("ConstantGate { num_consts: %d }", g.N) }
func (g Constant) Degree() int         { return 1 }
func (g Constant) NumWires() int       { return g.N }
func (g Constant) NumConsts() int      { return g.N }
func (g Constant) NumConstraints() int { return g.N }
func (g Constant) Eval(c, w []E, _ [4]F) []E {
	var o []E
	for i := 0; i < g.N; i++ {
		o = append(o, ESub(c[i], w[i]))
	}
	return o
}
func (g Constant) Fill(r *rand.Rand, in func() F, c, w []F, _ [4]F) {
	for i := 0; i < g.N; i++ {
		c[i] = in()
		w[i] = c[i]
	}
}

// ---- CosetInterpolation ----
type CosetInterp struct{ Bits, Deg int }

func (g CosetInterp) n() int       { return 1 << g.Bits }
func (g CosetInterp) inter() int   { return (g.n() - 2) / (g.Deg - 1) }
func (g CosetInterp) dom() []F     { return cosetTab[g.Bits].d }
func (g CosetInterp) weights() []F { return cosetTab[g.Bits].w }

var cosetTab [7]struct{ d, w []F }

func init() {
	for b := 1; b < len(cosetTab); b++ {
		d := []F{1}
		w := RootOfUnity(b)
		for len(d) < 1<<b {
			d = append(d, Mul(d[len(d)-1], w))
		}
		ws := make([]F, len(d))
		for i := range d {
			p := F(1)
			for j := range d {
				if i != j {
					p = Mul(p, Sub(d[i], d[j]))
				}
			}
			ws[i] = Inv(p)
		}
		cosetTab[b].d, cosetTab[b].w = d, ws
	}
}

func (g CosetInterp) ID() string {
	var s []string
	for _, w := range g.weights() {
		s = append(s, fmt.Sprint(w))
	}
	return fmt.Sprintf("CosetInterpolationGate { subgroup_bits: %d, degree: %d, barycentric_weights: [%s], _phantom: %s }<D=2>", g.Bits, g.Deg, strings.Join(s, ", "), phantom)
}
func (g CosetInterp) Degree() int         { return g.Deg }
func (g CosetInterp) pt() int             { return 1 + 2*g.n() }
func (g CosetInterp) val() int            { return g.pt() + 2 }
func (g CosetInterp) ie(i int) int        { return g.val() + 2 + 2*i }
func (g CosetInterp) ip(i int) int        { return g.val() + 2 + 2*(g.inter()+i) }
func (g CosetInterp) sp() int             { return g.val() + 2 + 4*g.inter() }
func (g CosetInterp) NumWires() int       { return g.sp() + 2 }
func (g CosetInterp) NumConsts() int      { return 0 }
func (g CosetInterp) NumConstraints() int { return 4 + 4*g.inter() }
func (g CosetInterp) Eval(c, w []E, _ [4]F) []E {
	d, ws := g.dom(), g.weights()
	x := alg(w, g.sp())
	t := ASub(alg(w, g.pt()), AScale(w[0], x))
	o := []E{t[0], t[1]}
	ev, pr := A{}, A{E1, E0}
	step := func(lo, hi int) {
		for k := lo; k < hi; k++ {
			term := ASub(x, A{EOf(d[k]), E0})
			wv := AScale(EOf(ws[k]), alg(w, 1+2*k))
			ev = AAdd(AMul(ev, term), AMul(wv, pr))
			pr = AMul(pr, term)
		}
	}
	step(0, g.Deg)
	for i := 0; i < g.inter(); i++ {
		e, p := alg(w, g.ie(i)), alg(w, g.ip(i))
		de, dp := ASub(e, ev), ASub(p, pr)
		o = append(o, de[0], de[1], dp[0], dp[1])
		ev, pr = e, p
		lo := 1 + (g.Deg-1)*(i+1)
		hi := lo + g.Deg - 1
		if hi > g.n() {
			hi = g.n()
		}
		step(lo, hi)
	}
	dv := ASub(alg(w, g.val()), ev)
	return append(o, dv[0], dv[1])
}
func (g CosetInterp) Fill(r *rand.Rand, in func() F, c, w []F, _ [4]F) {
	d, ws := g.dom(), g.weights()
	w[0] = in()
	if w[0] == 0 {
		w[0] = 3
	}
	for i := 1; i < g.pt()+2; i++ {
		w[i] = in()
	}
	x := EMulF(fe(w, g.pt()), Inv(w[0]))
	setfe(w, g.sp(), x)
	ev, pr := E0, E1
	step := func(lo, hi int) {
		for k := lo; k < hi; k++ {
			term := ESub(x, EOf(d[k]))
			ev = EAdd(EMul(ev, term), EMul(EMulF(fe(w, 1+2*k), ws[k]), pr))
			pr = EMul(pr, term)
		}
	}
	step(0, g.Deg)
	for i := 0; i < g.inter(); i++ {
		setfe(w, g.ie(i), ev)
		setfe(w, g.ip(i), pr)
		lo := 1 + (g.Deg-1)*(i+1)
		hi := lo + g.Deg - 1
		if hi > g.n() {
			hi = g.n()
		}
		step(lo, hi)
	}
	setfe(w, g.val(), ev)
}

// ---- Exponentiation ----
type Exponentiation struct{ Bits int }

func (g Exponentiation) ID() string {
	return fmt.Sprintf("ExponentiationGate { num_power_bits: %d, _phantom: %s }<D=2>", g.Bits, phantom)
}
func (g Exponentiation) Degree() int         { return 4 }
func (g Exponentiation) NumWires() int       { return 2 + 2*g.Bits }
func (g Exponentiation) NumConsts() int      { return 0 }
func (g Exponentiation) NumConstraints() int { return g.Bits + 1 }
func (g Exponentiation) Eval(c, w []E, _ [4]F) []E {
	var o []E
	base, out := w[0], w[1+g.Bits]
	iv := w[2+g.Bits:]
	for i := 0; i < g.Bits; i++ {
		prev := E1
		if i > 0 {
			prev = EMul(iv[i-1], iv[i-1])
		}
		b := w[1+g.Bits-1-i]
		m := EAdd(EMul(b, base), ESub(E1, b))
		o = append(o, ESub(EMul(prev, m), iv[i]))
	}
	return append(o, ESub(out, iv[g.Bits-1]))
}
func (g Exponentiation) Fill(r *rand.Rand, in func() F, c, w []F, _ [4]F) {
	w[0] = in()
	for i := 0; i < g.Bits; i++ {
		w[1+i] = F(r.Intn(2))
	}
	acc := F(1)
	for i := 0; i < g.Bits; i++ {
		if i > 0 {
			acc = Mul(acc, acc)
		}
		if w[g.Bits-i] == 1 {
			acc = Mul(acc, w[0])
		}
		w[2+g.Bits+i] = acc
	}
	w[1+g.Bits] = acc
}

// ---- Noop ----
type Noop struct{}

func (g Noop) ID() string                                       { return "NoopGate" }
func (g Noop) Degree() int                                      { return 0 }
func (g Noop) NumWires() int                                    { return 0 }
func (g Noop) NumConsts() int                                   { return 0 }
func (g Noop) NumConstraints() int                              { return 0 }
func (g Noop) Eval(c, w []E, _ [4]F) []E                        { return nil }
func (g Noop) Fill(r *rand.Rand, in func() F, c, w []F, _ [4]F) {}

// ---- PublicInput ----
type PublicInput struct{}

func (g PublicInput) ID() string          { return "PublicInputGate" }
func (g PublicInput) Degree() int         { return 1 }
func (g PublicInput) NumWires() int       { return 4 }
func (g PublicInput) NumConsts() int      { return 0 }
func (g PublicInput) NumConstraints() int { return 4 }
func (g PublicInput) Eval(c, w []E, pih [4]F) []E {
	var o []E
	for i := 0; i < 4; i++ {
		o = append(o, ESub(w[i], EOf(pih[i])))
	}
	return o
}
func (g PublicInput) Fill(r *rand.Rand, in func() F, c, w []F, pih [4]F) { copy(w, pih[:]) }

// ---- RandomAccess ----
type RandomAccess struct{ Bits, Copies, Extra int }

func (g RandomAccess) ID() string {
	return fmt.Sprintf("RandomAccessGate { bits: %d, num_copies: %d, num_extra_constants: %d, _phantom: %s }<D=2>", g.Bits, g.Copies, g.Extra, phantom)
}
func (g RandomAccess) Degree() int         { return g.Bits + 1 }
func (g RandomAccess) vs() int             { return 1 << g.Bits }
func (g RandomAccess) x0() int             { return (2 + g.vs()) * g.Copies }
func (g RandomAccess) bit(i, c int) int    { return g.x0() + g.Extra + c*g.Bits + i }
func (g RandomAccess) NumWires() int       { return g.x0() + g.Extra + g.Copies*g.Bits }
func (g RandomAccess) NumConsts() int      { return g.Extra }
func (g RandomAccess) NumConstraints() int { return g.Copies*(g.Bits+2) + g.Extra }
func (g RandomAccess) Eval(cs, w []E, _ [4]F) []E {
	var o []E
	for c := 0; c < g.Copies; c++ {
		b0 := (2 + g.vs()) * c
		items := append([]E(nil), w[b0+2:b0+2+g.vs()]...)
		var bits []E
		for i := 0; i < g.Bits; i++ {
			b := w[g.bit(i, c)]
			bits = append(bits, b)
			o = append(o, ESub(EMul(b, b), b))
		}
		o = append(o, ESub(EReduce(bits, E{2, 0}), w[b0]))
		for _, b := range bits {
			var nx []E
			for i := 0; i < len(items); i += 2 {
				nx = append(nx, EAdd(items[i], EMul(b, ESub(items[i+1], items[i]))))
			}
			items = nx
		}
		o = append(o, ESub(items[0], w[b0+1]))
	}
	for i := 0; i < g.Extra; i++ {
		o = append(o, ESub(cs[i], w[g.x0()+i]))
	}
	return o
}
func (g RandomAccess) Fill(r *rand.Rand, in func() F, cs, w []F, _ [4]F) {
	for c := 0; c < g.Copies; c++ {
		b0 := (2 + g.vs()) * c
		idx := r.Intn(g.vs())
		w[b0] = F(idx)
		for i := 0; i < g.vs(); i++ {
			w[b0+2+i] = in()
		}
		w[b0+1] = w[b0+2+idx]
		for i := 0; i < g.Bits; i++ {
			w[g.bit(i, c)] = F(idx>>i) & 1
		}
	}
	for i := 0; i < g.Extra; i++ {
		cs[i] = in()
		w[g.x0()+i] = cs[i]
	}
}

// ---- Reducing ----
type Reducing struct{ N int }

func (g Reducing) ID() string  { return fmt.Sprintf("ReducingGate { num_coeffs: %d }", g.N) }
func (g Reducing) Degree() int { return 2 }
func (g Reducing) acc(i int) int {
	if i == g.N-1 {
		return 0
	}
	return 6 + g.N + 2*i
}
func (g Reducing) NumWires() int       { return 6 + g.N + 2*(g.N-1) }
func (g Reducing) NumConsts() int      { return 0 }
func (g Reducing) NumConstraints() int { return 2 * g.N }
func (g Reducing) Eval(c, w []E, _ [4]F) []E {
	al, acc := alg(w, 2), alg(w, 4)
	var o []E
	for i := 0; i < g.N; i++ {
		n := alg(w, g.acc(i))
		t := ASub(AAdd(AMul(acc, al), A{w[6+i], E0}), n)
		o = append(o, t[0], t[1])
		acc = n
	}
	return o
}
func (g Reducing) Fill(r *rand.Rand, in func() F, c, w []F, _ [4]F) {
	for i := 2; i < 6+g.N; i++ {
		w[i] = in()
	}
	al, acc := fe(w, 2), fe(w, 4)
	for i := 0; i < g.N; i++ {
		acc = EAdd(EMul(acc, al), EOf(w[6+i]))
		setfe(w, g.acc(i), acc)
	}
}

// ---- ReducingExtension ----
type ReducingExt struct{ N int }

func (g ReducingExt) ID() string  { return fmt.Sprintf("ReducingExtensionGate { num_coeffs: %d }", g.N) }
func (g ReducingExt) Degree() int { return 2 }
func (g ReducingExt) acc(i int) int {
	if i == g.N-1 {
		return 0
	}
	return 6 + 2*g.N + 2*i
}
func (g ReducingExt) NumWires() int       { return 6 + 2*g.N + 2*(g.N-1) }
func (g ReducingExt) NumConsts() int      { return 0 }
func (g ReducingExt) NumConstraints() int { return 2 * g.N }
func (g ReducingExt) Eval(c, w []E, _ [4]F) []E {
	al, acc := alg(w, 2), alg(w, 4)
	var o []E
	for i := 0; i < g.N; i++ {
		n := alg(w, g.acc(i))
		t := ASub(AAdd(AMul(acc, al), alg(w, 6+2*i)), n)
		o = append(o, t[0], t[1])
		acc = n
	}
	return o
}
func (g ReducingExt) Fill(r *rand.Rand, in func() F, c, w []F, _ [4]F) {
	for i := 2; i < 6+2*g.N; i++ {
		w[i] = in()
	}
	al, acc := fe(w, 2), fe(w, 4)
	for i := 0; i < g.N; i++ {
		acc = EAdd(EMul(acc, al), fe(w, 6+2*i))
		setfe(w, g.acc(i), acc)
	}
}

// ---- Poseidon ----
type PoseidonG struct{}

const (
	pgSwap  = 24
	pgDelta = 25
	pgF0    = 29
	pgPart  = pgF0 + 3*12
	pgF1    = pgPart + 22
	pgEnd   = pgF1 + 4*12
)

func (g PoseidonG) ID() string          { return "PoseidonGate(" + phantom + ")<WIDTH=12>" }
func (g PoseidonG) Degree() int         { return 7 }
func (g PoseidonG) NumWires() int       { return pgEnd }
func (g PoseidonG) NumConsts() int      { return 0 }
func (g PoseidonG) NumConstraints() int { return 1 + 4 + 36 + 22 + 48 + 12 }

func mdsE(s *[12]E) {
	var r [12]E
	for i := 0; i < 12; i++ {
		acc := EMulF(s[i], glDiag[i])
		for j := 0; j < 12; j++ {
			acc = EAdd(acc, EMulF(s[(i+j)%12], glCirc[j]))
		}
		r[i] = acc
	}
	*s = r
}
func sboxE(x E) E {
	x2 := EMul(x, x)
	x4 := EMul(x2, x2)
	return EMul(x4, EMul(x2, x))
}

// Partial rounds in the naive form: S-box inputs of the naive and the fast partial rounds are equal as
// polynomials up to a constant shift, see fastShift.
func (g PoseidonG) Eval(c, w []E, _ [4]F) []E {
	var o []E
	sw := w[pgSwap]
	o = append(o, EMul(sw, ESub(sw, E1)))
	var s [12]E
	for i := 0; i < 4; i++ {
		d := w[pgDelta+i]
		o = append(o, ESub(EMul(sw, ESub(w[i+4], w[i])), d))
		s[i] = EAdd(w[i], d)
		s[i+4] = ESub(w[i+4], d)
	}
	for i := 8; i < 12; i++ {
		s[i] = w[i]
	}
	for r := 0; r < 30; r++ {
		for i := range s {
			s[i][0] = Add(s[i][0], glRC[12*r+i]%P)
		}
		chk := func(i, wi int) {
			o = append(o, ESub(s[i], w[wi]))
			s[i] = w[wi]
		}
		switch {
		case r < 4:
			for i := range s {
				if r > 0 {
					chk(i, pgF0+(r-1)*12+i)
				}
				s[i] = sboxE(s[i])
			}
		case r < 26:
			chk(0, pgPart+r-4)
			s[0] = sboxE(s[0])
		default:
			for i := range s {
				chk(i, pgF1+(r-26)*12+i)
				s[i] = sboxE(s[i])
			}
		}
		mdsE(&s)
	}
	for i := 0; i < 12; i++ {
		o = append(o, ESub(s[i], w[12+i]))
	}
	return o
}
func (g PoseidonG) Fill(r *rand.Rand, in func() F, c, w []F, _ [4]F) {
	for i := 0; i < 12; i++ {
		w[i] = in()
	}
	w[pgSwap] = F(r.Intn(2))
	var s [12]F
	for i := 0; i < 4; i++ {
		d := Mul(w[pgSwap], Sub(w[i+4], w[i]))
		w[pgDelta+i] = d
		s[i] = Add(w[i], d)
		s[i+4] = Sub(w[i+4], d)
	}
	copy(s[8:], w[8:12])
	for r := 0; r < 30; r++ {
		for i := range s {
			s[i] = Add(s[i], glRC[12*r+i]%P)
		}
		switch {
		case r < 4:
			for i := range s {
				if r > 0 {
					w[pgF0+(r-1)*12+i] = s[i]
				}
				s[i] = sbox7(s[i])
			}
		case r < 26:
			w[pgPart+r-4] = s[0]
			s[0] = sbox7(s[0])
		default:
			for i := range s {
				w[pgF1+(r-26)*12+i] = s[i]
				s[i] = sbox7(s[i])
			}
		}
		mdsF(&s)
	}
	copy(w[12:24], s[:])
}

// ---- PoseidonMds ----
type PoseidonMds struct{}

func (g PoseidonMds) ID() string          { return "PoseidonMdsGate(" + phantom + ")<WIDTH=12>" }
func (g PoseidonMds) Degree() int         { return 1 }
func (g PoseidonMds) NumWires() int       { return 48 }
func (g PoseidonMds) NumConsts() int      { return 0 }
func (g PoseidonMds) NumConstraints() int { return 24 }
func (g PoseidonMds) Eval(c, w []E, _ [4]F) []E {
	var o []E
	for r := 0; r < 12; r++ {
		acc := AScale(EOf(glDiag[r]), alg(w, 2*r))
		for j := 0; j < 12; j++ {
			acc = AAdd(acc, AScale(EOf(glCirc[j]), alg(w, 2*((r+j)%12))))
		}
		d := ASub(alg(w, 24+2*r), acc)
		o = append(o, d[0], d[1])
	}
	return o
}
func (g PoseidonMds) Fill(r *rand.Rand, in func() F, c, w []F, _ [4]F) {
	for i := 0; i < 24; i++ {
		w[i] = in()
	}
	for r := 0; r < 12; r++ {
		acc := EMulF(fe(w, 2*r), glDiag[r])
		for j := 0; j < 12; j++ {
			acc = EAdd(acc, EMulF(fe(w, 2*((r+j)%12)), glCirc[j]))
		}
		setfe(w, 24+2*r, acc)
	}
}
