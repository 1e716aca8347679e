package ref

import "math/rand"

// FriCheat is a single deviation of a FRI prover that knows the verifier's coins. Everything the
// prover sends after the deviation is made consistent with it, so exactly one check can notice.
type FriCheat struct {
	Kind     string
	Q, L     int // query and oracle or layer
	Arg      int
	Coord    int
	DeltaSel int
}

func root(leaf []H, idx int, sib []H) (H, int) {
	h := HashLeafH(leaf)
	for _, s := range sib {
		if idx&1 == 1 {
			h = TwoToOne(s, h)
		} else {
			h = TwoToOne(h, s)
		}
		idx >>= 1
	}
	return h, idx
}

// Synth is a FRI session with rigged coins.
type Synth struct {
	C    *Common
	Ch   *Challenges
	Caps [][]H
	Fri  FriProof
	Op   Openings
	Hit  bool // the cheat took effect
}

func delta(sel int) F {
	switch sel % 4 {
	case 0:
		return 1
	case 1:
		return P - 1
	case 2:
		return 1 << 32
	}
	return F(sel)*0x9E3779B97F4A7C15%P | 1
}

func (ch *FriCheat) coord() int {
	if ch == nil {
		return 0
	}
	return ch.Coord
}
func (ch *FriCheat) sel() int {
	if ch == nil {
		return 0
	}
	return ch.DeltaSel
}

// delta2 is a deviation in one coordinate, or a related one in both coordinates at once.
func delta2(coord, sel int) E {
	switch coord % 6 {
	case 0, 2:
		return E{delta(sel), 0}
	case 1, 3:
		return E{0, delta(sel)}
	}
	// a carry between coordinates: what a comparison of packed or summed coordinates cannot see
	k := []uint{0, 0, 1, 8, 16, 31, 32, 32, 32, 33, 63, uint(sel>>8) % 64}[sel>>1%12]
	d := E{F(1) << k % P, 1}
	if sel>>16&1 == 1 {
		d[0], d[1] = d[1], d[0]
	}
	if coord%6 == 4 || sel>>17&3 != 0 { // mostly of opposite sign
		d[sel&1] = Sub(0, d[sel&1])
	}
	return d
}

// Synthesize makes a FRI session the verifier must accept, or, with a cheat, must reject.
func Synthesize(r *rand.Rand, c *Common, ch *FriCheat) *Synth {
	s := &Synth{C: c}
	is := func(kind string, q, l int) bool {
		if ch != nil && ch.Kind == kind && (q < 0 || ch.Q%c.Queries == q) && (l < 0 || ch.L == l) {
			s.Hit = true
			return true
		}
		return false
	}
	rh := func(n int) []H {
		o := make([]H, n)
		for i := range o {
			o[i] = RandH(r)
		}
		return o
	}
	rx := func(n int) []X {
		o := make([]X, n)
		for i := range o {
			o[i] = XofE(RandE(r))
		}
		return o
	}
	w := c.Widths()
	s.Op = Openings{rx(c.NumConsts), rx(c.Routed), rx(c.NumWires), rx(c.NumChal), rx(c.NumChal), rx(c.NumChal * c.NumPP), rx(c.NumChal * c.QDF)}
	coins := c.RandCoins(r)
	s.Ch = coins
	// distinct cap entries per query so that every path can be committed
	L := c.LdeBits()
	top := r.Perm(16)
	for q := range coins.Indices {
		hi := r.Uint64() &^ (1<<uint(L) - 1)
		coins.Indices[q] = hi | uint64(top[q%16])<<uint(L-4) | uint64(r.Intn(1<<uint(L-4)))
		for coins.Indices[q] >= P {
			coins.Indices[q] -= 1 << 63
		}
	}
	if is("pow", -1, -1) {
		if c.PowBits == 0 {
			s.Hit = false
		} else {
			b := uint(64 - c.PowBits + ch.Arg%c.PowBits)
			coins.PowResp |= 1 << b
			if coins.PowResp >= P {
				coins.PowResp = 1 << b
			}
		}
	}
	for o := 0; o < 4; o++ {
		s.Caps = append(s.Caps, rh(16))
	}
	for k := 0; k < c.Steps; k++ {
		s.Fri.Caps = append(s.Fri.Caps, rh(16))
	}
	b0, b1 := XstoE(s.Op.Batch0()), XstoE(s.Op.ZsNext)
	r0, r1 := EReduce(b0, coins.FriAlpha), EReduce(b1, coins.FriAlpha)
	zn := EMulF(coins.Zeta, RootOfUnity(c.D))
	aN := EExp(coins.FriAlpha, uint64(c.NumChal))
	var pts []F
	var vals []E
	for q := 0; q < c.Queries; q++ {
		x := int(coins.Indices[q] & (1<<uint(L) - 1))
		var qu Query
		for o := 0; o < 4; o++ {
			leaf := make([]H, w[o])
			for i := range leaf {
				leaf[i] = FtoH(RandF(r))
			}
			lp := LeafProof{leaf, rh(L - 4)}
			at := x
			if is("init-index", q, o) {
				at ^= 1 << uint(ch.Arg%L)
			}
			rt, ci := root(leaf, at, lp.Sib)
			s.Caps[o][ci] = rt
			if is("init-leaf", q, o) {
				j := ch.Arg % len(leaf)
				lp.Leaf = dupH(leaf)
				lp.Leaf[j] = FtoH(Add(HtoF(leaf[j]), delta(ch.DeltaSel)))
			}
			if is("init-sibling", q, o) {
				if len(lp.Sib) == 0 {
					s.Hit = false
				} else {
					lp.Sib[ch.Arg%len(lp.Sib)] = RandH(r)
				}
			}
			if is("init-cap", q, o) {
				s.Caps[o][ci] = RandH(r)
			}
			qu.Init = append(qu.Init, lp)
		}
		pt := LdePoint(Generator, x, L)
		var all, zs []E
		for o := range qu.Init {
			for _, v := range qu.Init[o].Leaf {
				all = append(all, EOf(HtoF(v)))
			}
		}
		for j := 0; j < c.NumChal; j++ {
			zs = append(zs, EOf(HtoF(qu.Init[2].Leaf[j])))
		}
		sum := EMul(ESub(EReduce(all, coins.FriAlpha), r0), EInv(ESub(EOf(pt), coins.Zeta)))
		sum = EAdd(EMul(sum, aN), EMul(ESub(EReduce(zs, coins.FriAlpha), r1), EInv(ESub(EOf(pt), zn))))
		shift, bits, idx := Generator, L, x
		for k := 0; k < c.Steps; k++ {
			ev := make([]E, 16)
			for i := range ev {
				ev[i] = RandE(r)
			}
			ev[idx&15] = sum
			if is("fold", q, k) {
				ev[idx&15] = EAdd(sum, delta2(ch.Coord, ch.DeltaSel))
			}
			if is("fold-other-slot", q, k) { // the right value, but at another position of the coset
				j := (idx&15 + 1 + ch.Arg%15) & 15
				ev[j], ev[idx&15] = ev[idx&15], ev[j]
			}
			leafOf := func() []H {
				var l []H
				for _, e := range ev {
					l = append(l, FtoH(e[0]), FtoH(e[1]))
				}
				return l
			}
			leaf := leafOf()
			st := StepProof{Sib: rh(bits - 4 - 4)}
			at := idx >> 4
			if is("step-index", q, k) {
				at ^= 1 << uint(ch.Arg%(bits-4))
			}
			rt, ci := root(leaf, at, st.Sib)
			s.Fri.Caps[k][ci] = rt
			if is("step-leaf", q, k) {
				j := (idx&15 + 1 + ch.Arg%15) & 15
				ev[j] = EAdd(ev[j], delta2(ch.Coord, ch.DeltaSel))
			}
			if is("step-sibling", q, k) {
				if len(st.Sib) == 0 {
					s.Hit = false
				} else {
					st.Sib[ch.Arg%len(st.Sib)] = RandH(r)
				}
			}
			if is("step-cap", q, k) {
				s.Fri.Caps[k][ci] = RandH(r)
			}
			xs := make([]F, 16)
			for j := range xs {
				xs[j] = LdePoint(shift, idx&^15+j, bits)
			}
			sum = lagrange(xs, ev, coins.FriBetas[k])
			st.Evals = XsOf(ev)
			qu.Steps = append(qu.Steps, st)
			idx >>= 4
			bits -= 4
			shift = Exp(shift, 16)
			pt = Exp(pt, 16)
		}
		if is("final", q, -1) {
			sum = EAdd(sum, delta2(ch.Coord, ch.DeltaSel))
		}
		if c.Queries > 1 { // two queries deviate, by opposite or equal amounts
			d := delta2(ch.coord(), ch.sel())
			if is("final-pair", q, -1) {
				sum = EAdd(sum, d)
			}
			if is("final-pair", (q+c.Queries-1)%c.Queries, -1) {
				if ch.Arg%4 != 0 {
					d = ESub(E0, d)
				}
				sum = EAdd(sum, d)
			}
		}
		pts = append(pts, pt)
		vals = append(vals, sum)
		s.Fri.Queries = append(s.Fri.Queries, qu)
	}
	// final polynomial through all query points
	n := c.FinalLen()
	fin := make([]E, n)
	for i := c.Queries; i < n; i++ {
		fin[i] = RandE(r)
	}
	for i := range vals {
		vals[i] = ESub(vals[i], EReduce(fin, EOf(pts[i])))
	}
	for i, co := range interpolateCoefs(pts, vals) {
		fin[i] = EAdd(fin[i], co)
	}
	s.Fri.Final = XsOf(fin)
	s.Fri.Pow = FtoH(RandF(r))
	return s
}

func interpolateCoefs(xs []F, ys []E) []E {
	n := len(xs)
	out := make([]E, n)
	for i := range xs {
		num := []F{1}
		den := F(1)
		for j := range xs {
			if j == i {
				continue
			}
			nx := make([]F, len(num)+1)
			for k, v := range num {
				nx[k+1] = Add(nx[k+1], v)
				nx[k] = Sub(nx[k], Mul(v, xs[j]))
			}
			num = nx
			den = Mul(den, Sub(xs[i], xs[j]))
		}
		sc := EMulF(ys[i], Inv(den))
		for k, v := range num {
			out[k] = EAdd(out[k], EMulF(sc, v))
		}
	}
	return out
}

// SynthPlonk makes openings satisfying the quotient identity for rigged coins; chal >= 0 breaks the
// identity of that challenge.
func SynthPlonk(r *rand.Rand, c *Common, chal, coord, sel int, pair ...int) (*Openings, *Challenges, [4]F) {
	rx := func(n int) []X {
		o := make([]X, n)
		for i := range o {
			o[i] = XofE(RandE(r))
		}
		return o
	}
	o := &Openings{rx(c.NumConsts), rx(c.Routed), rx(c.NumWires), rx(c.NumChal), rx(c.NumChal), rx(c.NumChal * c.NumPP), rx(c.NumChal * c.QDF)}
	ch := c.RandCoins(r)
	var pih [4]F
	for i := range pih {
		pih[i] = RandF(r)
	}
	xn := ch.Zeta
	for i := 0; i < c.D; i++ {
		xn = EMul(xn, xn)
	}
	v := c.Vanishing(ch.Zeta, xn, XstoE(o.Constants), XstoE(o.Sigmas), XstoE(o.Wires), XstoE(o.Zs), XstoE(o.ZsNext), XstoE(o.PPs), ch, pih)
	iz := EInv(ESub(xn, E1))
	for k := 0; k < c.NumChal; k++ {
		want := v[k]
		if k == chal {
			want = EAdd(want, delta2(coord, sel))
		}
		for _, pr := range pair { // another challenge deviates too, by the opposite or the same amount
			if k == (chal+1)%c.NumChal && k != chal {
				d := delta2(coord, sel)
				if pr%4 != 0 {
					d = ESub(E0, d)
				}
				want = EAdd(want, d)
			}
		}
		q := XstoE(o.Quot[k*c.QDF : (k+1)*c.QDF])
		q[0] = E0
		o.Quot[k*c.QDF] = XofE(ESub(EMul(want, iz), EReduce(q, xn)))
	}
	return o, ch, pih
}

// Root is the node reached from a leaf along a path.
func Root(leaf []H, idx int, sib []H) H { h, _ := root(leaf, idx, sib); return h }

// Blank is a message of the right shape that proves nothing.
func Blank(r *rand.Rand, c *Common) *Msg {
	hs := func(n int) []H {
		o := make([]H, n)
		for i := range o {
			o[i] = RandH(r)
		}
		return o
	}
	fs := func(n int) []H {
		o := make([]H, n)
		for i := range o {
			o[i] = FtoH(RandF(r))
		}
		return o
	}
	xs := func(n int) []X {
		o := make([]X, n)
		for i := range o {
			o[i] = XofE(RandE(r))
		}
		return o
	}
	m := &Msg{VD: VData{Cap: hs(16), Digest: RandH(r)}}
	for i := 0; i < c.NumPI; i++ {
		m.PIs = append(m.PIs, RandF(r))
	}
	p := &m.Proof
	p.WiresCap, p.ZsCap, p.QuotCap = hs(16), hs(16), hs(16)
	p.Op = Openings{xs(c.NumConsts), xs(c.Routed), xs(c.NumWires), xs(c.NumChal), xs(c.NumChal), xs(c.NumChal * c.NumPP), xs(c.NumChal * c.QDF)}
	for k := 0; k < c.Steps; k++ {
		p.Fri.Caps = append(p.Fri.Caps, hs(16))
	}
	w := c.Widths()
	for q := 0; q < c.Queries; q++ {
		var qr Query
		for o := 0; o < 4; o++ {
			qr.Init = append(qr.Init, LeafProof{fs(w[o]), hs(c.LdeBits() - 4)})
		}
		for k := 0; k < c.Steps; k++ {
			qr.Steps = append(qr.Steps, StepProof{xs(16), hs(c.LdeBits() - ArityBits*(k+1) - 4)})
		}
		p.Fri.Queries = append(p.Fri.Queries, qr)
	}
	p.Fri.Final, p.Fri.Pow = xs(c.FinalLen()), FtoH(RandF(r))
	return m
}
