package ref

import (
	"errors"
	"fmt"
	"math/rand"
	"sort"
)

const CapHeight = 4
const ArityBits = 4

// Common is the native counterpart of the common circuit data.
type Common struct {
	D, RateBits, PowBits, Queries int
	Steps                         int // number of arity-16 reductions
	NumWires, Routed, NumConsts   int // NumConsts includes the selectors
	NumChal, QDF, NumPP           int
	Gates                         []Gate
	SelIdx                        []int
	Groups                        [][2]int
	NumGateConstraints            int
	NumPI                         int
	Ks                            []F
}

func (c *Common) N() int        { return 1 << c.D }
func (c *Common) LdeBits() int  { return c.D + c.RateBits }
func (c *Common) FinalLen() int { return 1 << (c.D - ArityBits*c.Steps) }
func (c *Common) NumSel() int   { return len(c.Groups) }

// Widths of the four oracles.
func (c *Common) Widths() [4]int {
	return [4]int{c.NumConsts + c.Routed, c.NumWires, c.NumChal * (1 + c.NumPP), c.NumChal * c.QDF}
}

// X is an extension element in wire format: two native field values, possibly non-canonical.
type X [2]H

type Openings struct {
	Constants, Sigmas, Wires, Zs, ZsNext, PPs, Quot []X
}

// Batch0 lists the openings at zeta in oracle order.
func (o *Openings) Batch0() []X {
	var r []X
	r = append(r, o.Constants...)
	r = append(r, o.Sigmas...)
	r = append(r, o.Wires...)
	r = append(r, o.Zs...)
	r = append(r, o.PPs...)
	return append(r, o.Quot...)
}

type LeafProof struct {
	Leaf []H
	Sib  []H
}
type StepProof struct {
	Evals []X
	Sib   []H
}
type Query struct {
	Init  []LeafProof
	Steps []StepProof
}
type FriProof struct {
	Caps    [][]H
	Queries []Query
	Final   []X
	Pow     H
}
type Proof struct {
	WiresCap, ZsCap, QuotCap []H
	Op                       Openings
	Fri                      FriProof
}
type VData struct {
	Cap    []H
	Digest H
}

// Msg is everything the verifier receives.
type Msg struct {
	Proof Proof
	PIs   []F
	VD    VData
}

// Challenges are the verifier's coins.
type Challenges struct {
	Betas, Gammas, Alphas []F
	Zeta                  E
	FriAlpha              E
	FriBetas              []E
	PowResp               F
	Indices               []F
}

func dupH(a []H) []H { return append([]H(nil), a...) }
func dupX(a []X) []X { return append([]X(nil), a...) }

func (p *Proof) Clone() Proof {
	q := Proof{WiresCap: dupH(p.WiresCap), ZsCap: dupH(p.ZsCap), QuotCap: dupH(p.QuotCap)}
	o := &p.Op
	q.Op = Openings{dupX(o.Constants), dupX(o.Sigmas), dupX(o.Wires), dupX(o.Zs), dupX(o.ZsNext), dupX(o.PPs), dupX(o.Quot)}
	q.Fri = p.Fri.Clone()
	return q
}
func (p *FriProof) Clone() FriProof {
	q := FriProof{Final: dupX(p.Final), Pow: p.Pow}
	for _, c := range p.Caps {
		q.Caps = append(q.Caps, dupH(c))
	}
	for _, r := range p.Queries {
		var n Query
		for _, l := range r.Init {
			n.Init = append(n.Init, LeafProof{dupH(l.Leaf), dupH(l.Sib)})
		}
		for _, s := range r.Steps {
			n.Steps = append(n.Steps, StepProof{dupX(s.Evals), dupH(s.Sib)})
		}
		q.Queries = append(q.Queries, n)
	}
	return q
}
func (m *Msg) Clone() *Msg {
	return &Msg{Proof: m.Proof.Clone(), PIs: append([]F(nil), m.PIs...), VD: VData{dupH(m.VD.Cap), m.VD.Digest}}
}

// ---- conversions ----

func XofE(e E) X { return X{FtoH(e[0]), FtoH(e[1])} }
func XsOf(es []E) []X {
	r := make([]X, len(es))
	for i := range es {
		r[i] = XofE(es[i])
	}
	return r
}

// HtoF reduces a native value modulo P (as an integer).
func HtoF(h H) F {
	if h.IsUint64() {
		return h.Uint64() % P
	}
	b := h.Bytes() // big endian, canonical
	r := F(0)
	for _, x := range b {
		r = Add(Mul(r, 256), F(x))
	}
	return r
}
func Canonical(h H) bool { return h.IsUint64() && h.Uint64() < P }
func XtoE(x X) E         { return E{HtoF(x[0]), HtoF(x[1])} }
func XstoE(xs []X) []E {
	r := make([]E, len(xs))
	for i := range xs {
		r[i] = XtoE(xs[i])
	}
	return r
}

// ---- Merkle trees ----

type Tree struct {
	Leaves [][]H
	Layers [][]H // Layers[0] = leaf digests, last = cap
}

func NewTree(leaves [][]H) *Tree {
	t := &Tree{Leaves: leaves}
	l := make([]H, len(leaves))
	for i := range leaves {
		l[i] = HashLeafH(leaves[i])
	}
	t.Layers = append(t.Layers, l)
	for len(l) > 1<<CapHeight {
		n := make([]H, len(l)/2)
		for i := range n {
			n[i] = TwoToOne(l[2*i], l[2*i+1])
		}
		l = n
		t.Layers = append(t.Layers, l)
	}
	return t
}
func (t *Tree) Cap() []H { return dupH(t.Layers[len(t.Layers)-1]) }
func (t *Tree) Path(i int) []H {
	var s []H
	for _, l := range t.Layers[:len(t.Layers)-1] {
		s = append(s, l[i^1])
		i >>= 1
	}
	return s
}
func checkPath(leaf []H, idx int, sib []H, cap []H) bool {
	d := HashLeafH(leaf)
	for _, s := range sib {
		if idx&1 == 1 {
			d = TwoToOne(s, d)
		} else {
			d = TwoToOne(d, s)
		}
		idx >>= 1
	}
	return idx < len(cap) && d.Equal(&cap[idx])
}

// ---- vanishing polynomial ----

func (c *Common) Filter(g int, s E) E {
	gr := c.Groups[c.SelIdx[g]]
	p := E1
	for i := gr[0]; i < gr[1]; i++ {
		if i != g {
			p = EMul(p, ESub(EOf(F(i)), s))
		}
	}
	if c.NumSel() > 1 {
		p = EMul(p, ESub(EOf(UnusedSelect), s))
	}
	return p
}

// GateTerms evaluates all filtered gate constraints.
func (c *Common) GateTerms(consts, wires []E, pih [4]F) []E {
	out := make([]E, c.NumGateConstraints)
	for g, gate := range c.Gates {
		f := c.Filter(g, consts[c.SelIdx[g]])
		for i, v := range gate.Eval(consts[c.NumSel():], wires, pih) {
			out[i] = EAdd(out[i], EMul(f, v))
		}
	}
	return out
}

// Vanishing evaluates the combined vanishing polynomial for each challenge.
func (c *Common) Vanishing(x E, xn E, consts, sigmas, wires, zs, zsNext, pps []E, ch *Challenges, pih [4]F) []E {
	var z1, pp []E
	// L_0(x) = (x^n - 1) / (n (x - 1))
	l0 := EMul(ESub(xn, E1), EInv(EMulF(ESub(x, E1), F(c.N()))))
	for k := 0; k < c.NumChal; k++ {
		z1 = append(z1, EMul(l0, ESub(zs[k], E1)))
		acc := []E{zs[k]}
		acc = append(acc, pps[k*c.NumPP:(k+1)*c.NumPP]...)
		acc = append(acc, zsNext[k])
		for i := 0; i <= c.NumPP; i++ {
			n, d := E1, E1
			for j := i * c.QDF; j < (i+1)*c.QDF && j < c.Routed; j++ {
				b := EAdd(wires[j], EOf(ch.Gammas[k]))
				n = EMul(n, EAdd(b, EMulF(EMulF(x, c.Ks[j]), ch.Betas[k])))
				d = EMul(d, EAdd(b, EMulF(sigmas[j], ch.Betas[k])))
			}
			pp = append(pp, ESub(EMul(acc[i], n), EMul(acc[i+1], d)))
		}
	}
	terms := append(z1, pp...)
	terms = append(terms, c.GateTerms(consts, wires, pih)...)
	out := make([]E, c.NumChal)
	for k := range out {
		out[k] = EReduce(terms, EOf(ch.Alphas[k]))
	}
	return out
}

// ---- reference verifier ----

var ErrShape = errors.New("shape")
var ErrCanon = errors.New("non-canonical")

// Shape validates the message shape against the circuit data.
func (c *Common) Shape(m *Msg) error {
	bad := func(w string) error { return fmt.Errorf("%w: %s", ErrShape, w) }
	p := &m.Proof
	caps := [][]H{m.VD.Cap, p.WiresCap, p.ZsCap, p.QuotCap}
	caps = append(caps, p.Fri.Caps...)
	for _, k := range caps {
		if len(k) != 1<<CapHeight {
			return bad("cap")
		}
	}
	if len(m.PIs) != c.NumPI {
		return bad("public inputs")
	}
	o := &p.Op
	if len(o.Constants) != c.NumConsts || len(o.Sigmas) != c.Routed || len(o.Wires) != c.NumWires ||
		len(o.Zs) != c.NumChal || len(o.ZsNext) != c.NumChal || len(o.PPs) != c.NumChal*c.NumPP || len(o.Quot) != c.NumChal*c.QDF {
		return bad("openings")
	}
	return c.FriShape(&p.Fri)
}

func (c *Common) FriShape(f *FriProof) error {
	bad := func(w string) error { return fmt.Errorf("%w: %s", ErrShape, w) }
	if len(f.Caps) != c.Steps {
		return bad("commit caps")
	}
	for _, k := range f.Caps {
		if len(k) != 1<<CapHeight {
			return bad("cap")
		}
	}
	if len(f.Final) != c.FinalLen() {
		return bad("final poly")
	}
	if len(f.Queries) != c.Queries {
		return bad("queries")
	}
	w := c.Widths()
	for _, q := range f.Queries {
		if len(q.Init) != 4 || len(q.Steps) != c.Steps {
			return bad("query")
		}
		for i, l := range q.Init {
			if len(l.Leaf) != w[i] || len(l.Sib) != c.LdeBits()-CapHeight {
				return bad("leaf")
			}
		}
		for i, s := range q.Steps {
			if len(s.Evals) != 1<<ArityBits || len(s.Sib) != c.LdeBits()-ArityBits*(i+1)-CapHeight {
				return bad("step")
			}
		}
	}
	return nil
}

// Canon checks that every Goldilocks element of the proof is canonical.
func (p *Proof) Canon() error {
	ck := func(xs []X) bool {
		for _, x := range xs {
			if !Canonical(x[0]) || !Canonical(x[1]) {
				return false
			}
		}
		return true
	}
	o := &p.Op
	for _, xs := range [][]X{o.Constants, o.Sigmas, o.Wires, o.Zs, o.ZsNext, o.PPs, o.Quot, p.Fri.Final} {
		if !ck(xs) {
			return ErrCanon
		}
	}
	if !Canonical(p.Fri.Pow) {
		return ErrCanon
	}
	for _, q := range p.Fri.Queries {
		for _, l := range q.Init {
			for _, v := range l.Leaf {
				if !Canonical(v) {
					return ErrCanon
				}
			}
		}
		for _, s := range q.Steps {
			if !ck(s.Evals) {
				return ErrCanon
			}
		}
	}
	return nil
}

func PIHash(pis []F) (h [4]F) {
	copy(h[:], HashNoPadGL(pis, 4))
	return
}

// Derive computes all challenges from the transcript.
func (c *Common) Derive(m *Msg) *Challenges {
	var t Challenger
	p := &m.Proof
	ch := &Challenges{}
	t.ObserveHash(m.VD.Digest)
	pih := PIHash(m.PIs)
	t.Observe(pih[:]...)
	t.ObserveCap(p.WiresCap)
	ch.Betas = t.GetN(c.NumChal)
	ch.Gammas = t.GetN(c.NumChal)
	t.ObserveCap(p.ZsCap)
	ch.Alphas = t.GetN(c.NumChal)
	t.ObserveCap(p.QuotCap)
	ch.Zeta = t.GetE()
	t.ObserveE(XstoE(p.Op.Batch0())...)
	t.ObserveE(XstoE(p.Op.ZsNext)...)
	ch.FriAlpha = t.GetE()
	for _, k := range p.Fri.Caps {
		t.ObserveCap(k)
		ch.FriBetas = append(ch.FriBetas, t.GetE())
	}
	t.ObserveE(XstoE(p.Fri.Final)...)
	t.Observe(HtoF(p.Fri.Pow))
	ch.PowResp = t.Get()
	ch.Indices = t.GetN(c.Queries)
	return ch
}

// PlonkCheck is the native quotient identity check.
func (c *Common) PlonkCheck(o *Openings, ch *Challenges, pih [4]F) error {
	xn := ch.Zeta
	for i := 0; i < c.D; i++ {
		xn = EMul(xn, xn)
	}
	if ch.Zeta == E1 {
		return errors.New("zeta is one")
	}
	v := c.Vanishing(ch.Zeta, xn, XstoE(o.Constants), XstoE(o.Sigmas), XstoE(o.Wires), XstoE(o.Zs), XstoE(o.ZsNext), XstoE(o.PPs), ch, pih)
	q := XstoE(o.Quot)
	zh := ESub(xn, E1)
	for k := 0; k < c.NumChal; k++ {
		t := EReduce(q[k*c.QDF:(k+1)*c.QDF], xn)
		if EMul(zh, t) != v[k] {
			return fmt.Errorf("quotient identity %d", k)
		}
	}
	return nil
}

// LdePoint is the domain point of leaf index i in a domain of 2^bits with the given shift.
func LdePoint(shift F, i, bits int) F {
	return Mul(shift, Exp(RootOfUnity(bits), uint64(bitrev(i, bits))))
}

// FriCheck is the native FRI verifier. b0 and b1 are the openings at zeta and g*zeta.
func (c *Common) FriCheck(b0, b1 []E, ch *Challenges, caps [][]H, f *FriProof) error {
	if c.PowBits > 0 && ch.PowResp>>(64-uint(c.PowBits)) != 0 {
		return errors.New("pow")
	}
	w := c.Widths()
	r0, r1 := EReduce(b0, ch.FriAlpha), EReduce(b1, ch.FriAlpha)
	g := RootOfUnity(c.D)
	zn := EMulF(ch.Zeta, g)
	aN := EExp(ch.FriAlpha, uint64(c.NumChal))
	for qi, q := range f.Queries {
		x := int(ch.Indices[qi] & uint64(1<<c.LdeBits()-1))
		for o, l := range q.Init {
			if !checkPath(l.Leaf, x, l.Sib, caps[o]) {
				return fmt.Errorf("query %d oracle %d path", qi, o)
			}
		}
		pt := LdePoint(Generator, x, c.LdeBits())
		var all []E
		for o := range q.Init {
			for j := 0; j < w[o]; j++ {
				all = append(all, EOf(HtoF(q.Init[o].Leaf[j])))
			}
		}
		var zs []E
		for j := 0; j < c.NumChal; j++ {
			zs = append(zs, EOf(HtoF(q.Init[2].Leaf[j])))
		}
		d0, d1 := ESub(EOf(pt), ch.Zeta), ESub(EOf(pt), zn)
		if d0 == E0 || d1 == E0 {
			return errors.New("zeta in domain")
		}
		sum := EMul(ESub(EReduce(all, ch.FriAlpha), r0), EInv(d0))
		sum = EAdd(EMul(sum, aN), EMul(ESub(EReduce(zs, ch.FriAlpha), r1), EInv(d1)))
		shift, bits, idx := Generator, c.LdeBits(), x
		for k, s := range q.Steps {
			ev := XstoE(s.Evals)
			if ev[idx&15] != sum {
				return fmt.Errorf("query %d step %d consistency", qi, k)
			}
			base := idx &^ 15
			xs := make([]F, 16)
			for j := range xs {
				xs[j] = LdePoint(shift, base+j, bits)
			}
			sum = lagrange(xs, ev, ch.FriBetas[k])
			var leaf []H
			for _, e := range s.Evals {
				leaf = append(leaf, e[0], e[1])
			}
			idx >>= 4
			if !checkPath(leaf, idx, s.Sib, f.Caps[k]) {
				return fmt.Errorf("query %d step %d path", qi, k)
			}
			bits -= 4
			shift = Exp(shift, 16)
			pt = Exp(pt, 16)
		}
		if EReduce(XstoE(f.Final), EOf(pt)) != sum {
			return fmt.Errorf("query %d final", qi)
		}
	}
	return nil
}

func lagrange(xs []F, ys []E, b E) E {
	r := E0
	for i := range xs {
		if b == EOf(xs[i]) {
			return ys[i]
		}
	}
	for i := range xs {
		n, d := E1, F(1)
		for j := range xs {
			if i != j {
				n = EMul(n, ESub(b, EOf(xs[j])))
				d = Mul(d, Sub(xs[i], xs[j]))
			}
		}
		r = EAdd(r, EMul(ys[i], EMulF(n, Inv(d))))
	}
	return r
}

// Verify is the reference verifier.
func (c *Common) Verify(m *Msg) error {
	if err := c.Shape(m); err != nil {
		return err
	}
	if err := m.Proof.Canon(); err != nil {
		return err
	}
	ch := c.Derive(m)
	if err := c.PlonkCheck(&m.Proof.Op, ch, PIHash(m.PIs)); err != nil {
		return err
	}
	caps := [][]H{m.VD.Cap, m.Proof.WiresCap, m.Proof.ZsCap, m.Proof.QuotCap}
	return c.FriCheck(XstoE(m.Proof.Op.Batch0()), XstoE(m.Proof.Op.ZsNext), ch, caps, &m.Proof.Fri)
}

// ---- circuit instances and the prover ----

// Instance is a circuit together with a satisfying witness.
type Instance struct {
	C      *Common
	Consts [][]F // columns
	Sigmas [][]F
	Wires  [][]F
	PIs    []F
	csLde  [][]F // natural order values on the LDE coset per column
	csTree *Tree
	csCoef [][]F
	VD     VData
	RowG   []int // gate index of each row
}

type CircuitOpts struct {
	D, RateBits, PowBits, Queries, NumChal, QDF, NumPI int
	Steps                                              int
	Gates                                              []Gate
	Routed                                             int // 0: default
	ExtraWires                                         int
	Layout                                             int64
	Ragged                                             bool // routed wires need not fill the last chunk
}

// Layout derives the common data of a circuit without a witness.
func Layout(o CircuitOpts) *Common {
	c, _ := layout(o)
	return c
}

// NewInstance lays out the circuit, fills a witness and commits to constants and sigmas.
func NewInstance(r *rand.Rand, o CircuitOpts) *Instance {
	c, maxC := layout(o)
	gates := c.Gates
	in := &Instance{C: c}
	n := c.N()
	for i := 0; i < c.NumPI; i++ {
		in.PIs = append(in.PIs, RandF(r))
	}
	pih := PIHash(in.PIs)
	alloc := func(w int) [][]F {
		m := make([][]F, w)
		for i := range m {
			m[i] = make([]F, n)
		}
		return m
	}
	in.Consts, in.Wires = alloc(c.NumConsts), alloc(c.NumWires)
	var pool []F
	inF := func() F {
		if len(pool) > 0 && r.Intn(3) == 0 {
			return pool[r.Intn(len(pool))]
		}
		v := RandF(r)
		pool = append(pool, v)
		return v
	}
	for row := 0; row < n; row++ {
		g := r.Intn(len(gates))
		if row < len(gates) {
			g = row
		}
		in.RowG = append(in.RowG, g)
		cs, ws := make([]F, maxC+1), make([]F, c.NumWires+8)
		for i := range ws { // unused wires are free
			if r.Intn(4) == 0 {
				ws[i] = RandF(r)
			}
		}
		for i := range cs {
			if r.Intn(4) == 0 {
				cs[i] = RandF(r)
			}
		}
		gates[g].Fill(r, inF, cs, ws, pih)
		for s := 0; s < c.NumSel(); s++ {
			if s == c.SelIdx[g] {
				in.Consts[s][row] = F(g)
			} else {
				in.Consts[s][row] = UnusedSelect
			}
		}
		for i := 0; i < maxC; i++ {
			in.Consts[c.NumSel()+i][row] = cs[i]
		}
		for i := 0; i < c.NumWires; i++ {
			in.Wires[i][row] = ws[i]
		}
	}
	// Columns no gate uses may hold anything: make some of them constant so that their openings and
	// leaves take boundary values.
	used := 0
	for _, g := range gates {
		used = max(used, g.NumWires())
	}
	for i := used; i < c.NumWires; i++ {
		if r.Intn(2) == 0 {
			v := []F{0, 1, P - 1, P - 2, 1<<32 - 1, 1 << 32, P - 1<<32, 1<<63 - 1, 1 << 63}[r.Intn(9)]
			for row := 0; row < n; row++ {
				in.Wires[i][row] = v
			}
		}
	}
	// Random copy constraints: random cycles among equal routed cells.
	cells := map[F][]int{}
	for col := 0; col < c.Routed; col++ {
		for row := 0; row < n; row++ {
			v := in.Wires[col][row]
			cells[v] = append(cells[v], col*n+row)
		}
	}
	perm := make([]int, c.Routed*n)
	var keys []F
	for v := range cells {
		keys = append(keys, v)
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i] < keys[j] })
	for _, v := range keys {
		l := cells[v]
		r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
		for i := range l {
			perm[l[i]] = l[(i+1)%len(l)]
		}
	}
	w := RootOfUnity(c.D)
	pw := make([]F, n)
	pw[0] = 1
	for i := 1; i < n; i++ {
		pw[i] = Mul(pw[i-1], w)
	}
	in.Sigmas = alloc(c.Routed)
	for i, t := range perm {
		in.Sigmas[i/n][i%n] = Mul(c.Ks[t/n], pw[t%n])
	}
	in.Commit(r)
	return in
}

func layout(o CircuitOpts) (*Common, int) {
	c := &Common{D: o.D, RateBits: o.RateBits, PowBits: o.PowBits, Queries: o.Queries, NumChal: o.NumChal, QDF: o.QDF, NumPI: o.NumPI}
	c.Steps = o.Steps
	if c.Steps < 0 || c.D-ArityBits*c.Steps < 0 || c.LdeBits()-ArityBits*c.Steps < CapHeight {
		panic("bad FRI parameters")
	}
	gates := append([]Gate(nil), o.Gates...)
	sort.SliceStable(gates, func(i, j int) bool { return gates[i].Degree() < gates[j].Degree() })
	c.Gates = gates
	lay := rand.New(rand.NewSource(o.Layout))
	maxDeg := o.QDF + 1
	top := gates[len(gates)-1].Degree()
	if top+len(gates)-1 <= maxDeg {
		c.Groups = [][2]int{{0, len(gates)}}
		c.SelIdx = make([]int, len(gates))
	} else {
		// as in plonky2: the filter of a group of size s has degree s (with the unused-selector factor)
		for s := 0; s < len(gates); {
			e := s
			for e < len(gates) && gates[e].Degree()+(e-s+1) <= maxDeg {
				e++
			}
			if e == s {
				panic("gate degree too high: " + gates[s].ID())
			}
			if lay.Intn(3) == 0 && e > s+1 { // random split, still a valid layout
				e = s + 1 + lay.Intn(e-s)
			}
			for i := s; i < e; i++ {
				c.SelIdx = append(c.SelIdx, len(c.Groups))
			}
			c.Groups = append(c.Groups, [2]int{s, e})
			s = e
		}
	}
	maxC := 0
	for _, g := range gates {
		if g.NumWires() > c.NumWires {
			c.NumWires = g.NumWires()
		}
		if g.NumConsts() > maxC {
			maxC = g.NumConsts()
		}
		if g.NumConstraints() > c.NumGateConstraints {
			c.NumGateConstraints = g.NumConstraints()
		}
	}
	c.NumWires += o.ExtraWires
	c.Routed = o.Routed
	if c.Routed == 0 {
		c.Routed = c.NumWires / 2
	}
	if !o.Ragged {
		c.Routed = (c.Routed + c.QDF - 1) / c.QDF * c.QDF
	}
	if least := max(4, c.QDF); c.Routed < least { // no partial products at all
		c.Routed = least
	}
	if c.NumWires < c.Routed {
		c.NumWires = c.Routed
	}
	c.NumPP = (c.Routed+c.QDF-1)/c.QDF - 1
	c.NumConsts = c.NumSel() + maxC
	k := F(1)
	for i := 0; i < c.Routed; i++ {
		c.Ks = append(c.Ks, k)
		k = Mul(k, Generator)
	}
	return c, maxC
}

// Commit (re)commits to constants and sigmas and draws a circuit digest.
func (in *Instance) Commit(r *rand.Rand) {
	in.csLde, in.csTree, in.csCoef = in.C.commitCols(append(append([][]F(nil), in.Consts...), in.Sigmas...), nil)
	in.VD = VData{Cap: in.csTree.Cap(), Digest: RandH(r)}
}

// WithPIs is the same circuit proving the statement for other public inputs.
func (in *Instance) WithPIs(pis []F) *Instance {
	q := *in
	q.PIs = append([]F(nil), pis...)
	q.Wires = append([][]F(nil), in.Wires...)
	h := PIHash(pis)
	for i := 0; i < 4; i++ {
		q.Wires[i] = append([]F(nil), in.Wires[i]...)
		for row, g := range in.RowG {
			if _, ok := in.C.Gates[g].(PublicInput); ok {
				q.Wires[i][row] = h[i]
			}
		}
	}
	return &q
}

func RandF(r *rand.Rand) F {
	switch r.Intn(12) {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return P - 1
	case 3:
		return F(r.Intn(256))
	case 4:
		return 0xFFFFFFFF00000000 // == P-1; high limb all ones
	case 5:
		return F(r.Uint32()) << 32 % P
	}
	return r.Uint64() % P
}
func RandE(r *rand.Rand) E { return E{RandF(r), RandF(r)} }
func RandH(r *rand.Rand) H {
	var h H
	var b [32]byte
	r.Read(b[:])
	h.SetBytes(b[:])
	return h
}

// encFn chooses the wire encoding of value v at (column, leaf index); nil means canonical.
type encFn func(col, leaf int, v F) H

func (c *Common) commitCols(cols [][]F, enc encFn) (lde [][]F, t *Tree, coefs [][]F) {
	for _, v := range cols {
		coefs = append(coefs, INTT(v))
	}
	lde, t = c.commitCoefs(coefs, enc)
	return
}
func (c *Common) commitCoefs(coefs [][]F, enc encFn) ([][]F, *Tree) {
	L := 1 << c.LdeBits()
	lde := make([][]F, len(coefs))
	for i := range coefs {
		lde[i] = CosetNTT(coefs[i], L, Generator)
	}
	leaves := make([][]H, L)
	for i := range leaves {
		j := bitrev(i, c.LdeBits())
		row := make([]H, len(coefs))
		for k := range coefs {
			if enc != nil {
				row[k] = enc(k, i, lde[k][j])
			} else {
				row[k] = FtoH(lde[k][j])
			}
		}
		leaves[i] = row
	}
	return lde, NewTree(leaves)
}

// Hooks let a Byzantine prover deviate at chosen points. All nil: honest.
type Hooks struct {
	Wires     func(cols [][]F)                      // before committing the wires
	Zs        func(z [][]F, pp [][]F)               // columns of Z and partial products before commitment
	Quot      func(coefs [][]F)                     // quotient chunks before commitment
	Openings  func(o *Openings, ch *Challenges)     // openings before they enter the transcript
	FriValues func(k int, shift F, vals []E)        // values of FRI layer k (natural order) before commitment
	FriCoefs  func(k int, coefs []E, beta E)        // coefficients after folding by layer k's beta
	Final     func(f []X)                           // final polynomial before the transcript
	Pow       func(ok func(F) bool) F               // choose the proof of work witness
	Enc       func(oracle, col, leaf int, v F) H    // leaf encodings
	EncStep   func(step, leaf, j, coord int, v F) H // FRI leaf encodings
	EncPow    func(v F) H                           // proof-of-work witness encoding
	Coins     *Challenges                           // rigged coins; fields that are nil/zero length fall back to the transcript
	Rigged    bool                                  // use Coins
	Response  func(q int, x int, out *Query)        // per query answer
	PISwap    *[4]F                                 // pretend this public input hash in the quotient
}

// Run is the state of one prover execution.
type Run struct {
	In    *Instance
	Msg   *Msg
	Ch    *Challenges
	Trees [4]*Tree
	Lde   [4][][]F
	FTree []*Tree
}

// Prove runs the (possibly Byzantine) prover.
func (in *Instance) Prove(r *rand.Rand, hk *Hooks) *Run {
	if hk == nil {
		hk = &Hooks{}
	}
	c := in.C
	n := c.N()
	run := &Run{In: in}
	m := &Msg{PIs: append([]F(nil), in.PIs...), VD: VData{dupH(in.VD.Cap), in.VD.Digest}}
	run.Msg = m
	p := &m.Proof
	pih := PIHash(in.PIs)
	if hk.PISwap != nil {
		pih = *hk.PISwap
	}
	ch := &Challenges{}
	run.Ch = ch
	var t Challenger
	encFor := func(o int) encFn {
		if hk.Enc == nil {
			return nil
		}
		return func(col, leaf int, v F) H { return hk.Enc(o, col, leaf, v) }
	}
	t.ObserveHash(m.VD.Digest)
	tp := PIHash(in.PIs)
	t.Observe(tp[:]...)

	csLde, csTree := in.csLde, in.csTree
	if hk.Enc != nil { // constants and sigmas with a chosen encoding: the circuit owner's tree
		csLde, csTree = c.commitCoefs(in.csCoef, encFor(0))
		m.VD.Cap = csTree.Cap()
	}
	wires := make([][]F, c.NumWires)
	for i := range wires {
		wires[i] = append([]F(nil), in.Wires[i]...)
	}
	if hk.Wires != nil {
		hk.Wires(wires)
	}
	wLde, wTree, wCoef := c.commitCols(wires, encFor(1))
	p.WiresCap = wTree.Cap()
	t.ObserveCap(p.WiresCap)
	ch.Betas, ch.Gammas = t.GetN(c.NumChal), t.GetN(c.NumChal)
	if hk.Rigged {
		ch.Betas, ch.Gammas = hk.Coins.Betas, hk.Coins.Gammas
	}

	// permutation accumulators
	w := RootOfUnity(c.D)
	zs := make([][]F, c.NumChal)
	pps := make([][]F, 0)
	for k := 0; k < c.NumChal; k++ {
		z := make([]F, n)
		ppk := make([][]F, c.NumPP)
		for i := range ppk {
			ppk[i] = make([]F, n)
		}
		acc, x := F(1), F(1)
		for row := 0; row < n; row++ {
			z[row] = acc
			for i := 0; i <= c.NumPP; i++ {
				nu, de := F(1), F(1)
				for j := i * c.QDF; j < (i+1)*c.QDF && j < c.Routed; j++ {
					b := Add(wires[j][row], ch.Gammas[k])
					nu = Mul(nu, Add(b, Mul(ch.Betas[k], Mul(c.Ks[j], x))))
					de = Mul(de, Add(b, Mul(ch.Betas[k], in.Sigmas[j][row])))
				}
				acc = Mul(acc, Mul(nu, Inv(de)))
				if i < c.NumPP {
					ppk[i][row] = acc
				}
			}
			x = Mul(x, w)
		}
		zs[k] = z
		pps = append(pps, ppk...)
	}
	if hk.Zs != nil {
		hk.Zs(zs, pps)
	}
	zLde, zTree, zCoef := c.commitCols(append(append([][]F(nil), zs...), pps...), encFor(2))
	p.ZsCap = zTree.Cap()
	t.ObserveCap(p.ZsCap)
	ch.Alphas = t.GetN(c.NumChal)
	if hk.Rigged {
		ch.Alphas = hk.Coins.Alphas
	}

	// quotient
	qb := 0
	for 1<<qb < c.QDF {
		qb++
	}
	M := n << qb
	ev := func(coefs [][]F) [][]F {
		o := make([][]F, len(coefs))
		for i := range coefs {
			o[i] = CosetNTT(coefs[i], M, Generator)
		}
		return o
	}
	csM, wM, zM := csLde, wLde, zLde
	if c.RateBits != qb {
		csM, wM, zM = ev(in.csCoef), ev(wCoef), ev(zCoef)
	}
	wm := RootOfUnity(c.D + qb)
	x := Generator
	qv := make([][]F, c.NumChal)
	for k := range qv {
		qv[k] = make([]F, M)
	}
	at := func(cols [][]F, lo, hi, i int) []E {
		o := make([]E, hi-lo)
		for j := range o {
			o[j] = EOf(cols[lo+j][i])
		}
		return o
	}
	step := 1 << qb
	for i := 0; i < M; i++ {
		xn := Exp(x, uint64(n))
		v := c.Vanishing(EOf(x), EOf(xn), at(csM, 0, c.NumConsts, i), at(csM, c.NumConsts, c.NumConsts+c.Routed, i), at(wM, 0, c.NumWires, i),
			at(zM, 0, c.NumChal, i), at(zM, 0, c.NumChal, (i+step)%M), at(zM, c.NumChal, len(zM), i), ch, pih)
		iz := Inv(Sub(xn, 1))
		for k := range qv {
			qv[k][i] = Mul(v[k][0], iz)
		}
		x = Mul(x, wm)
	}
	var qc [][]F
	for k := range qv {
		co := CosetINTT(qv[k], Generator)
		for j := 0; j < c.QDF; j++ {
			qc = append(qc, append([]F(nil), co[j*n:(j+1)*n]...))
		}
	}
	if hk.Quot != nil {
		hk.Quot(qc)
	}
	qLde, qTree := c.commitCoefs(qc, encFor(3))
	p.QuotCap = qTree.Cap()
	t.ObserveCap(p.QuotCap)
	ch.Zeta = t.GetE()
	if hk.Rigged {
		ch.Zeta = hk.Coins.Zeta
	}
	run.Trees = [4]*Tree{csTree, wTree, zTree, qTree}
	run.Lde = [4][][]F{csLde, wLde, zLde, qLde}

	// openings
	open := func(coefs [][]F, z E) []X {
		o := make([]X, len(coefs))
		for i := range coefs {
			o[i] = XofE(EvalPoly(coefs[i], z))
		}
		return o
	}
	zn := EMulF(ch.Zeta, w)
	o := &p.Op
	cs := open(in.csCoef, ch.Zeta)
	o.Constants, o.Sigmas = cs[:c.NumConsts:c.NumConsts], cs[c.NumConsts:]
	o.Wires = open(wCoef, ch.Zeta)
	za := open(zCoef, ch.Zeta)
	o.Zs, o.PPs = za[:c.NumChal:c.NumChal], za[c.NumChal:]
	o.ZsNext = open(zCoef[:c.NumChal], zn)
	o.Quot = open(qc, ch.Zeta)
	if hk.Openings != nil {
		hk.Openings(o, ch)
	}
	b0, b1 := XstoE(o.Batch0()), XstoE(o.ZsNext)
	t.ObserveE(b0...)
	t.ObserveE(b1...)
	ch.FriAlpha = t.GetE()
	if hk.Rigged {
		ch.FriAlpha = hk.Coins.FriAlpha
	}

	// combined values on the LDE domain (natural order)
	L := 1 << c.LdeBits()
	r0, r1 := EReduce(b0, ch.FriAlpha), EReduce(b1, ch.FriAlpha)
	aN := EExp(ch.FriAlpha, uint64(c.NumChal))
	vals := make([]E, L)
	wl := RootOfUnity(c.LdeBits())
	x = Generator
	for i := range vals {
		acc := E0
		for oi := 3; oi >= 0; oi-- {
			l := run.Lde[oi]
			for k := len(l) - 1; k >= 0; k-- {
				acc = EMul(acc, ch.FriAlpha)
				acc[0] = Add(acc[0], l[k][i])
			}
		}
		a1 := E0
		for k := c.NumChal - 1; k >= 0; k-- {
			a1 = EMul(a1, ch.FriAlpha)
			a1[0] = Add(a1[0], zLde[k][i])
		}
		s := EMul(ESub(acc, r0), EInv(ESub(EOf(x), ch.Zeta)))
		vals[i] = EAdd(EMul(s, aN), EMul(ESub(a1, r1), EInv(ESub(EOf(x), zn))))
		x = Mul(x, wl)
	}
	shift := Generator
	intt := func(v []E, shift F) []E {
		a, b := splitE(v)
		return joinE(CosetINTT(a, shift), CosetINTT(b, shift))
	}
	var coefs []E
	bits := c.LdeBits()
	for k := 0; k < c.Steps; k++ {
		if hk.FriValues != nil {
			hk.FriValues(k, shift, vals)
		}
		coefs = intt(vals, shift)
		leaves := make([][]H, len(vals)/16)
		for li := range leaves {
			row := make([]H, 32)
			for j := 0; j < 16; j++ {
				e := vals[bitrev(16*li+j, bits)]
				for q := 0; q < 2; q++ {
					if hk.EncStep != nil {
						row[2*j+q] = hk.EncStep(k, li, j, q, e[q])
					} else {
						row[2*j+q] = FtoH(e[q])
					}
				}
			}
			leaves[li] = row
		}
		ft := NewTree(leaves)
		run.FTree = append(run.FTree, ft)
		p.Fri.Caps = append(p.Fri.Caps, ft.Cap())
		t.ObserveCap(ft.Cap())
		beta := t.GetE()
		if hk.Rigged {
			beta = hk.Coins.FriBetas[k]
		}
		ch.FriBetas = append(ch.FriBetas, beta)
		nc := make([]E, len(coefs)/16)
		for i := range nc {
			nc[i] = EReduce(coefs[16*i:16*i+16], beta)
		}
		if hk.FriCoefs != nil {
			hk.FriCoefs(k, nc, beta)
		}
		coefs = nc
		shift = Exp(shift, 16)
		bits -= 4
		vals = CosetNTTE(coefs, 1<<bits, shift)
	}
	if c.Steps == 0 {
		coefs = intt(vals, shift)
	}
	p.Fri.Final = XsOf(coefs[:c.FinalLen()])
	if hk.Final != nil {
		hk.Final(p.Fri.Final)
	}
	t.ObserveE(XstoE(p.Fri.Final)...)
	lim := uint(64 - c.PowBits)
	ok := func(v F) bool {
		tt := t.Clone()
		tt.Observe(v)
		return c.PowBits == 0 || tt.Get()>>lim == 0
	}
	var nonce F
	if hk.Pow != nil {
		nonce = hk.Pow(ok)
	} else if !hk.Rigged {
		nonce = r.Uint64() % P
		for !ok(nonce) {
			nonce = (nonce + 1) % P
		}
	}
	p.Fri.Pow = FtoH(nonce)
	if hk.EncPow != nil {
		p.Fri.Pow = hk.EncPow(nonce)
	}
	t.Observe(nonce)
	ch.PowResp = t.Get()
	ch.Indices = t.GetN(c.Queries)
	if hk.Rigged {
		ch.PowResp, ch.Indices = hk.Coins.PowResp, hk.Coins.Indices
	}
	for qi := 0; qi < c.Queries; qi++ {
		x := int(ch.Indices[qi] & uint64(L-1))
		q := run.Answer(x)
		if hk.Response != nil {
			hk.Response(qi, x, &q)
		}
		p.Fri.Queries = append(p.Fri.Queries, q)
	}
	return run
}

// Answer opens all trees at LDE index x.
func (run *Run) Answer(x int) Query {
	var q Query
	for _, tr := range run.Trees {
		q.Init = append(q.Init, LeafProof{dupH(tr.Leaves[x]), tr.Path(x)})
	}
	idx := x
	for _, ft := range run.FTree {
		idx >>= 4
		var s StepProof
		l := ft.Leaves[idx]
		for j := 0; j < 16; j++ {
			s.Evals = append(s.Evals, X{l[2*j], l[2*j+1]})
		}
		s.Sib = ft.Path(idx)
		q.Steps = append(q.Steps, s)
	}
	return q
}

// RandCoins draws coins for a rigged run.
func (c *Common) RandCoins(r *rand.Rand) *Challenges {
	n := func() F { return r.Uint64() % P }
	ns := func(k int) []F {
		o := make([]F, k)
		for i := range o {
			o[i] = n()
		}
		return o
	}
	ch := &Challenges{Betas: ns(c.NumChal), Gammas: ns(c.NumChal), Alphas: ns(c.NumChal), Zeta: E{n(), n()}, FriAlpha: E{n(), n()}, Indices: ns(c.Queries)}
	for i := 0; i < c.Steps; i++ {
		ch.FriBetas = append(ch.FriBetas, E{n(), n()})
	}
	if c.PowBits < 64 {
		ch.PowResp = (r.Uint64() >> uint(c.PowBits)) % P
	}
	return ch
}
