package ref

import (
	"math/big"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
)

// ---- Poseidon over Goldilocks, width 12, naive form (no fast partial rounds) ----

func sbox7(x F) F {
	x2 := Mul(x, x)
	x4 := Mul(x2, x2)
	return Mul(x4, Mul(x2, x))
}

func mdsF(s *[12]F) {
	var r [12]F
	for i := 0; i < 12; i++ {
		acc := Mul(s[i], glDiag[i])
		for j := 0; j < 12; j++ {
			acc = Add(acc, Mul(s[(i+j)%12], glCirc[j]))
		}
		r[i] = acc
	}
	*s = r
}

// PoseidonGL is the plonky2 Poseidon permutation.
func PoseidonGL(s [12]F) [12]F {
	for r := 0; r < 30; r++ {
		for i := 0; i < 12; i++ {
			s[i] = Add(s[i], glRC[12*r+i]%P)
		}
		if r < 4 || r >= 26 {
			for i := 0; i < 12; i++ {
				s[i] = sbox7(s[i])
			}
		} else {
			s[0] = sbox7(s[0])
		}
		mdsF(&s)
	}
	return s
}

// HashNoPadGL is plonky2's hash_n_to_m_no_pad over the Goldilocks Poseidon sponge (overwrite mode).
func HashNoPadGL(in []F, m int) []F {
	var s [12]F
	for i := 0; i < len(in); i += 8 {
		for j := 0; j < 8 && i+j < len(in); j++ {
			s[j] = in[i+j]
		}
		s = PoseidonGL(s)
	}
	var out []F
	for {
		for i := 0; i < 8; i++ {
			out = append(out, s[i])
			if len(out) == m {
				return out
			}
		}
		s = PoseidonGL(s)
	}
}

// ---- Poseidon over BN254, width 4 ----

type H = fr.Element

var bnC [88]H
var bnS [392]H
var bnM, bnP [4][4]H

func init() {
	for i := range bnC {
		bnC[i].SetString(bnCStr[i])
	}
	for i := range bnS {
		bnS[i].SetString(bnSStr[i])
	}
	for i := 0; i < 16; i++ {
		bnM[i/4][i%4].SetString(bnMStr[i])
		bnP[i/4][i%4].SetString(bnPStr[i])
	}
}

func pow5(x *H) {
	var t H
	t.Square(x)
	t.Square(&t)
	x.Mul(x, &t)
}

func bnMix(s *[4]H, m *[4][4]H) {
	var r [4]H
	var t H
	for i := 0; i < 4; i++ {
		for j := 0; j < 4; j++ {
			t.Mul(&m[j][i], &s[j])
			r[i].Add(&r[i], &t)
		}
	}
	*s = r
}

// PoseidonBN is the circomlib-style optimised Poseidon permutation with t=4 (8 full, 56 partial rounds).
func PoseidonBN(s [4]H) [4]H {
	ark := func(o int) {
		for i := range s {
			s[i].Add(&s[i], &bnC[o+i])
		}
	}
	sb := func() {
		for i := range s {
			pow5(&s[i])
		}
	}
	ark(0)
	for r := 1; r <= 3; r++ {
		sb()
		ark(4 * r)
		bnMix(&s, &bnM)
	}
	sb()
	ark(16)
	bnMix(&s, &bnP)
	var t H
	for r := 0; r < 56; r++ {
		pow5(&s[0])
		s[0].Add(&s[0], &bnC[20+r])
		var n0 H
		for j := 0; j < 4; j++ {
			t.Mul(&bnS[7*r+j], &s[j])
			n0.Add(&n0, &t)
		}
		for k := 1; k < 4; k++ {
			t.Mul(&s[0], &bnS[7*r+4+k-1])
			s[k].Add(&s[k], &t)
		}
		s[0] = n0
	}
	for r := 0; r < 3; r++ {
		sb()
		ark(20 + 56 + 4*r)
		bnMix(&s, &bnM)
	}
	sb()
	bnMix(&s, &bnM)
	return s
}

var two64 H

func init() {
	var b big.Int
	b.Lsh(big.NewInt(1), 64)
	two64.SetBigInt(&b)
}

func pack3(in []H) H {
	var r H
	for k := len(in) - 1; k >= 0; k-- {
		r.Mul(&r, &two64)
		r.Add(&r, &in[k])
	}
	return r
}

// HashLeafH hashes leaf elements given as (possibly non-canonical) field values.
func HashLeafH(in []H) H {
	if len(in) <= 3 {
		return pack3(in)
	}
	return HashNoPadH(in)
}

// HashNoPadH is the BN254 sponge, without the short cut for few elements.
func HashNoPadH(in []H) H {
	var s [4]H
	for i := 0; i < len(in); i += 9 {
		for j := 0; j < 3; j++ {
			lo := i + 3*j
			if lo >= len(in) {
				break
			}
			hi := lo + 3
			if hi > len(in) {
				hi = len(in)
			}
			s[j+1] = pack3(in[lo:hi])
		}
		s = PoseidonBN(s)
	}
	return s[0]
}

func FtoH(a F) H {
	var h H
	h.SetUint64(a)
	return h
}

// HashLeaf hashes canonical leaf elements.
func HashLeaf(in []F) H {
	t := make([]H, len(in))
	for i := range in {
		t[i].SetUint64(in[i])
	}
	return HashLeafH(t)
}

// TwoToOne compresses two digests.
func TwoToOne(l, r H) H {
	var s [4]H
	s[2], s[3] = l, r
	return PoseidonBN(s)[0]
}

// HashToVec splits a BN254 digest in 56-bit chunks, as the transcript observes it.
func HashToVec(h H) []F {
	var b big.Int
	h.BigInt(&b)
	mask := new(big.Int).SetUint64(1<<56 - 1)
	var out []F
	for i := 0; i < 5; i++ {
		var t big.Int
		t.Rsh(&b, uint(56*i))
		t.And(&t, mask)
		out = append(out, t.Uint64())
	}
	return out
}

// ---- Fiat-Shamir transcript ----

// Challenger is plonky2's duplex challenger (rate 8, overwrite mode, outputs popped from the end).
type Challenger struct {
	state [12]F
	in    []F
	out   []F
}

func (c *Challenger) Observe(xs ...F) {
	for _, x := range xs {
		c.out = nil
		c.in = append(c.in, x)
		if len(c.in) == 8 {
			c.duplex()
		}
	}
}
func (c *Challenger) ObserveHash(h H) { c.Observe(HashToVec(h)...) }
func (c *Challenger) ObserveCap(cap []H) {
	for _, h := range cap {
		c.ObserveHash(h)
	}
}
func (c *Challenger) ObserveE(xs ...E) {
	for _, x := range xs {
		c.Observe(x[0], x[1])
	}
}
func (c *Challenger) duplex() {
	copy(c.state[:], c.in)
	c.in = nil
	c.state = PoseidonGL(c.state)
	c.out = append([]F(nil), c.state[:8]...)
}
func (c *Challenger) Get() F {
	if len(c.in) > 0 || len(c.out) == 0 {
		c.duplex()
	}
	x := c.out[len(c.out)-1]
	c.out = c.out[:len(c.out)-1]
	return x
}
func (c *Challenger) GetN(n int) []F {
	r := make([]F, n)
	for i := range r {
		r[i] = c.Get()
	}
	return r
}
func (c *Challenger) GetE() E {
	a := c.Get()
	b := c.Get()
	return E{a, b}
}
func (c *Challenger) Clone() *Challenger {
	d := *c
	d.in = append([]F(nil), c.in...)
	d.out = append([]F(nil), c.out...)
	return &d
}

var inv7 = func() uint64 {
	m := new(big.Int).SetUint64(P - 1)
	return new(big.Int).ModInverse(big.NewInt(7), m).Uint64()
}()
var mdsInv = func() [12][12]F {
	var a [12][24]F
	for j := 0; j < 12; j++ {
		var s [12]F
		s[j] = 1
		mdsF(&s)
		for i := range s {
			a[i][j] = s[i]
		}
		a[j][12+j] = 1
	}
	for c := 0; c < 12; c++ {
		p := c
		for a[p][c] == 0 {
			p++
		}
		a[p], a[c] = a[c], a[p]
		iv := Inv(a[c][c])
		for j := range a[c] {
			a[c][j] = Mul(a[c][j], iv)
		}
		for i := range a {
			if i != c && a[i][c] != 0 {
				f := a[i][c]
				for j := range a[i] {
					a[i][j] = Sub(a[i][j], Mul(f, a[c][j]))
				}
			}
		}
	}
	var r [12][12]F
	for i := range r {
		copy(r[i][:], a[i][12:])
	}
	return r
}()

// PoseidonGLBack returns the permutation input whose state after the given number of rounds is s
// (stage 0), or whose state before the last of their linear layers is s (stage 1).
func PoseidonGLBack(s [12]F, rounds, stage int) [12]F {
	for r := rounds - 1; r >= 0; r-- {
		if stage == 0 || r < rounds-1 {
			var t [12]F
			for i := range t {
				for j := range s {
					t[i] = Add(t[i], Mul(mdsInv[i][j], s[j]))
				}
			}
			s = t
		}
		for i := range s {
			if i == 0 || r < 4 || r >= 26 {
				s[i] = Exp(s[i], inv7)
			}
			s[i] = Sub(s[i], glRC[12*r+i]%P)
		}
	}
	return s
}
