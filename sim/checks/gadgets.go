package checks

import (
	"fmt"
	"math/big"
	"math/rand"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark-crypto/field/goldilocks"
	"github.com/consensys/gnark/frontend"
	"github.com/succinctlabs/gnark-plonky2-verifier/challenger"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
	"github.com/succinctlabs/gnark-plonky2-verifier/poseidon"

	"verif/sim/eng"
	"verif/sim/ref"
)

// A gadget is one exported operation: it takes n field elements and returns circuit values; want gives
// the mathematically correct results. wide results only have to be congruent modulo the field order.
type gadget struct {
	name string
	n    func(r *rand.Rand) int
	mk   func(r *rand.Rand, x []ref.F) // adjusts the operands (small results, valid domain)
	run  func(api frontend.API, c *gl.Chip, x []gl.Variable, e *eng.Engine) []frontend.Variable
	want func(x []ref.F) []*big.Int
	wide bool
	slow bool
}

func k(n int) func(*rand.Rand) int { return func(*rand.Rand) int { return n } }
func small(r *rand.Rand) ref.F {
	return []ref.F{0, 1, 2, ref.F(r.Intn(1 << 16)), ref.F(r.Uint32()), 1<<32 - 2, 1<<32 - 1}[r.Intn(7)]
}

// edgeF is biased to the boundaries of the representation.
func edgeF(r *rand.Rand) ref.F {
	switch r.Intn(8) {
	case 0:
		return small(r)
	case 1:
		return ref.P - 1 - small(r)
	case 2:
		return 1<<63 + uint64(r.Intn(3)) - 1
	case 3:
		return ref.F(r.Uint32()) << 32 % ref.P
	case 4:
		return 0xFFFFFFFF00000000 - uint64(r.Intn(2))
	}
	return ref.RandF(r)
}

func bigs(fs ...ref.F) []*big.Int {
	o := make([]*big.Int, len(fs))
	for i := range fs {
		o[i] = new(big.Int).SetUint64(fs[i])
	}
	return o
}
func bigE(es ...ref.E) []*big.Int {
	var o []*big.Int
	for _, e := range es {
		o = append(o, bigs(e[0], e[1])...)
	}
	return o
}
func bigH(hs ...ref.H) []*big.Int {
	o := make([]*big.Int, len(hs))
	for i := range hs {
		o[i] = new(big.Int)
		hs[i].BigInt(o[i])
	}
	return o
}
func ve(x []gl.Variable, i int) gl.QuadraticExtensionVariable {
	return gl.QuadraticExtensionVariable{x[2*i], x[2*i+1]}
}
func fe(x []ref.F, i int) ref.E { return ref.E{x[2*i], x[2*i+1]} }
func setE(x []ref.F, i int, e ref.E) {
	x[2*i], x[2*i+1] = e[0], e[1]
}
func va(x []gl.Variable, i int) gl.QuadraticExtensionAlgebraVariable {
	return gl.QuadraticExtensionAlgebraVariable{ve(x, 2*i), ve(x, 2*i+1)}
}
func fa(x []ref.F, i int) ref.A { return ref.A{fe(x, 2*i), fe(x, 2*i+1)} }
func lv(vs ...gl.Variable) []frontend.Variable {
	o := make([]frontend.Variable, len(vs))
	for i := range vs {
		o[i] = vs[i].Limb
	}
	return o
}
func le(es ...gl.QuadraticExtensionVariable) []frontend.Variable {
	var o []frontend.Variable
	for _, e := range es {
		o = append(o, e[0].Limb, e[1].Limb)
	}
	return o
}
func la(as ...gl.QuadraticExtensionAlgebraVariable) []frontend.Variable {
	var o []frontend.Variable
	for _, a := range as {
		o = append(o, le(a[0], a[1])...)
	}
	return o
}
func bigA(as ...ref.A) []*big.Int {
	var o []*big.Int
	for _, a := range as {
		o = append(o, bigE(a[0], a[1])...)
	}
	return o
}
func st12(x []gl.Variable) (s poseidon.GoldilocksState) { copy(s[:], x); return }
func smallE(r *rand.Rand) ref.E                         { return ref.E{small(r), small(r)} }
func nzE(r *rand.Rand) ref.E {
	for {
		if e := (ref.E{edgeF(r), edgeF(r)}); e != ref.E0 {
			return e
		}
	}
}

var gadgets = []gadget{
	{name: "Add", n: k(2), mk: func(r *rand.Rand, x []ref.F) { x[1] = ref.Sub(small(r), x[0]) },
		run: func(a frontend.API, c *gl.Chip, x []gl.Variable, _ *eng.Engine) []frontend.Variable {
			return lv(c.Add(x[0], x[1]))
		},
		want: func(x []ref.F) []*big.Int { return bigs(ref.Add(x[0], x[1])) }},
	{name: "Sub", n: k(2), mk: func(r *rand.Rand, x []ref.F) { x[0] = ref.Add(small(r), x[1]) },
		run: func(a frontend.API, c *gl.Chip, x []gl.Variable, _ *eng.Engine) []frontend.Variable {
			return lv(c.Sub(x[0], x[1]))
		},
		want: func(x []ref.F) []*big.Int { return bigs(ref.Sub(x[0], x[1])) }},
	{name: "Mul", n: k(2), mk: func(r *rand.Rand, x []ref.F) { x[1] = ref.Mul(small(r), ref.Inv(x[0])) },
		run: func(a frontend.API, c *gl.Chip, x []gl.Variable, _ *eng.Engine) []frontend.Variable {
			return lv(c.Mul(x[0], x[1]))
		},
		want: func(x []ref.F) []*big.Int { return bigs(ref.Mul(x[0], x[1])) }},
	{name: "MulAdd", n: k(3), mk: func(r *rand.Rand, x []ref.F) { x[2] = ref.Sub(small(r), ref.Mul(x[0], x[1])) },
		run: func(a frontend.API, c *gl.Chip, x []gl.Variable, _ *eng.Engine) []frontend.Variable {
			return lv(c.MulAdd(x[0], x[1], x[2]))
		},
		want: func(x []ref.F) []*big.Int { return bigs(ref.Add(ref.Mul(x[0], x[1]), x[2])) }},
	{name: "AddNoReduce", n: k(2), wide: true,
		run: func(a frontend.API, c *gl.Chip, x []gl.Variable, _ *eng.Engine) []frontend.Variable {
			return lv(c.AddNoReduce(x[0], x[1]))
		},
		want: func(x []ref.F) []*big.Int { return bigs(ref.Add(x[0], x[1])) }},
	{name: "SubNoReduce", n: k(2), wide: true,
		run: func(a frontend.API, c *gl.Chip, x []gl.Variable, _ *eng.Engine) []frontend.Variable {
			return lv(c.SubNoReduce(x[0], x[1]))
		},
		want: func(x []ref.F) []*big.Int { return bigs(ref.Sub(x[0], x[1])) }},
	{name: "MulNoReduce", n: k(2), wide: true,
		run: func(a frontend.API, c *gl.Chip, x []gl.Variable, _ *eng.Engine) []frontend.Variable {
			return lv(c.MulNoReduce(x[0], x[1]))
		},
		want: func(x []ref.F) []*big.Int { return bigs(ref.Mul(x[0], x[1])) }},
	{name: "MulAddNoReduce+Reduce", n: k(3), mk: func(r *rand.Rand, x []ref.F) { x[2] = ref.Sub(small(r), ref.Mul(x[0], x[1])) },
		run: func(a frontend.API, c *gl.Chip, x []gl.Variable, _ *eng.Engine) []frontend.Variable {
			return lv(c.Reduce(c.MulAddNoReduce(x[0], x[1], x[2])))
		},
		want: func(x []ref.F) []*big.Int { return bigs(ref.Add(ref.Mul(x[0], x[1]), x[2])) }},
	{name: "SumOfProducts+Reduce", n: func(r *rand.Rand) int { return 2 * (1 + r.Intn(14)) },
		mk: func(r *rand.Rand, x []ref.F) {
			s := ref.F(0)
			for i := 2; i < len(x); i += 2 {
				s = ref.Add(s, ref.Mul(x[i], x[i+1]))
			}
			if x[0] != 0 {
				x[1] = ref.Mul(ref.Sub(small(r), s), ref.Inv(x[0]))
			}
		},
		run: func(a frontend.API, c *gl.Chip, x []gl.Variable, _ *eng.Engine) []frontend.Variable {
			s := gl.Zero()
			for i := 0; i < len(x); i += 2 {
				s = c.MulAddNoReduce(x[i], x[i+1], s)
			}
			return lv(c.Reduce(s))
		},
		want: func(x []ref.F) []*big.Int {
			s := ref.F(0)
			for i := 0; i < len(x); i += 2 {
				s = ref.Add(s, ref.Mul(x[i], x[i+1]))
			}
			return bigs(s)
		}},
	{name: "Cube+ReduceWithMaxBits", n: k(1),
		run: func(a frontend.API, c *gl.Chip, x []gl.Variable, _ *eng.Engine) []frontend.Variable {
			return lv(c.ReduceWithMaxBits(c.MulNoReduce(x[0], c.MulNoReduce(x[0], x[0])), 128))
		},
		want: func(x []ref.F) []*big.Int { return bigs(ref.Mul(x[0], ref.Mul(x[0], x[0]))) }},
	{name: "Inverse", n: k(1), mk: func(r *rand.Rand, x []ref.F) {
		x[0] = small(r)
		if x[0] != 0 && r.Intn(2) == 0 {
			x[0] = ref.Inv(x[0])
		}
	},
		run: func(a frontend.API, c *gl.Chip, x []gl.Variable, e *eng.Engine) []frontend.Variable {
			i, h := c.Inverse(x[0])
			return []frontend.Variable{h, a.Select(h, i.Limb, 0)}
		},
		want: func(x []ref.F) []*big.Int {
			if x[0] == 0 {
				return bigs(0, 0)
			}
			return bigs(1, ref.Inv(x[0]))
		}},
	{name: "AddExtension", n: k(4), mk: func(r *rand.Rand, x []ref.F) { setE(x, 1, ref.ESub(smallE(r), fe(x, 0))) },
		run: func(a frontend.API, c *gl.Chip, x []gl.Variable, _ *eng.Engine) []frontend.Variable {
			return le(c.AddExtension(ve(x, 0), ve(x, 1)))
		},
		want: func(x []ref.F) []*big.Int { return bigE(ref.EAdd(fe(x, 0), fe(x, 1))) }},
	{name: "SubExtension", n: k(4), mk: func(r *rand.Rand, x []ref.F) { setE(x, 0, ref.EAdd(smallE(r), fe(x, 1))) },
		run: func(a frontend.API, c *gl.Chip, x []gl.Variable, _ *eng.Engine) []frontend.Variable {
			return le(c.SubExtension(ve(x, 0), ve(x, 1)))
		},
		want: func(x []ref.F) []*big.Int { return bigE(ref.ESub(fe(x, 0), fe(x, 1))) }},
	{name: "MulExtension", n: k(4), mk: func(r *rand.Rand, x []ref.F) {
		setE(x, 0, nzE(r))
		setE(x, 1, ref.EMul(smallE(r), ref.EInv(fe(x, 0))))
	},
		run: func(a frontend.API, c *gl.Chip, x []gl.Variable, _ *eng.Engine) []frontend.Variable {
			return le(c.MulExtension(ve(x, 0), ve(x, 1)))
		},
		want: func(x []ref.F) []*big.Int { return bigE(ref.EMul(fe(x, 0), fe(x, 1))) }},
	{name: "MulAddExtension", n: k(6), mk: func(r *rand.Rand, x []ref.F) { setE(x, 2, ref.ESub(smallE(r), ref.EMul(fe(x, 0), fe(x, 1)))) },
		run: func(a frontend.API, c *gl.Chip, x []gl.Variable, _ *eng.Engine) []frontend.Variable {
			return le(c.MulAddExtension(ve(x, 0), ve(x, 1), ve(x, 2)))
		},
		want: func(x []ref.F) []*big.Int { return bigE(ref.EAdd(ref.EMul(fe(x, 0), fe(x, 1)), fe(x, 2))) }},
	{name: "SubMulExtension", n: k(6), mk: func(r *rand.Rand, x []ref.F) {
		setE(x, 2, nzE(r))
		setE(x, 0, ref.EAdd(fe(x, 1), ref.EMul(smallE(r), ref.EInv(fe(x, 2)))))
	},
		run: func(a frontend.API, c *gl.Chip, x []gl.Variable, _ *eng.Engine) []frontend.Variable {
			return le(c.SubMulExtension(ve(x, 0), ve(x, 1), ve(x, 2)))
		},
		want: func(x []ref.F) []*big.Int { return bigE(ref.EMul(ref.ESub(fe(x, 0), fe(x, 1)), fe(x, 2))) }},
	{name: "NoReduceChain+ReduceExtension", n: k(8), mk: func(r *rand.Rand, x []ref.F) {
		t := ref.ESub(fe(x, 0), fe(x, 1))
		setE(x, 3, ref.ESub(smallE(r), ref.EMul(t, fe(x, 2))))
	},
		run: func(a frontend.API, c *gl.Chip, x []gl.Variable, _ *eng.Engine) []frontend.Variable {
			d := c.SubExtensionNoReduce(ve(x, 0), ve(x, 1))
			return le(c.ReduceExtension(c.AddExtensionNoReduce(c.MulExtensionNoReduce(d, ve(x, 2)), ve(x, 3))))
		},
		want: func(x []ref.F) []*big.Int {
			return bigE(ref.EAdd(ref.EMul(ref.ESub(fe(x, 0), fe(x, 1)), fe(x, 2)), fe(x, 3)))
		}},
	{name: "ScalarMulExtension", n: k(3),
		run: func(a frontend.API, c *gl.Chip, x []gl.Variable, _ *eng.Engine) []frontend.Variable {
			return le(c.ScalarMulExtension(ve(x, 0), x[2]))
		},
		want: func(x []ref.F) []*big.Int { return bigE(ref.EMulF(fe(x, 0), x[2])) }},
	{name: "InnerProductExtension", n: func(r *rand.Rand) int { return 3 + 4*r.Intn(4) },
		run: func(a frontend.API, c *gl.Chip, x []gl.Variable, _ *eng.Engine) []frontend.Variable {
			var ps [][2]gl.QuadraticExtensionVariable
			for i := 3; i < len(x); i += 4 {
				ps = append(ps, [2]gl.QuadraticExtensionVariable{{x[i], x[i+1]}, {x[i+2], x[i+3]}})
			}
			return le(c.InnerProductExtension(x[2], ve(x, 0), ps))
		},
		want: func(x []ref.F) []*big.Int {
			s := fe(x, 0)
			for i := 3; i < len(x); i += 4 {
				s = ref.EAdd(s, ref.EMul(ref.EMulF(ref.E{x[i], x[i+1]}, x[2]), ref.E{x[i+2], x[i+3]}))
			}
			return bigE(s)
		}},
	{name: "InverseExtension", n: k(2), mk: func(r *rand.Rand, x []ref.F) {
		setE(x, 0, nzE(r))
		if r.Intn(2) == 0 {
			setE(x, 0, ref.EInv(fe(x, 0)))
		}
	},
		run: func(a frontend.API, c *gl.Chip, x []gl.Variable, _ *eng.Engine) []frontend.Variable {
			i, h := c.InverseExtension(ve(x, 0))
			return append(le(i), h)
		},
		want: func(x []ref.F) []*big.Int {
			if fe(x, 0) == ref.E0 {
				return nil // must not be satisfiable
			}
			return append(bigE(ref.EInv(fe(x, 0))), big.NewInt(1))
		}},
	{name: "DivExtension", n: k(4), mk: func(r *rand.Rand, x []ref.F) {
		setE(x, 1, nzE(r))
		setE(x, 0, ref.EMul(smallE(r), fe(x, 1)))
	},
		run: func(a frontend.API, c *gl.Chip, x []gl.Variable, _ *eng.Engine) []frontend.Variable {
			i, h := c.DivExtension(ve(x, 0), ve(x, 1))
			return append(le(i), h)
		},
		want: func(x []ref.F) []*big.Int {
			if fe(x, 1) == ref.E0 {
				return nil
			}
			return append(bigE(ref.EMul(fe(x, 0), ref.EInv(fe(x, 1)))), big.NewInt(1))
		}},
	{name: "ExpExtension", n: k(3), mk: func(r *rand.Rand, x []ref.F) {
		x[2] = []ref.F{0, 1, 2, 3, 4, 5, 7, ref.F(r.Intn(100)), ref.F(r.Uint32())}[r.Intn(9)]
	},
		run: func(a frontend.API, c *gl.Chip, x []gl.Variable, e *eng.Engine) []frontend.Variable {
			v := e.Of(x[2].Limb)
			return le(c.ExpExtension(ve(x, 0), v.Uint64()%(1<<33)))
		},
		want: func(x []ref.F) []*big.Int { return bigE(ref.EExp(fe(x, 0), x[2]%(1<<33))) }},
	{name: "ReduceWithPowers", n: func(r *rand.Rand) int { return 2 + 2*r.Intn(6) }, mk: func(r *rand.Rand, x []ref.F) {
		if len(x) < 4 {
			return
		}
		var t []ref.E
		for i := 1; i < len(x)/2; i++ {
			t = append(t, fe(x, i))
		}
		t[0] = ref.E0
		setE(x, 1, ref.ESub(smallE(r), ref.EReduce(t, fe(x, 0))))
	},
		run: func(a frontend.API, c *gl.Chip, x []gl.Variable, _ *eng.Engine) []frontend.Variable {
			var t []gl.QuadraticExtensionVariable
			for i := 1; i < len(x)/2; i++ {
				t = append(t, ve(x, i))
			}
			return le(c.ReduceWithPowers(t, ve(x, 0)))
		},
		want: func(x []ref.F) []*big.Int {
			var t []ref.E
			for i := 1; i < len(x)/2; i++ {
				t = append(t, fe(x, i))
			}
			return bigE(ref.EReduce(t, fe(x, 0)))
		}},
	{name: "IsZero+Lookup", n: k(12), mk: func(r *rand.Rand, x []ref.F) {
		x[0], x[1] = []ref.F{0, x[0]}[r.Intn(2)], []ref.F{0, x[1]}[r.Intn(2)]
		x[2], x[3] = ref.F(r.Intn(2)), ref.F(r.Intn(2))
	},
		run: func(a frontend.API, c *gl.Chip, x []gl.Variable, _ *eng.Engine) []frontend.Variable {
			z := c.IsZero(ve(x, 0))
			l := c.Lookup(z, ve(x, 2), ve(x, 3))
			m := c.Lookup2(x[2].Limb, x[3].Limb, ve(x, 2), ve(x, 3), ve(x, 4), ve(x, 5))
			return append(append(le(l), le(m)...), z)
		},
		want: func(x []ref.F) []*big.Int {
			z, l := ref.F(0), fe(x, 2)
			if x[0] == 0 && x[1] == 0 {
				z, l = 1, fe(x, 3)
			}
			if x[2] > 1 || x[3] > 1 {
				return nil
			}
			return append(append(bigE(l), bigE(fe(x, 2+int(x[2]+2*x[3])))...), bigs(z)...)
		}},
	{name: "MulExtensionAlgebra", n: k(8),
		run: func(a frontend.API, c *gl.Chip, x []gl.Variable, _ *eng.Engine) []frontend.Variable {
			return la(c.MulExtensionAlgebra(va(x, 0), va(x, 1)))
		},
		want: func(x []ref.F) []*big.Int { return bigA(ref.AMul(fa(x, 0), fa(x, 1))) }},
	{name: "AddSubScaleExtensionAlgebra", n: k(10),
		run: func(a frontend.API, c *gl.Chip, x []gl.Variable, _ *eng.Engine) []frontend.Variable {
			return la(c.AddExtensionAlgebra(va(x, 0), va(x, 1)), c.SubExtensionAlgebra(va(x, 0), va(x, 1)), c.ScalarMulExtensionAlgebra(ve(x, 4), va(x, 0)))
		},
		want: func(x []ref.F) []*big.Int {
			return bigA(ref.AAdd(fa(x, 0), fa(x, 1)), ref.ASub(fa(x, 0), fa(x, 1)), ref.AScale(fe(x, 4), fa(x, 0)))
		}},
	{name: "PartialInterpolateExtAlgebra", n: func(r *rand.Rand) int { return 12 + 6*(1+r.Intn(3)) }, slow: true,
		run: func(a frontend.API, c *gl.Chip, x []gl.Variable, e *eng.Engine) []frontend.Variable {
			var dom, wt []goldilocks.Element
			var vs []gl.QuadraticExtensionAlgebraVariable
			for i := 12; i < len(x); i += 6 {
				p, q := e.Of(x[i].Limb), e.Of(x[i+1].Limb)
				dom, wt = append(dom, goldilocks.NewElement(p.Uint64())), append(wt, goldilocks.NewElement(q.Uint64()))
				vs = append(vs, gl.QuadraticExtensionAlgebraVariable{{x[i+2], x[i+3]}, {x[i+4], x[i+5]}})
			}
			s, t := c.PartialInterpolateExtAlgebra(dom, vs, wt, va(x, 0), va(x, 1), va(x, 2))
			return la(s, t)
		},
		want: func(x []ref.F) []*big.Int {
			pt, ev, pr := fa(x, 0), fa(x, 1), fa(x, 2)
			for i := 12; i < len(x); i += 6 {
				term := ref.ASub(pt, ref.A{ref.EOf(x[i]), ref.E0})
				wv := ref.AScale(ref.EOf(x[i+1]), ref.A{{x[i+2], x[i+3]}, {x[i+4], x[i+5]}})
				ev = ref.AAdd(ref.AMul(ev, term), ref.AMul(wv, pr))
				pr = ref.AMul(pr, term)
			}
			return bigA(ev, pr)
		}},
	{name: "Poseidon", n: k(12), slow: true, mk: func(r *rand.Rand, x []ref.F) {
		// an input whose state is tiny after a chosen round
		var s [12]ref.F
		for i := range s {
			s[i] = small(r)
		}
		s = ref.PoseidonGLBack(s, r.Intn(31), r.Intn(2))
		copy(x, s[:])
	},
		run: func(a frontend.API, c *gl.Chip, x []gl.Variable, e *eng.Engine) []frontend.Variable {
			s := glPoseidon(a, e).Poseidon(st12(x))
			return lv(s[:]...)
		},
		want: func(x []ref.F) []*big.Int {
			var s [12]ref.F
			copy(s[:], x)
			s = ref.PoseidonGL(s)
			return bigs(s[:]...)
		}},
	{name: "HashNoPad", n: func(r *rand.Rand) int { return r.Intn(20) }, slow: true,
		run: func(a frontend.API, c *gl.Chip, x []gl.Variable, e *eng.Engine) []frontend.Variable {
			s := glPoseidon(a, e).HashNoPad(x)
			return lv(s[:]...)
		},
		want: func(x []ref.F) []*big.Int { return bigs(ref.HashNoPadGL(x, 4)...) }},
	{name: "HashNToMNoPad", n: func(r *rand.Rand) int { return 1 + r.Intn(20) }, slow: true,
		run: func(a frontend.API, c *gl.Chip, x []gl.Variable, e *eng.Engine) []frontend.Variable {
			return lv(glPoseidon(a, e).HashNToMNoPad(x, 1+len(x)*7%20)...)
		},
		want: func(x []ref.F) []*big.Int { return bigs(ref.HashNoPadGL(x, 1+len(x)*7%20)...) }},
	{name: "BN254HashNoPad", n: func(r *rand.Rand) int { return r.Intn(24) }, slow: true,
		run: func(a frontend.API, c *gl.Chip, x []gl.Variable, e *eng.Engine) []frontend.Variable {
			return []frontend.Variable{bnPoseidon(a, e).HashNoPad(x)}
		},
		want: func(x []ref.F) []*big.Int {
			h := make([]ref.H, len(x))
			for i := range x {
				h[i].SetUint64(x[i])
			}
			return bigH(ref.HashNoPadH(h))
		}},
	{name: "BN254HashOrNoop", n: func(r *rand.Rand) int { return 1 + r.Intn(30) }, slow: true,
		run: func(a frontend.API, c *gl.Chip, x []gl.Variable, e *eng.Engine) []frontend.Variable {
			return []frontend.Variable{bnPoseidon(a, e).HashOrNoop(x)}
		},
		want: func(x []ref.F) []*big.Int { return bigH(ref.HashLeaf(x)) }},
	{name: "BN254TwoToOne+ToVec", n: k(8), slow: true,
		run: func(a frontend.API, c *gl.Chip, x []gl.Variable, e *eng.Engine) []frontend.Variable {
			b := bnPoseidon(a, e)
			pk := func(i int) frontend.Variable {
				var v frontend.Variable = x[i].Limb
				for j := 1; j < 4; j++ {
					v = a.Add(a.Mul(v, new(big.Int).Lsh(big.NewInt(1), 63)), x[i+j].Limb)
				}
				return v
			}
			h := b.TwoToOne(pk(0), pk(4))
			return append(append(lv(b.ToVec(h)...), h), lv(b.ToVec(pk(0))...)...)
		},
		want: func(x []ref.F) []*big.Int {
			pk := func(i int) (h ref.H) {
				v := new(big.Int).SetUint64(x[i])
				for j := 1; j < 4; j++ {
					v.Lsh(v, 63)
					v.Add(v, new(big.Int).SetUint64(x[i+j]))
				}
				h.SetBigInt(v)
				return
			}
			h := ref.TwoToOne(pk(0), pk(4))
			return append(append(bigs(ref.HashToVec(h)...), bigH(h)...), bigs(ref.HashToVec(pk(0))...)...)
		}},
	{name: "Challenger", n: func(r *rand.Rand) int { return 4 + r.Intn(8) }, slow: true,
		run: func(a frontend.API, c *gl.Chip, x []gl.Variable, _ *eng.Engine) []frontend.Variable {
			ch := challenger.NewChip(a)
			ch.ObserveElements(x[:2])
			ch.ObserveBN254Hash(a.Mul(x[0].Limb, x[1].Limb, x[2].Limb, x[3].Limb))
			g := ch.GetExtensionChallenge()
			ch.ObserveElements(x)
			return append(le(g), lv(ch.GetNChallenges(3)...)...)
		},
		want: func(x []ref.F) []*big.Int {
			var ch ref.Challenger
			var h, t fr.Element
			h.SetOne()
			for i := 0; i < 4; i++ {
				t.SetUint64(x[i])
				h.Mul(&h, &t)
			}
			ch.Observe(x[:2]...)
			ch.ObserveHash(h)
			g := ch.GetE()
			ch.Observe(x...)
			return append(bigE(g), bigs(ch.GetN(3)...)...)
		}},
}

// The hash chips of a history are shared by its operations.
func glPoseidon(a frontend.API, e *eng.Engine) *poseidon.GoldilocksChip {
	if e.Chips == nil {
		return poseidon.NewGoldilocksChip(a)
	}
	if e.Chips["gl"] == nil {
		e.Chips["gl"] = poseidon.NewGoldilocksChip(a)
	}
	return e.Chips["gl"].(*poseidon.GoldilocksChip)
}

func bnPoseidon(a frontend.API, e *eng.Engine) *poseidon.BN254Chip {
	if e.Chips == nil {
		return poseidon.NewBN254Chip(a)
	}
	if e.Chips["bn"] == nil {
		e.Chips["bn"] = poseidon.NewBN254Chip(a)
	}
	return e.Chips["bn"].(*poseidon.BN254Chip)
}

// runGadget executes one gadget on a fresh builder.
func runGadget(g *gadget, backend int, xs []ref.F, konst int, hint eng.HintFn) (o eng.Outcome, got []*big.Int, st stat) {
	_, e := eng.New(backend)
	e.Hint = hint
	var out []frontend.Variable
	o = e.Run(func(api frontend.API) {
		in := make([]gl.Variable, len(xs))
		for i := range xs {
			if konst>>uint(i)&1 == 1 {
				in[i] = gl.NewVariable(xs[i]) // operands may be compile-time constants
			} else {
				in[i] = gl.NewVariable(e.U64(xs[i]))
			}
		}
		out = g.run(api, gl.New(api), in, e)
	})
	if o.Accept {
		for _, v := range out {
			x := e.Of(v)
			b := new(big.Int)
			x.BigInt(b)
			if g.wide {
				b.Mod(b, eng.P)
			}
			got = append(got, b)
		}
	}
	st = stat{e.Ops, e.Calls, e.Digest}
	e.Free()
	return
}

func gadgetDiff(g *gadget, o eng.Outcome, got, want []*big.Int) string {
	if !o.Accept {
		return ""
	}
	if want == nil {
		return "satisfied outside the operation's domain"
	}
	if len(got) != len(want) {
		return fmt.Sprintf("%d results instead of %d", len(got), len(want))
	}
	for i := range got {
		if got[i].Cmp(want[i]) != 0 {
			return fmt.Sprintf("result %d is %v instead of %v", i, got[i], want[i])
		}
	}
	return ""
}
