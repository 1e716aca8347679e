// Package eng is the simulated constraint builder and solver: one process plays the circuit, the
// solver and the (untrusted) hint service. It evaluates the circuit eagerly over the BN254 scalar
// field; the first violated constraint ends the run as a rejection.
package eng

import (
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"math/big"
	"reflect"
	"runtime"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark-crypto/field/goldilocks"
	"github.com/consensys/gnark/constraint"
	"github.com/consensys/gnark/constraint/solver"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/std/math/bits"
)

// V is a circuit variable.
type V struct {
	E     fr.Element
	id    uint32 // 0: constant
	shape uint64 // structural fingerprint (trace mode)
}

// Reject is the panic value of a violated constraint.
type Reject struct{ Why string }

// Unsupported is the panic value for builder features the simulator does not model.
type Unsupported struct{ What string }

// HintFn answers a hint call. honest is nil when the honest hint panicked or failed (herr tells why).
type HintFn func(call int, k Kind, in, honest []*big.Int, nOut int) []*big.Int

// Backend kinds.
const (
	Plain  = iota // neither range checker nor committer: bit decomposition
	Native        // native range checker
	Commit        // committer
	Both          // native range checker and committer
)

var BackendName = []string{"bitdecomp", "native", "commit", "native+commit"}

// RangeRec is one range check seen by the native checker.
type RangeRec struct {
	ID   uint32
	Bits int
}

type Engine struct {
	self         frontend.API
	kv           map[any]any
	deferred     []func(frontend.API) error
	slab         []V
	nextID       uint32
	Hint         HintFn // nil: honest
	Calls        int
	Lenient      bool // when honest hints fail, keep going with the best adversarial answer
	Trace        bool
	Digest       uint64
	Ops          int
	RangeFail    func(n int) bool // fault: native checker failure at call n (C08)
	Ranges       []RangeRec
	RecordRanges bool
	NChecks      int
	Boolean      map[*V]bool
	Asserts      int
	CommitCalls  int
	Defers       int
	Boom         func(op string) bool // fault: the builder panics at this call
	Bag          uint64               // order-independent fingerprint of everything emitted (trace mode)
	Collect      bool                 // record violated constraints and go on
	Fails        []Fail
	Chips        map[string]any // chips shared by the operations of a history
}

type nativeEngine struct{ *Engine }
type commitEngine struct{ *Engine }
type bothEngine struct{ *Engine }

func (b *bothEngine) Check(v frontend.Variable, nb int) { (&nativeEngine{b.Engine}).Check(v, nb) }
func (b *bothEngine) Commit(vs ...frontend.Variable) (frontend.Variable, error) {
	return (&commitEngine{b.Engine}).Commit(vs...)
}

var field = fr.Modulus()

// New returns the API of a fresh simulated builder with the given capabilities and the engine behind it.
func New(backend int) (frontend.API, *Engine) {
	e := &Engine{kv: map[any]any{}, nextID: 1, Lenient: true, Digest: 14695981039346656037}
	switch backend {
	case Native:
		n := &nativeEngine{e}
		e.self = n
	case Commit:
		n := &commitEngine{e}
		e.self = n
	case Both:
		e.self = &bothEngine{e}
	default:
		e.self = e
	}
	return e.self, e
}

// Free drops the memory held by a finished engine (the code under test may keep a reference to it).
func (e *Engine) Free() {
	e.kv, e.deferred, e.slab, e.Ranges, e.Boolean, e.Hint = nil, nil, nil, nil, nil, nil
}

func (e *Engine) alloc() *V {
	if len(e.slab) == 0 {
		e.slab = make([]V, 512)
	}
	v := &e.slab[0]
	e.slab = e.slab[1:]
	v.id = e.nextID
	e.nextID++
	return v
}

// Var makes a fresh witness variable.
func (e *Engine) Var(x fr.Element) *V {
	v := e.alloc()
	v.E = x
	v.shape = uint64(v.id) * 0x9E3779B97F4A7C15
	return v
}
func (e *Engine) U64(x uint64) *V {
	v := e.Var(fr.Element{})
	v.E.SetUint64(x)
	return v
}

// fail reports a violated constraint: it ends the run, or is recorded with its position in collect mode.
func (e *Engine) fail(format string, a ...any) {
	if e.Collect {
		f := Fail{At: e.Ops + e.Asserts, Kind: format}
		if format == eqFormat {
			fmt.Sscan(a[0].(string), &f.X)
			fmt.Sscan(a[1].(string), &f.Y)
		}
		e.Fails = append(e.Fails, f)
		return
	}
	panic(Reject{fmt.Sprintf(format, a...)})
}

// Fail is a violated constraint in collect mode: its position in the emitted constraint stream and its kind.
type Fail struct {
	At   int
	Kind string
	X, Y big.Int // the two sides of a violated equality
}

const eqFormat = "%s == %s violated"

// val converts any accepted operand.
func (e *Engine) val(x frontend.Variable) (r fr.Element, shape uint64) {
	switch t := x.(type) {
	case *V:
		return t.E, t.shape
	case int:
		r.SetInt64(int64(t))
	case uint64:
		r.SetUint64(t)
	case *big.Int:
		if t == nil {
			panic("nil *big.Int used as a circuit variable")
		}
		r.SetBigInt(t)
	case big.Int:
		r.SetBigInt(&t)
	case fr.Element:
		r = t
	case goldilocks.Element:
		var b big.Int
		t.BigInt(&b)
		r.SetBigInt(&b)
	case nil:
		panic("nil circuit variable")
	default:
		if _, err := r.SetInterface(x); err != nil {
			rv := reflect.ValueOf(x)
			switch rv.Kind() {
			case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
				r.SetInt64(rv.Int())
			case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
				r.SetUint64(rv.Uint())
			default:
				panic(fmt.Sprintf("cannot use %T as a circuit variable", x))
			}
		}
	}
	if e.Trace {
		shape = (r[0]*3 ^ r[1]*5 ^ r[2]*7 ^ r[3]*11) * 0x9E3779B97F4A7C15
		shape |= 1
	}
	return
}

func isVar(x frontend.Variable) bool {
	v, ok := x.(*V)
	return ok && v.id != 0
}

func mix(h uint64, xs ...uint64) uint64 {
	for _, x := range xs {
		h ^= x
		h *= 0xff51afd7ed558ccd
		h ^= h >> 33
	}
	return h
}

func (e *Engine) out(op uint64, r fr.Element, konst bool, shapes ...uint64) *V {
	e.Ops++
	v := e.alloc()
	v.E = r
	if konst {
		v.id = 0
		if e.Trace {
			_, v.shape = e.val(r)
		}
		return v
	}
	if e.Trace {
		v.shape = mix(op*0x100000001b3, shapes...)
		v.shape = mix(v.shape, uint64(len(shapes)))
		e.Digest = mix(e.Digest, v.shape)
		e.Bag += mix(v.shape, 78)
	}
	return v
}
func (e *Engine) note(op uint64, shapes ...uint64) {
	e.Asserts++
	if e.Trace {
		e.Digest = mix(e.Digest, op)
		e.Digest = mix(e.Digest, shapes...)
		e.Bag += mix(mix(op, 77), shapes...)
	}
	if e.Boom != nil {
		e.boom("assert")
	}
}

func (e *Engine) boom(op string) {
	if e.Boom != nil && e.Boom(op) {
		panic("builder failure at " + op + " (injected)")
	}
}

// ---- frontend.API ----

func (e *Engine) fold(op uint64, f func(r *fr.Element, x *fr.Element), i1, i2 frontend.Variable, in []frontend.Variable) frontend.Variable {
	r, s := e.val(i1)
	k := !isVar(i1)
	shapes := []uint64{s}
	x, s := e.val(i2)
	k = k && !isVar(i2)
	f(&r, &x)
	shapes = append(shapes, s)
	for _, v := range in {
		x, s := e.val(v)
		k = k && !isVar(v)
		f(&r, &x)
		shapes = append(shapes, s)
	}
	return e.out(op, r, k, shapes...)
}
func (e *Engine) Add(i1, i2 frontend.Variable, in ...frontend.Variable) frontend.Variable {
	return e.fold(1, func(r, x *fr.Element) { r.Add(r, x) }, i1, i2, in)
}
func (e *Engine) Sub(i1, i2 frontend.Variable, in ...frontend.Variable) frontend.Variable {
	return e.fold(2, func(r, x *fr.Element) { r.Sub(r, x) }, i1, i2, in)
}
func (e *Engine) Mul(i1, i2 frontend.Variable, in ...frontend.Variable) frontend.Variable {
	return e.fold(3, func(r, x *fr.Element) { r.Mul(r, x) }, i1, i2, in)
}
func (e *Engine) MulAcc(a, b, c frontend.Variable) frontend.Variable {
	x, s0 := e.val(a)
	y, s1 := e.val(b)
	z, s2 := e.val(c)
	y.Mul(&y, &z)
	x.Add(&x, &y)
	return e.out(4, x, !isVar(a) && !isVar(b) && !isVar(c), s0, s1, s2)
}
func (e *Engine) Neg(i1 frontend.Variable) frontend.Variable {
	x, s := e.val(i1)
	x.Neg(&x)
	return e.out(5, x, !isVar(i1), s)
}
func (e *Engine) DivUnchecked(i1, i2 frontend.Variable) frontend.Variable {
	x, s0 := e.val(i1)
	y, s1 := e.val(i2)
	if y.IsZero() {
		if !x.IsZero() {
			e.fail("division by zero")
		}
		x.SetZero()
		return e.out(6, x, false, s0, s1)
	}
	x.Div(&x, &y)
	return e.out(6, x, !isVar(i1) && !isVar(i2), s0, s1)
}
func (e *Engine) Div(i1, i2 frontend.Variable) frontend.Variable {
	x, s0 := e.val(i1)
	y, s1 := e.val(i2)
	if y.IsZero() {
		e.fail("division by zero")
		return e.out(7, y, false, s0, s1)
	}
	x.Div(&x, &y)
	return e.out(7, x, !isVar(i1) && !isVar(i2), s0, s1)
}
func (e *Engine) Inverse(i1 frontend.Variable) frontend.Variable {
	x, s0 := e.val(i1)
	if x.IsZero() {
		e.fail("inverse of zero")
	}
	x.Inverse(&x)
	return e.out(8, x, !isVar(i1), s0)
}
func (e *Engine) BatchInvert(in []frontend.Variable) []frontend.Variable {
	xs := make([]fr.Element, len(in))
	for i := range in {
		xs[i], _ = e.val(in[i])
		if xs[i].IsZero() {
			e.fail("inverse of zero")
		}
	}
	inv := fr.BatchInvert(xs)
	r := make([]frontend.Variable, len(in))
	for i := range r {
		_, s := e.val(in[i])
		r[i] = e.out(8, inv[i], false, s)
	}
	return r
}
func (e *Engine) ToBinary(i1 frontend.Variable, n ...int) []frontend.Variable {
	if len(n) == 1 {
		return bits.ToBinary(e.self, i1, bits.WithNbDigits(n[0]))
	}
	if len(n) > 1 {
		panic("only one argument is supported")
	}
	return bits.ToBinary(e.self, i1)
}
func (e *Engine) FromBinary(b ...frontend.Variable) frontend.Variable {
	return bits.FromBinary(e.self, b)
}
func (e *Engine) boolean(x frontend.Variable) (fr.Element, uint64) {
	v, s := e.val(x)
	if !v.IsZero() && !v.IsOne() {
		e.fail("not boolean")
	}
	return v, s
}
func (e *Engine) Xor(a, b frontend.Variable) frontend.Variable {
	x, s0 := e.boolean(a)
	y, s1 := e.boolean(b)
	var r fr.Element
	if x.IsZero() != y.IsZero() {
		r.SetOne()
	}
	return e.out(9, r, !isVar(a) && !isVar(b), s0, s1)
}
func (e *Engine) Or(a, b frontend.Variable) frontend.Variable {
	x, s0 := e.boolean(a)
	y, s1 := e.boolean(b)
	var r fr.Element
	if !x.IsZero() || !y.IsZero() {
		r.SetOne()
	}
	return e.out(10, r, !isVar(a) && !isVar(b), s0, s1)
}
func (e *Engine) And(a, b frontend.Variable) frontend.Variable {
	x, s0 := e.boolean(a)
	y, s1 := e.boolean(b)
	x.Mul(&x, &y)
	return e.out(11, x, !isVar(a) && !isVar(b), s0, s1)
}
func (e *Engine) Select(b, i1, i2 frontend.Variable) frontend.Variable {
	c, s0 := e.boolean(b)
	x, s1 := e.val(i1)
	y, s2 := e.val(i2)
	k := !isVar(b) && !isVar(i1) && !isVar(i2)
	if c.IsZero() {
		x = y
	}
	return e.out(12, x, k, s0, s1, s2)
}
func (e *Engine) Lookup2(b0, b1, i0, i1, i2, i3 frontend.Variable) frontend.Variable {
	x, s0 := e.boolean(b0)
	y, s1 := e.boolean(b1)
	in := []frontend.Variable{i0, i1, i2, i3}
	sh := []uint64{s0, s1}
	k := !isVar(b0) && !isVar(b1)
	idx := 0
	if !x.IsZero() {
		idx++
	}
	if !y.IsZero() {
		idx += 2
	}
	var r fr.Element
	for j, v := range in {
		z, s := e.val(v)
		sh = append(sh, s)
		k = k && !isVar(v)
		if j == idx {
			r = z
		}
	}
	return e.out(13, r, k, sh...)
}
func (e *Engine) IsZero(i1 frontend.Variable) frontend.Variable {
	x, s := e.val(i1)
	var r fr.Element
	if x.IsZero() {
		r.SetOne()
	}
	return e.out(14, r, !isVar(i1), s)
}
func (e *Engine) Cmp(i1, i2 frontend.Variable) frontend.Variable {
	x, s0 := e.val(i1)
	y, s1 := e.val(i2)
	var r fr.Element
	r.SetInt64(int64(x.Cmp(&y)))
	return e.out(15, r, !isVar(i1) && !isVar(i2), s0, s1)
}
func (e *Engine) AssertIsEqual(i1, i2 frontend.Variable) {
	x, s0 := e.val(i1)
	y, s1 := e.val(i2)
	if s0 > s1 {
		s0, s1 = s1, s0
	}
	e.note(16, s0, s1)
	if !x.Equal(&y) {
		e.fail(eqFormat, dec(&x), dec(&y))
	}
}
func (e *Engine) AssertIsDifferent(i1, i2 frontend.Variable) {
	x, s0 := e.val(i1)
	y, s1 := e.val(i2)
	e.note(17, s0, s1)
	if x.Equal(&y) {
		e.fail("%s != %s violated", x.String(), y.String())
	}
}
func (e *Engine) AssertIsBoolean(i1 frontend.Variable) {
	x, s := e.val(i1)
	e.note(18, s)
	if !x.IsZero() && !x.IsOne() {
		e.fail("%s is not boolean", x.String())
	}
}
func (e *Engine) AssertIsLessOrEqual(v, bound frontend.Variable) {
	x, s0 := e.val(v)
	y, s1 := e.val(bound)
	e.note(19, s0, s1)
	if x.Cmp(&y) > 0 {
		e.fail("%s <= %s violated", x.String(), y.String())
	}
}
func (e *Engine) MustBeLessOrEqCst(aBits []frontend.Variable, bound *big.Int, aForDebug frontend.Variable) {
	x := new(big.Int)
	sh := []uint64{}
	for i := len(aBits) - 1; i >= 0; i-- {
		b, s := e.val(aBits[i])
		sh = append(sh, s)
		if !b.IsZero() && !b.IsOne() {
			e.fail("comparison digit is not boolean")
		}
		x.Lsh(x, 1)
		if b.IsOne() {
			x.SetBit(x, 0, 1)
		}
	}
	e.note(20, sh...)
	if x.Cmp(bound) > 0 {
		e.fail("bits exceed bound")
	}
}
func (e *Engine) Println(a ...frontend.Variable) {}
func (e *Engine) Compiler() frontend.Compiler {
	e.boom("compiler")
	return e.self.(frontend.Compiler)
}
func (e *Engine) ConstantValue(v frontend.Variable) (*big.Int, bool) {
	if isVar(v) {
		return nil, false
	}
	x, _ := e.val(v)
	r := new(big.Int)
	x.BigInt(r)
	return r, true
}

// ---- compiler ----

func (e *Engine) SetKeyValue(k, v any) {
	e.boom("key-value")
	e.kv[k] = v
}
func (e *Engine) GetKeyValue(k any) any { return e.kv[k] }
func (e *Engine) Defer(cb func(frontend.API) error) {
	e.boom("defer")
	e.Defers++
	e.deferred = append(e.deferred, cb)
}
func (e *Engine) Field() *big.Int                           { return new(big.Int).Set(field) }
func (e *Engine) FieldBitLen() int                          { return field.BitLen() }
func (e *Engine) MarkBoolean(v frontend.Variable)           {}
func (e *Engine) IsBoolean(v frontend.Variable) bool        { return false }
func (e *Engine) SetGkrInfo(constraint.GkrInfo) error       { panic(Unsupported{"gkr"}) }
func (e *Engine) InternalVariable(uint32) frontend.Variable { panic(Unsupported{"InternalVariable"}) }
func (e *Engine) ToCanonicalVariable(frontend.Variable) frontend.CanonicalVariable {
	panic(Unsupported{"ToCanonicalVariable"})
}
func (e *Engine) AddBlueprint(constraint.Blueprint) constraint.BlueprintID {
	panic(Unsupported{"blueprint"})
}
func (e *Engine) AddInstruction(constraint.BlueprintID, []uint32) []uint32 {
	panic(Unsupported{"instruction"})
}
func (e *Engine) NewHintForId(id solver.HintID, n int, in ...frontend.Variable) ([]frontend.Variable, error) {
	for _, h := range solver.GetRegisteredHints() {
		if solver.GetHintID(h) == id {
			return e.NewHint(h, n, in...)
		}
	}
	return nil, fmt.Errorf("no hint %d", id)
}

func (e *Engine) NewHint(f solver.Hint, nOut int, inputs ...frontend.Variable) ([]frontend.Variable, error) {
	if nOut <= 0 {
		return nil, fmt.Errorf("hint function must return at least one output")
	}
	e.boom("hint")
	in := make([]*big.Int, len(inputs))
	shape := uint64(nOut)
	if e.Trace {
		shape = mix(shape, uint64(solver.GetHintID(f)), uint64(len(inputs)))
	}
	for i, x := range inputs {
		v, s := e.val(x)
		in[i] = new(big.Int)
		v.BigInt(in[i])
		if e.Trace {
			shape = mix(shape, s)
		}
	}
	call := e.Calls
	e.Calls++
	honest, herr := runHint(f, in, nOut)
	ans := honest
	if e.Hint != nil {
		ans = e.Hint(call, KindOf(f, len(in), nOut), in, honest, nOut)
	} else if honest == nil {
		if !e.Lenient {
			panic(Reject{"hint failed: " + herr})
		}
		ans = Fallback(KindOf(f, len(in), nOut), in, nOut)
	}
	if ans == nil {
		e.fail("hint failed: %s", herr)
		ans = make([]*big.Int, nOut)
		for i := range ans {
			ans[i] = new(big.Int)
		}
	}
	out := make([]frontend.Variable, nOut)
	for i := range out {
		v := e.alloc()
		v.E.SetBigInt(ans[i])
		if e.Trace {
			v.shape = mix(shape, 21, uint64(i))
			e.Digest = mix(e.Digest, v.shape)
		}
		out[i] = v
	}
	return out, nil
}

func runHint(f solver.Hint, in []*big.Int, nOut int) (res []*big.Int, why string) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(runtime.Error); ok {
				why = fmt.Sprint("runtime error: ", r)
			} else {
				why = fmt.Sprint(r)
			}
			res = nil
		}
	}()
	res = make([]*big.Int, nOut)
	for i := range res {
		res[i] = new(big.Int)
	}
	cp := make([]*big.Int, len(in))
	for i := range in {
		cp[i] = new(big.Int).Set(in[i])
	}
	if err := f(new(big.Int).Set(field), cp, res); err != nil {
		return nil, err.Error()
	}
	for i := range res {
		res[i] = new(big.Int).Mod(res[i], field)
	}
	return res, ""
}

// ---- back ends ----

// Check is the native range check.
func (n *nativeEngine) Check(v frontend.Variable, nb int) {
	e := n.Engine
	x, s := e.val(v)
	e.boom("check")
	e.note(22, s, uint64(nb))
	e.NChecks++
	if e.RecordRanges {
		id := uint32(0)
		if vv, ok := v.(*V); ok {
			id = vv.id
		}
		e.Ranges = append(e.Ranges, RangeRec{id, nb})
	}
	if e.RangeFail != nil && e.RangeFail(e.NChecks-1) {
		panic("native range checker failure (injected)")
	}
	if nb < 254 {
		var b big.Int
		x.BigInt(&b)
		if b.BitLen() > nb {
			e.fail("%s exceeds %d bits", x.String(), nb)
		}
	}
}

// Commit is the simulated commitment: a hash of the committed values.
func (c *commitEngine) Commit(vs ...frontend.Variable) (frontend.Variable, error) {
	e := c.Engine
	e.CommitCalls++
	h := sha256.New()
	var b [8]byte
	for _, v := range vs {
		x, _ := e.val(v)
		for _, l := range x {
			binary.LittleEndian.PutUint64(b[:], l)
			h.Write(b[:])
		}
	}
	var x fr.Element
	x.SetBytes(h.Sum(nil))
	if e.Trace {
		e.Digest = mix(e.Digest, 23, uint64(len(vs)))
	}
	return e.Var(x), nil
}

// Outcome of one simulated build and solve.
type Outcome struct {
	Accept  bool
	Refused bool // build panicked (shape or configuration refused)
	Why     string
	Unsup   bool
}

// Run executes body and the deferred callbacks and reports the outcome.
func (e *Engine) Run(body func(api frontend.API)) Outcome {
	if o := e.Part(body); !o.Accept {
		return o
	}
	return e.Finish()
}

// Part executes a part of a build.
func (e *Engine) Part(body func(api frontend.API)) (o Outcome) {
	defer caught(&o)
	body(e.self)
	return Outcome{Accept: true}
}

// Finish executes the deferred callbacks.
func (e *Engine) Finish() (o Outcome) {
	defer caught(&o)
	for i := 0; i < len(e.deferred); i++ {
		if err := e.deferred[i](e.self); err != nil {
			return Outcome{Refused: true, Why: err.Error()}
		}
	}
	return Outcome{Accept: true}
}

func caught(o *Outcome) {
	if r := recover(); r != nil {
		o.Accept = false
		switch t := r.(type) {
		case Reject:
			o.Why = t.Why
		case Unsupported:
			o.Unsup, o.Why = true, t.What
		default:
			o.Refused = true
			o.Why = fmt.Sprint(r)
		}
	}
}

func dec(x *fr.Element) string {
	var b big.Int
	x.BigInt(&b)
	return b.String()
}

// Of reads the value of a variable.
func (e *Engine) Of(v frontend.Variable) fr.Element { x, _ := e.val(v); return x }
