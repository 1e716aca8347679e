//go:build simos

package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark/frontend"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
	"github.com/succinctlabs/gnark-plonky2-verifier/plonk/gates"
	"github.com/succinctlabs/gnark-plonky2-verifier/poseidon"
	"github.com/succinctlabs/gnark-plonky2-verifier/types"
	"github.com/succinctlabs/gnark-plonky2-verifier/variables"

	"verif/sim/br"
	"verif/sim/circ"
	"verif/sim/lab"
	"verif/sim/simdisk"
)

// ---- independent decoders -------------------------------------------------------------------

type jFriConfig struct {
	Rate    uint64 `json:"rate_bits"`
	Cap     uint64 `json:"cap_height"`
	Pow     uint64 `json:"proof_of_work_bits"`
	Queries uint64 `json:"num_query_rounds"`
	Strat   struct {
		C []uint64 `json:"ConstantArityBits"`
	} `json:"reduction_strategy"`
}
type jCommon struct {
	Config struct {
		Wires   uint64     `json:"num_wires"`
		Routed  uint64     `json:"num_routed_wires"`
		Consts  uint64     `json:"num_constants"`
		Base    bool       `json:"use_base_arithmetic_gate"`
		Sec     uint64     `json:"security_bits"`
		Chal    uint64     `json:"num_challenges"`
		ZK      bool       `json:"zero_knowledge"`
		MaxQDF  uint64     `json:"max_quotient_degree_factor"`
		FriConf jFriConfig `json:"fri_config"`
	} `json:"config"`
	Fri struct {
		Config jFriConfig `json:"config"`
		Hiding bool       `json:"hiding"`
		Degree uint64     `json:"degree_bits"`
		Arity  []uint64   `json:"reduction_arity_bits"`
	} `json:"fri_params"`
	Gates []string `json:"gates"`
	Sel   struct {
		Idx    []uint64 `json:"selector_indices"`
		Groups []struct {
			Start uint64 `json:"start"`
			End   uint64 `json:"end"`
		} `json:"groups"`
	} `json:"selectors_info"`
	QDF     uint64   `json:"quotient_degree_factor"`
	NumGC   uint64   `json:"num_gate_constraints"`
	NumC    uint64   `json:"num_constants"`
	NumPI   uint64   `json:"num_public_inputs"`
	Ks      []uint64 `json:"k_is"`
	NumPart uint64   `json:"num_partial_products"`
}
type jPath struct {
	Sib []string `json:"siblings"`
}
type jProof struct {
	Proof struct {
		W  []string `json:"wires_cap"`
		Z  []string `json:"plonk_zs_partial_products_cap"`
		Q  []string `json:"quotient_polys_cap"`
		Op struct {
			C  [][]uint64 `json:"constants"`
			S  [][]uint64 `json:"plonk_sigmas"`
			W  [][]uint64 `json:"wires"`
			Z  [][]uint64 `json:"plonk_zs"`
			ZN [][]uint64 `json:"plonk_zs_next"`
			P  [][]uint64 `json:"partial_products"`
			Q  [][]uint64 `json:"quotient_polys"`
		} `json:"openings"`
		Fri struct {
			Caps [][]string `json:"commit_phase_merkle_caps"`
			Qs   []struct {
				Init struct {
					Ev []jLeaf `json:"evals_proofs"`
				} `json:"initial_trees_proof"`
				Steps []struct {
					Evals [][]uint64 `json:"evals"`
					Path  jPath      `json:"merkle_proof"`
				} `json:"steps"`
			} `json:"query_round_proofs"`
			Final struct {
				C [][]uint64 `json:"coeffs"`
			} `json:"final_poly"`
			Pow uint64 `json:"pow_witness"`
		} `json:"opening_proof"`
	} `json:"proof"`
	PIs []uint64 `json:"public_inputs"`
}
type jLeaf struct {
	Leaf []uint64
	Path jPath
	odd  bool
}

func (l *jLeaf) UnmarshalJSON(b []byte) error {
	var parts []json.RawMessage
	if err := json.Unmarshal(b, &parts); err != nil {
		return err
	}
	l.odd = len(parts) != 2
	if len(parts) > 0 {
		if err := json.Unmarshal(parts[0], &l.Leaf); err != nil {
			return err
		}
	}
	if len(parts) > 1 {
		return json.Unmarshal(parts[1], &l.Path)
	}
	return nil
}

type jVonly struct {
	Cap    []string `json:"constants_sigmas_cap"`
	Digest string   `json:"circuit_digest"`
}

// tokens of a loaded artifact; bad: the file cannot be read as such an artifact.
type toks struct {
	s   []string
	bad bool
}

func (t *toks) hash(s string) {
	n, ok := new(big.Int).SetString(s, 10)
	if !ok {
		t.bad = true
		return
	}
	t.val(n)
}
func (t *toks) val(v any) {
	var x fr.Element
	if _, err := x.SetInterface(v); err != nil {
		t.s = append(t.s, "not a value")
		return
	}
	t.s = append(t.s, x.Text(10))
}
func (t *toks) lbl(l string, n int) { t.s = append(t.s, fmt.Sprint(l, "*", n)) }
func (t *toks) hashes(l string, hs []string) {
	t.lbl(l, len(hs))
	for _, h := range hs {
		t.hash(h)
	}
}
func (t *toks) nums(l string, xs []uint64) {
	t.lbl(l, len(xs))
	for _, x := range xs {
		t.val(x)
	}
}
func (t *toks) pairs(l string, xs [][]uint64) {
	t.lbl(l, len(xs))
	for _, x := range xs {
		if len(x) != 2 {
			t.bad = true
			continue
		}
		t.val(x[0])
		t.val(x[1])
	}
}
func (t *toks) vHashes(l string, hs []poseidon.BN254HashOut) {
	t.lbl(l, len(hs))
	for _, h := range hs {
		t.val(frontend.Variable(h))
	}
}
func (t *toks) vNums(l string, xs []gl.Variable) {
	t.lbl(l, len(xs))
	for _, x := range xs {
		t.val(x.Limb)
	}
}
func (t *toks) vPairs(l string, xs []gl.QuadraticExtensionVariable) {
	t.lbl(l, len(xs))
	for _, x := range xs {
		t.val(x[0].Limb)
		t.val(x[1].Limb)
	}
}

func wantCommon(b []byte) (t toks) {
	var c jCommon
	if json.Unmarshal(b, &c) != nil || c.Fri.Hiding {
		t.bad = true
		return
	}
	fc := func(x jFriConfig) types.FriConfig {
		return types.FriConfig{RateBits: x.Rate, CapHeight: x.Cap, ProofOfWorkBits: x.Pow, NumQueryRounds: x.Queries}
	}
	var start, end []uint64
	for _, g := range c.Sel.Groups {
		start, end = append(start, g.Start), append(end, g.End)
	}
	var d types.CommonCircuitData
	d.Config = types.CircuitConfig{NumWires: c.Config.Wires, NumRoutedWires: c.Config.Routed, NumConstants: c.Config.Consts, UseBaseArithmeticGate: c.Config.Base, SecurityBits: c.Config.Sec,
		NumChallenges: c.Config.Chal, ZeroKnowledge: c.Config.ZK, MaxQuotientDegreeFactor: c.Config.MaxQDF, FriConfig: fc(c.Config.FriConf)}
	d.FriParams = types.FriParams{Config: fc(c.Fri.Config), DegreeBits: c.Fri.Degree, ReductionArityBits: c.Fri.Arity}
	d.DegreeBits = c.Fri.Degree
	d.GateIds = c.Gates
	d.SelectorsInfo = *gates.NewSelectorsInfo(c.Sel.Idx, start, end)
	d.QuotientDegreeFactor, d.NumGateConstraints, d.NumConstants, d.NumPublicInputs, d.KIs, d.NumPartialProducts = c.QDF, c.NumGC, c.NumC, c.NumPI, c.Ks, c.NumPart
	return gotCommon(d)
}
func gotCommon(d types.CommonCircuitData) (t toks) {
	t.s = strings.Fields(fmt.Sprintf("%+v", d))
	t.s = append(t.s, fmt.Sprintf("%q", d.GateIds))
	return
}
func wantVonly(b []byte) (t toks) {
	var v jVonly
	if json.Unmarshal(b, &v) != nil {
		t.bad = true
		return
	}
	t.hashes("cap", v.Cap)
	t.hash(v.Digest)
	return
}
func gotVonly(v variables.VerifierOnlyCircuitData) (t toks) {
	t.vHashes("cap", v.ConstantSigmasCap)
	t.val(frontend.Variable(v.CircuitDigest))
	return
}
func wantProof(b []byte) (t toks) {
	var p jProof
	if json.Unmarshal(b, &p) != nil {
		t.bad = true
		return
	}
	t.hashes("wires", p.Proof.W)
	t.hashes("zs", p.Proof.Z)
	t.hashes("quotient", p.Proof.Q)
	o := &p.Proof.Op
	for i, x := range [][][]uint64{o.C, o.S, o.W, o.Z, o.ZN, o.P, o.Q} {
		t.pairs(fmt.Sprint("opening", i), x)
	}
	f := &p.Proof.Fri
	t.lbl("caps", len(f.Caps))
	for _, c := range f.Caps {
		t.hashes("layer", c)
	}
	t.lbl("queries", len(f.Qs))
	for _, q := range f.Qs {
		t.lbl("trees", len(q.Init.Ev))
		for _, e := range q.Init.Ev {
			t.bad = t.bad || e.odd
			t.nums("leaf", e.Leaf)
			t.hashes("path", e.Path.Sib)
		}
		t.lbl("steps", len(q.Steps))
		for _, s := range q.Steps {
			t.pairs("evals", s.Evals)
			t.hashes("path", s.Path.Sib)
		}
	}
	t.pairs("final", f.Final.C)
	t.val(f.Pow)
	t.nums("inputs", p.PIs)
	return
}
func gotProof(p variables.ProofWithPublicInputs) (t toks) {
	t.vHashes("wires", p.Proof.WiresCap)
	t.vHashes("zs", p.Proof.PlonkZsPartialProductsCap)
	t.vHashes("quotient", p.Proof.QuotientPolysCap)
	o := &p.Proof.Openings
	for i, x := range [][]gl.QuadraticExtensionVariable{o.Constants, o.PlonkSigmas, o.Wires, o.PlonkZs, o.PlonkZsNext, o.PartialProducts, o.QuotientPolys} {
		t.vPairs(fmt.Sprint("opening", i), x)
	}
	f := &p.Proof.OpeningProof
	t.lbl("caps", len(f.CommitPhaseMerkleCaps))
	for _, c := range f.CommitPhaseMerkleCaps {
		t.vHashes("layer", c)
	}
	t.lbl("queries", len(f.QueryRoundProofs))
	for _, q := range f.QueryRoundProofs {
		t.lbl("trees", len(q.InitialTreesProof.EvalsProofs))
		for _, e := range q.InitialTreesProof.EvalsProofs {
			t.vNums("leaf", e.Elements)
			t.vHashes("path", e.MerkleProof.Siblings)
		}
		t.lbl("steps", len(q.Steps))
		for _, s := range q.Steps {
			t.vPairs("evals", s.Evals)
			t.vHashes("path", s.MerkleProof.Siblings)
		}
	}
	t.vPairs("final", f.FinalPoly.Coeffs)
	t.val(f.PowWitness.Limb)
	t.vNums("inputs", p.PublicInputs)
	return
}

// ---- documents --------------------------------------------------------------------------------

var artifactNames = []string{"common_circuit_data.json", "verifier_only_circuit_data.json", "proof_with_public_inputs.json"}

func randNum(r *rand.Rand) uint64 {
	switch r.Intn(8) {
	case 0:
		return 0
	case 1:
		return ^uint64(0)
	case 2:
		return 1 << r.Intn(64)
	case 3:
		return 0xffffffff00000001
	case 4:
		return 0xffffffff00000000 - uint64(r.Intn(3))
	}
	return r.Uint64() >> r.Intn(64)
}

func randHash(r *rand.Rand) string {
	n := new(big.Int).Rand(r, fr.Modulus())
	switch r.Intn(6) {
	case 0:
		n.SetUint64(randNum(r))
	case 1:
		n.Sub(fr.Modulus(), big.NewInt(int64(1+r.Intn(3))))
	}
	return n.String()
}

// randomise replaces every value of a document; lengths of the innermost lists may change.
func randomise(r *rand.Rand, v any) any {
	switch x := v.(type) {
	case map[string]any:
		o := map[string]any{}
		for _, k := range keys(x) {
			if k == "hiding" {
				o[k] = false
				continue
			}
			if k == "gates" {
				var ids []any
				for i := 0; i < r.Intn(6); i++ {
					ids = append(ids, fmt.Sprintf("Gate%d { k: %d, s: \"é\\n\" }", r.Intn(9), r.Intn(99)))
				}
				o[k] = ids
				continue
			}
			o[k] = randomise(r, x[k])
		}
		return o
	case []any:
		if len(x) == 0 {
			return x
		}
		if len(x) == 2 { // pairs and [leaf, path]
			return []any{randomise(r, x[0]), randomise(r, x[1])}
		}
		n := 1 + r.Intn(4)
		if r.Intn(8) == 0 {
			n = 0
		}
		o := []any{}
		for i := 0; i < n; i++ {
			o = append(o, randomise(r, x[i%len(x)]))
		}
		return o
	case json.Number:
		return json.Number(fmt.Sprint(randNum(r)))
	case string:
		return randHash(r)
	case bool:
		return r.Intn(2) == 0
	}
	return v
}

func keys(m map[string]any) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// render writes a document with seeded key order and white space.
func render(r *rand.Rand, v any, loose bool) []byte {
	var b strings.Builder
	ws := func() {
		if loose && r.Intn(6) == 0 {
			b.WriteString([]string{" ", "\n", "\t", "\r\n  "}[r.Intn(4)])
		}
	}
	var w func(v any)
	w = func(v any) {
		ws()
		switch x := v.(type) {
		case map[string]any:
			ks := keys(x)
			if loose {
				r.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
			}
			b.WriteByte('{')
			for i, k := range ks {
				if i > 0 {
					b.WriteByte(',')
				}
				ws()
				fmt.Fprintf(&b, "%q", k)
				ws()
				b.WriteByte(':')
				w(x[k])
			}
			b.WriteByte('}')
		case []any:
			b.WriteByte('[')
			for i := range x {
				if i > 0 {
					b.WriteByte(',')
				}
				w(x[i])
			}
			b.WriteByte(']')
		default:
			j, _ := json.Marshal(v)
			b.Write(j)
		}
		ws()
	}
	w(v)
	return []byte(b.String())
}

func parseDoc(b []byte) (v any) {
	d := json.NewDecoder(strings.NewReader(string(b)))
	d.UseNumber()
	if err := d.Decode(&v); err != nil {
		panic(err)
	}
	return
}

// docs are the three artifacts of file set i of a plan.
func c09Docs(p *lab.Plan, i int) (docs [3][]byte, honest bool) {
	r := lab.Rng(p.Seed, fmt.Sprint("doc", i))
	run := circ.Honest(int64(p.P["circuit"]+i%3), circ.Tiny, int64(i%2))
	a, b, c := br.JSON(run.In.C, run.Msg)
	docs = [3][]byte{a, b, c}
	honest = p.P["random"] == 0
	for k := range docs {
		v := parseDoc(docs[k])
		if !honest {
			v = randomise(r, v)
		}
		docs[k] = render(r, v, p.P["loose"] == 1)
		if n := p.P["pad"]; n > 0 { // white space up to well beyond any buffer size
			docs[k] = bytes.Replace(docs[k], []byte(","), []byte(","+strings.Repeat([]string{" ", "\n", "\t"}[k], n)), 1)
		}
	}
	return
}

var hidingKey = regexp.MustCompile(`"hiding"\s*:\s*false`)

func scratch() string {
	d, err := os.MkdirTemp("/tmp", "simdisk.")
	if err != nil {
		panic(err)
	}
	return d
}

var contentFaults = map[string]bool{"truncate": true, "flip": true, "torn": true, "zero-block": true, "append": true, "missing": true, "empty": true, "hiding": true, "digit": true, "duplicate-block": true, "list": true}

// c09Load loads several artifact sets in one process from a faulty disk.
func c09Load(p *lab.Plan) *lab.Result {
	res := &lab.Result{Fired: map[string]int{}}
	dir := scratch()
	defer os.RemoveAll(dir)
	sets := p.P["sets"]
	var flt []lab.Fault
	type file struct {
		path    string
		content []byte
		missing bool
		dirty   bool
		honest  bool
	}
	files := make([][3]file, sets)
	for i := range files {
		docs, honest := c09Docs(p, i)
		old, _ := c09Docs(p, i+sets)
		for k := range docs {
			f := &files[i][k]
			f.path = filepath.Join(dir, fmt.Sprint(i)+"_"+artifactNames[k])
			f.content = docs[k]
			f.honest = honest
			whole := len(f.content)
			for _, x := range p.Faults {
				if !contentFaults[x.K] || x.A[0] != i || x.A[1] != k || len(f.content) == 0 {
					continue
				}
				f.dirty = true
				res.Fired[x.K]++
				c := append([]byte(nil), f.content...)
				pos := x.A[2] % len(c)
				switch x.K {
				case "truncate":
					c = c[:pos]
				case "flip":
					c[pos] ^= 1 << (x.A[3] % 8)
				case "digit": // a flip that keeps the document well formed
					for n := 0; n < len(c); n++ {
						if q := (pos + n) % len(c); c[q] >= '2' && c[q] <= '9' {
							c[q] ^= 1
							break
						}
					}
				case "torn":
					if pos < len(old[k]) {
						c = append(c[:pos], old[k][pos:]...)
					}
				case "list": // a list inside the document grows, shrinks or loses its order
					c = relist(c, x.A[2], x.A[3])
				case "zero-block":
					for n := pos &^ 511; n < len(c) && n < pos&^511+512; n++ {
						c[n] = 0
					}
				case "duplicate-block":
					n := pos &^ 63
					c = append(append(append([]byte(nil), c[:n]...), c[n:min(len(c), n+64)]...), c[n:]...)
				case "append":
					c = append(c, []string{"}", "{}", "x", "\x00", "[1]", " 7", string(old[k])}[x.A[3]%7]...)
				case "missing":
					f.missing = true
				case "empty":
					c = nil
				case "hiding":
					if k == 0 {
						c = hidingKey.ReplaceAll(c, []byte(`"hiding":true`))
						if x.A[3]%3 == 0 {
							c = []byte(strings.Replace(string(c), "false", "true", -1))
						}
					}
				}
				f.content = c
			}
			if !f.missing {
				if err := os.WriteFile(f.path, f.content, 0o644); err != nil {
					return &lab.Result{Err: err.Error()}
				}
			}
			for _, x := range p.Faults {
				if x.K != "bad-sector" || x.A[0] != i || x.A[1] != k {
					continue
				}
				at := []int{whole, len(f.content), x.A[2] % (len(f.content) + 1), x.A[2] % (len(f.content) + 1) &^ 511}[x.A[3]%4]
				flt = append(flt, lab.Fault{K: x.K, S: filepath.Base(f.path), A: []int{at}})
			}
		}
	}
	disturbed := false
	for _, x := range p.Faults {
		disturbed = disturbed || x.K == "bad-sector"
		if !contentFaults[x.K] && x.K != "bad-sector" {
			flt = append(flt, x)
			disturbed = disturbed || x.K != "short-read"
		}
	}
	d := simdisk.New(dir, flt, lab.Rng(p.Seed, "disk"))
	type loaded struct {
		i, k int
		end  simdisk.End
		show func() toks
		file file // as it was when it was loaded
	}
	var all []loaded
	order := lab.Rng(p.Seed, "order").Perm(3 * sets)
	if p.P["rewritten"] == 1 { // every file is replaced later and loaded again
		for _, n := range lab.Rng(p.Seed, "second order").Perm(3 * sets) {
			order = append(order, n+3*sets)
		}
	}
	for at, n := range order {
		if at == 3*sets {
			r := lab.Rng(p.Seed, "rewrite")
			for i := range files {
				docs, honest := c09Docs(p, i+2*sets+1)
				for k := range docs {
					f := &files[i][k]
					st, err := os.Stat(f.path)
					c := docs[k]
					if n := len(f.content) - len(c); n > 0 && r.Intn(4) > 0 { // of the same size
						c = append(c, strings.Repeat(" ", n)...)
					}
					f.content, f.missing, f.dirty, f.honest = c, r.Intn(6) == 0, false, honest
					f.dirty = f.missing
					if f.missing || r.Intn(3) == 0 {
						os.Remove(f.path)
					}
					if !f.missing {
						if e := os.WriteFile(f.path, c, 0o644); e != nil {
							return &lab.Result{Err: e.Error()}
						}
						if err == nil && r.Intn(2) == 0 { // and as old as before
							os.Chtimes(f.path, st.ModTime(), st.ModTime())
						}
					}
					res.Fired["rewritten"]++
				}
			}
		}
		n %= 3 * sets
		l := loaded{i: n / 3, k: n % 3, file: files[n/3][n%3]}
		f := &files[l.i][l.k]
		l.end = d.Run(func() {
			switch l.k {
			case 0:
				v := types.ReadCommonCircuitData(f.path)
				l.show = func() toks { return gotCommon(v) }
			case 1:
				v := variables.DeserializeVerifierOnlyCircuitData(types.ReadVerifierOnlyCircuitData(f.path))
				l.show = func() toks { return gotVonly(v) }
			case 2:
				v := variables.DeserializeProofWithPublicInputs(types.ReadProofWithPublicInputs(f.path))
				l.show = func() toks { return gotProof(v) }
			}
		})
		if l.end.Code == 0 && l.show == nil || l.end.Why == "exit status 0" {
			res.Viol = "loading ends the process as if it had succeeded"
			return res
		}
		all = append(all, l)
	}
	res.Steps = int64(d.Ops())
	for k, v := range d.Fired {
		res.Fired[k] += v
	}
	ok, refused := 0, 0
	var sum []any
	for _, l := range all { // what was loaded first must have survived the later loads
		f := &l.file
		res.Subs++
		var want toks
		if f.missing {
			want.bad = true
		} else {
			want = []func([]byte) toks{wantCommon, wantVonly, wantProof}[l.k](f.content)
		}
		name := artifactNames[l.k]
		if l.end.Code != 0 {
			refused++
			sum = append(sum, "refused")
			if !f.dirty && !disturbed && f.honest {
				res.Viol = fmt.Sprintf("an intact %s cannot be loaded: %s", name, clip(strings.ReplaceAll(l.end.Why, dir, ".")))
				return res
			}
			continue
		}
		ok++
		got := l.show()
		sum = append(sum, got.s)
		switch {
		case want.bad:
			res.Viol = fmt.Sprintf("a damaged or unsupported %s is loaded without complaint", name)
		default:
			if s := diff(got.s, want.s); s != "" {
				res.Viol = fmt.Sprintf("%s is loaded with other contents than the file has: %s", name, s)
			}
		}
		if res.Viol != "" {
			return res
		}
	}
	res.Note = fmt.Sprintf("%d exact, %d refused", ok, refused)
	res.Sig = lab.Hash(p.Faults, p.P, d.Fired)
	res.Digest = digest(sum...)
	return res
}

// relist changes one list of a document that stays well formed.
func relist(b []byte, at, how int) []byte {
	if !json.Valid(b) {
		return b
	}
	v := parseDoc(b)
	var lists []*[]any
	var walk func(v any, put func(any))
	walk = func(v any, put func(any)) {
		switch x := v.(type) {
		case map[string]any:
			for _, k := range keys(x) {
				walk(x[k], func(y any) { x[k] = y })
			}
		case []any:
			y := x
			lists = append(lists, &y)
			put(&y)
			for i := range x {
				walk(x[i], func(z any) { x[i] = z })
			}
		}
	}
	walk(v, func(z any) { v = z })
	if len(lists) == 0 {
		return b
	}
	l := lists[at%len(lists)]
	n := len(*l)
	if n == 0 {
		return b
	}
	i := at / 7 % n
	c := append([]any(nil), *l...)
	switch how % 5 {
	case 0:
		c = append(c, c[i])
	case 1:
		c = append(c[:i], c[i+1:]...)
	case 2:
		c[i], c[n-1] = c[n-1], c[i]
	case 3:
		c = append(c, c...)
	case 4:
		c = nil
	}
	if c == nil {
		c = []any{}
	}
	*l = c
	o, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return o
}

func clip(s string) string {
	if len(s) > 160 {
		s = s[:160]
	}
	return s
}

func diff(a, b []string) string {
	for i := 0; i < len(a) || i < len(b); i++ {
		x, y := "nothing", "nothing"
		if i < len(a) {
			x = a[i]
		}
		if i < len(b) {
			y = b[i]
		}
		if x != y {
			return fmt.Sprintf("value %d is %s, the file says %s", i, clip(x), clip(y))
		}
	}
	return ""
}

func C09() *lab.Check {
	base := func(r *rand.Rand) *lab.Plan {
		return &lab.Plan{P: map[string]int{"circuit": 1 + r.Intn(6), "sets": 1 + r.Intn(3), "random": r.Intn(2), "loose": r.Intn(2), "rewritten": r.Intn(3) / 2}}
	}
	return &lab.Check{
		Prop: "C09", Level: "exploration",
		Rule:    "a run loads one to three artifact sets (sessions of generated circuits, or documents with arbitrary values) in seeded order from the simulated disk; distinct by document parameters, fault trace and faults that struck",
		Measure: "distinct (document parameters, fault trace, faults that struck)",
		Real:    []string{"types.Read*", "variables.Deserialize*", "Go os and encoding/json (os with the fault seam)"},
		Stub:    []string{"disk contents and read results: simdisk"},
		Assumptions: []string{"the independent decoder shares encoding/json (and so its key matching) with the code under test",
			"keys absent from a damaged but well-formed document may default"},
		Worlds: []lab.World{
			{Name: "damaged-files", Quick: 700, Thorough: 60000, Serial: true, Exec: c09Load, Gen: func(r *rand.Rand, i int) *lab.Plan {
				p := base(r)
				ks := []string{"truncate", "flip", "flip", "digit", "digit", "torn", "zero-block", "append", "missing", "empty", "hiding", "duplicate-block", "list", "list"}
				for n := 1 + r.Intn(3); n > 0; n-- {
					p.Faults = append(p.Faults, lab.Fault{K: ks[r.Intn(len(ks))], A: []int{r.Intn(p.P["sets"]), r.Intn(3), r.Intn(1 << 20), r.Intn(64)}})
				}
				return p
			}},
			{Name: "faulty-reads", Quick: 700, Thorough: 60000, Serial: true, Exec: c09Load, Gen: func(r *rand.Rand, i int) *lab.Plan {
				p := base(r)
				nth := func() int { return r.Intn([]int{3, 10, 40}[r.Intn(3)]) }
				for n := 1 + r.Intn(4); n > 0; n-- {
					switch r.Intn(6) {
					case 0:
						p.Faults = append(p.Faults, lab.Fault{K: "read-error", A: []int{nth(), r.Intn(3) * r.Intn(600)}})
					case 1:
						p.Faults = append(p.Faults, lab.Fault{K: "open-error", A: []int{r.Intn(3 * p.P["sets"]), r.Intn(4)}})
					case 2:
						p.Faults = append(p.Faults, lab.Fault{K: "stat-error", A: []int{nth(), r.Intn(4)}})
					case 3:
						p.Faults = append(p.Faults, lab.Fault{K: "close-error", A: []int{r.Intn(3 * p.P["sets"]), r.Intn(4)}})
					default:
						p.Faults = append(p.Faults, lab.Fault{K: "short-read", A: []int{nth(), r.Intn([]int{2, 40, 4000}[r.Intn(3)])}})
					}
				}
				if i%5 == 0 { // short reads only: everything must still load
					for n := range p.Faults {
						p.Faults[n] = lab.Fault{K: "short-read", A: []int{nth(), r.Intn(400)}}
					}
				}
				return p
			}},
			{Name: "bad-sectors", Quick: 600, Thorough: 40000, Serial: true, Exec: c09Load, Gen: func(r *rand.Rand, i int) *lab.Plan {
				p := base(r)
				p.P["rewritten"] = 0
				for n := 1 + r.Intn(3); n > 0; n-- {
					set, k := r.Intn(p.P["sets"]), r.Intn(3)
					if r.Intn(3) > 0 {
						p.Faults = append(p.Faults, lab.Fault{K: []string{"append", "append", "truncate", "digit", "duplicate-block"}[r.Intn(5)], A: []int{set, k, r.Intn(1 << 20), r.Intn(64)}})
					}
					p.Faults = append(p.Faults, lab.Fault{K: "bad-sector", A: []int{set, k, r.Intn(1 << 20), r.Intn(4)}})
				}
				return p
			}},
			{Name: "intact", Quick: 300, Thorough: 20000, Serial: true, Exec: c09Load, Gen: func(r *rand.Rand, i int) *lab.Plan {
				p := base(r)
				if i%10 == 3 {
					p.P["pad"] = 1 << (10 + r.Intn(13))
				}
				return p
			}},
		},
	}
}
