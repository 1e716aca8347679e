// Package br converts between the reference model's messages and the types of the code under test.
package br

import (
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"path/filepath"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark/frontend"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
	"github.com/succinctlabs/gnark-plonky2-verifier/plonk/gates"
	"github.com/succinctlabs/gnark-plonky2-verifier/poseidon"
	"github.com/succinctlabs/gnark-plonky2-verifier/types"
	"github.com/succinctlabs/gnark-plonky2-verifier/variables"

	"verif/sim/ref"
)

func u(x int) uint64 { return uint64(x) }

// Common builds the verifier's circuit description.
func Common(c *ref.Common) types.CommonCircuitData {
	fc := types.FriConfig{RateBits: u(c.RateBits), CapHeight: ref.CapHeight, ProofOfWorkBits: u(c.PowBits), NumQueryRounds: u(c.Queries)}
	var d types.CommonCircuitData
	d.Config = types.CircuitConfig{NumWires: u(c.NumWires), NumRoutedWires: u(c.Routed), NumConstants: u(c.NumConsts - c.NumSel()),
		UseBaseArithmeticGate: true, SecurityBits: 100, NumChallenges: u(c.NumChal), MaxQuotientDegreeFactor: u(c.QDF), FriConfig: fc}
	d.FriParams = types.FriParams{Config: fc, DegreeBits: u(c.D)}
	for i := 0; i < c.Steps; i++ {
		d.FriParams.ReductionArityBits = append(d.FriParams.ReductionArityBits, ref.ArityBits)
	}
	var idx, st, en []uint64
	for i, g := range c.Gates {
		d.GateIds = append(d.GateIds, g.ID())
		idx = append(idx, u(c.SelIdx[i]))
	}
	for _, g := range c.Groups {
		st, en = append(st, u(g[0])), append(en, u(g[1]))
	}
	d.SelectorsInfo = *gates.NewSelectorsInfo(idx, st, en)
	d.DegreeBits = u(c.D)
	d.QuotientDegreeFactor = u(c.QDF)
	d.NumGateConstraints = u(c.NumGateConstraints)
	d.NumConstants = u(c.NumConsts)
	d.NumPublicInputs = u(c.NumPI)
	d.KIs = append([]uint64(nil), c.Ks...)
	d.NumPartialProducts = u(c.NumPP)
	return d
}

// MkVar introduces a value into a circuit.
type MkVar func(fr.Element) frontend.Variable

func QE(mk MkVar, x ref.X) gl.QuadraticExtensionVariable {
	return gl.QuadraticExtensionVariable{gl.NewVariable(mk(x[0])), gl.NewVariable(mk(x[1]))}
}
func QEs(mk MkVar, xs []ref.X) []gl.QuadraticExtensionVariable {
	r := make([]gl.QuadraticExtensionVariable, len(xs))
	for i := range xs {
		r[i] = QE(mk, xs[i])
	}
	return r
}
func Hashes(mk MkVar, hs []ref.H) []poseidon.BN254HashOut {
	r := make([]poseidon.BN254HashOut, len(hs))
	for i := range hs {
		r[i] = mk(hs[i])
	}
	return r
}
func Limbs(mk MkVar, hs []ref.H) []gl.Variable {
	r := make([]gl.Variable, len(hs))
	for i := range hs {
		r[i] = gl.NewVariable(mk(hs[i]))
	}
	return r
}
func Fs(mk MkVar, fs []ref.F) []gl.Variable {
	r := make([]gl.Variable, len(fs))
	for i := range fs {
		r[i] = gl.NewVariable(mk(ref.FtoH(fs[i])))
	}
	return r
}
func E(mk MkVar, e ref.E) gl.QuadraticExtensionVariable { return QE(mk, ref.XofE(e)) }
func Es(mk MkVar, es []ref.E) []gl.QuadraticExtensionVariable {
	return QEs(mk, ref.XsOf(es))
}

func Openings(mk MkVar, o *ref.Openings) variables.OpeningSet {
	return variables.OpeningSet{Constants: QEs(mk, o.Constants), PlonkSigmas: QEs(mk, o.Sigmas), Wires: QEs(mk, o.Wires),
		PlonkZs: QEs(mk, o.Zs), PlonkZsNext: QEs(mk, o.ZsNext), PartialProducts: QEs(mk, o.PPs), QuotientPolys: QEs(mk, o.Quot)}
}
func Fri(mk MkVar, f *ref.FriProof) variables.FriProof {
	var p variables.FriProof
	for _, c := range f.Caps {
		p.CommitPhaseMerkleCaps = append(p.CommitPhaseMerkleCaps, Hashes(mk, c))
	}
	for _, q := range f.Queries {
		var r variables.FriQueryRound
		for _, l := range q.Init {
			r.InitialTreesProof.EvalsProofs = append(r.InitialTreesProof.EvalsProofs,
				variables.FriEvalProof{Elements: Limbs(mk, l.Leaf), MerkleProof: variables.FriMerkleProof{Siblings: Hashes(mk, l.Sib)}})
		}
		for _, s := range q.Steps {
			r.Steps = append(r.Steps, variables.FriQueryStep{Evals: QEs(mk, s.Evals), MerkleProof: variables.FriMerkleProof{Siblings: Hashes(mk, s.Sib)}})
		}
		p.QueryRoundProofs = append(p.QueryRoundProofs, r)
	}
	p.FinalPoly.Coeffs = QEs(mk, f.Final)
	p.PowWitness = gl.NewVariable(mk(f.Pow))
	return p
}
func Proof(mk MkVar, p *ref.Proof) variables.Proof {
	return variables.Proof{WiresCap: Hashes(mk, p.WiresCap), PlonkZsPartialProductsCap: Hashes(mk, p.ZsCap), QuotientPolysCap: Hashes(mk, p.QuotCap),
		Openings: Openings(mk, &p.Op), OpeningProof: Fri(mk, &p.Fri)}
}
func VData(mk MkVar, v *ref.VData) variables.VerifierOnlyCircuitData {
	return variables.VerifierOnlyCircuitData{ConstantSigmasCap: Hashes(mk, v.Cap), CircuitDigest: mk(v.Digest)}
}
func FriChallenges(mk MkVar, ch *ref.Challenges) variables.FriChallenges {
	return variables.FriChallenges{FriAlpha: E(mk, ch.FriAlpha), FriBetas: Es(mk, ch.FriBetas), FriPowResponse: gl.NewVariable(mk(ref.FtoH(ch.PowResp))), FriQueryIndices: Fs(mk, ch.Indices)}
}
func Challenges(mk MkVar, ch *ref.Challenges) variables.ProofChallenges {
	return variables.ProofChallenges{PlonkBetas: Fs(mk, ch.Betas), PlonkGammas: Fs(mk, ch.Gammas), PlonkAlphas: Fs(mk, ch.Alphas), PlonkZeta: E(mk, ch.Zeta), FriChallenges: FriChallenges(mk, ch)}
}

// ---- artifact files ----

type jm = map[string]any

func strs(hs []ref.H) []string {
	r := make([]string, len(hs))
	for i := range hs {
		r[i] = dec(hs[i])
	}
	return r
}
func dec(h ref.H) string {
	var b big.Int
	h.BigInt(&b)
	return b.String()
}
func pairs(xs []ref.X) [][]uint64 {
	r := make([][]uint64, len(xs))
	for i := range xs {
		r[i] = []uint64{xs[i][0].Uint64(), xs[i][1].Uint64()}
	}
	return r
}
func us(hs []ref.H) []uint64 {
	r := make([]uint64, len(hs))
	for i := range hs {
		r[i] = hs[i].Uint64()
	}
	return r
}

// JSON renders the three artifacts of a session in plonky2's format.
func JSON(c *ref.Common, m *ref.Msg) (common, vonly, proof []byte) {
	fc := jm{"rate_bits": c.RateBits, "cap_height": ref.CapHeight, "proof_of_work_bits": c.PowBits, "reduction_strategy": jm{"ConstantArityBits": []int{4, 5}}, "num_query_rounds": c.Queries}
	ab := make([]int, c.Steps)
	for i := range ab {
		ab[i] = ref.ArityBits
	}
	var ids []string
	for _, g := range c.Gates {
		ids = append(ids, g.ID())
	}
	var gr []jm
	for _, g := range c.Groups {
		gr = append(gr, jm{"start": g[0], "end": g[1]})
	}
	cd := jm{"config": jm{"num_wires": c.NumWires, "num_routed_wires": c.Routed, "num_constants": c.NumConsts - c.NumSel(), "use_base_arithmetic_gate": true,
		"security_bits": 100, "num_challenges": c.NumChal, "zero_knowledge": false, "max_quotient_degree_factor": c.QDF, "fri_config": fc},
		"fri_params":             jm{"config": fc, "hiding": false, "degree_bits": c.D, "reduction_arity_bits": ab},
		"gates":                  ids,
		"selectors_info":         jm{"selector_indices": c.SelIdx, "groups": gr},
		"quotient_degree_factor": c.QDF, "num_gate_constraints": c.NumGateConstraints, "num_constants": c.NumConsts,
		"num_public_inputs": c.NumPI, "k_is": c.Ks, "num_partial_products": c.NumPP}
	vd := jm{"constants_sigmas_cap": strs(m.VD.Cap), "circuit_digest": dec(m.VD.Digest)}
	o := &m.Proof.Op
	f := &m.Proof.Fri
	caps := make([][]string, 0)
	for _, k := range f.Caps {
		caps = append(caps, strs(k))
	}
	qs := make([]jm, 0)
	for _, q := range f.Queries {
		ev := make([][]any, 0)
		for _, l := range q.Init {
			ev = append(ev, []any{us(l.Leaf), jm{"siblings": strs(l.Sib)}})
		}
		st := make([]jm, 0)
		for _, s := range q.Steps {
			st = append(st, jm{"evals": pairs(s.Evals), "merkle_proof": jm{"siblings": strs(s.Sib)}})
		}
		qs = append(qs, jm{"initial_trees_proof": jm{"evals_proofs": ev}, "steps": st})
	}
	pis := append([]uint64{}, m.PIs...)
	pr := jm{"proof": jm{"wires_cap": strs(m.Proof.WiresCap), "plonk_zs_partial_products_cap": strs(m.Proof.ZsCap), "quotient_polys_cap": strs(m.Proof.QuotCap),
		"openings": jm{"constants": pairs(o.Constants), "plonk_sigmas": pairs(o.Sigmas), "wires": pairs(o.Wires), "plonk_zs": pairs(o.Zs), "plonk_zs_next": pairs(o.ZsNext),
			"partial_products": pairs(o.PPs), "quotient_polys": pairs(o.Quot)},
		"opening_proof": jm{"commit_phase_merkle_caps": caps, "query_round_proofs": qs, "final_poly": jm{"coeffs": pairs(f.Final)}, "pow_witness": f.Pow.Uint64()}},
		"public_inputs": pis}
	enc := func(v any) []byte {
		b, err := json.Marshal(v)
		if err != nil {
			panic(err)
		}
		return b
	}
	return enc(cd), enc(vd), enc(pr)
}

// Load reads a recorded session with an independent decoder.
func Load(dir string) (*ref.Common, *ref.Msg, error) {
	rd := func(n string, v any) error {
		b, err := os.ReadFile(filepath.Join(dir, n))
		if err != nil {
			return err
		}
		return json.Unmarshal(b, v)
	}
	var cj struct {
		Config struct {
			NumWires      int `json:"num_wires"`
			Routed        int `json:"num_routed_wires"`
			NumChallenges int `json:"num_challenges"`
			FriConfig     struct {
				RateBits int `json:"rate_bits"`
				Pow      int `json:"proof_of_work_bits"`
				Queries  int `json:"num_query_rounds"`
			} `json:"fri_config"`
		}
		FriParams struct {
			DegreeBits int   `json:"degree_bits"`
			Arity      []int `json:"reduction_arity_bits"`
		} `json:"fri_params"`
		Gates []string
		Sel   struct {
			Idx    []int `json:"selector_indices"`
			Groups []struct{ Start, End int }
		} `json:"selectors_info"`
		QDF       int      `json:"quotient_degree_factor"`
		NumGC     int      `json:"num_gate_constraints"`
		NumConsts int      `json:"num_constants"`
		NumPI     int      `json:"num_public_inputs"`
		Ks        []uint64 `json:"k_is"`
		NumPP     int      `json:"num_partial_products"`
	}
	if err := rd("common_circuit_data.json", &cj); err != nil {
		return nil, nil, err
	}
	c := &ref.Common{D: cj.FriParams.DegreeBits, RateBits: cj.Config.FriConfig.RateBits, PowBits: cj.Config.FriConfig.Pow, Queries: cj.Config.FriConfig.Queries,
		Steps: len(cj.FriParams.Arity), NumWires: cj.Config.NumWires, Routed: cj.Config.Routed, NumConsts: cj.NumConsts, NumChal: cj.Config.NumChallenges,
		QDF: cj.QDF, NumPP: cj.NumPP, SelIdx: cj.Sel.Idx, NumGateConstraints: cj.NumGC, NumPI: cj.NumPI, Ks: cj.Ks}
	for _, g := range cj.Sel.Groups {
		c.Groups = append(c.Groups, [2]int{g.Start, g.End})
	}
	for _, id := range cj.Gates {
		g, err := ref.ParseGate(id)
		if err != nil {
			return nil, nil, err
		}
		c.Gates = append(c.Gates, g)
	}
	var vj struct {
		Cap    []string `json:"constants_sigmas_cap"`
		Digest string   `json:"circuit_digest"`
	}
	if err := rd("verifier_only_circuit_data.json", &vj); err != nil {
		return nil, nil, err
	}
	var pj map[string]any
	b, err := os.ReadFile(filepath.Join(dir, "proof_with_public_inputs.json"))
	if err != nil {
		return nil, nil, err
	}
	m, err := DecodeProof(b)
	if err != nil {
		return nil, nil, err
	}
	_ = pj
	m.VD.Cap = hs(vj.Cap)
	m.VD.Digest = h1(vj.Digest)
	return c, m, nil
}

func h1(s string) (h ref.H) {
	b, ok := new(big.Int).SetString(s, 10)
	if !ok {
		panic("bad decimal " + s)
	}
	h.SetBigInt(b)
	return
}
func hs(ss []string) []ref.H {
	r := make([]ref.H, len(ss))
	for i := range ss {
		r[i] = h1(ss[i])
	}
	return r
}

// DecodeProof is an independent decoder for proof_with_public_inputs.json.
func DecodeProof(b []byte) (m *ref.Msg, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%v", r)
		}
	}()
	type P2 [2]uint64
	var j struct {
		Proof struct {
			W  []string `json:"wires_cap"`
			Z  []string `json:"plonk_zs_partial_products_cap"`
			Q  []string `json:"quotient_polys_cap"`
			Op struct {
				C  []P2 `json:"constants"`
				S  []P2 `json:"plonk_sigmas"`
				W  []P2 `json:"wires"`
				Z  []P2 `json:"plonk_zs"`
				ZN []P2 `json:"plonk_zs_next"`
				PP []P2 `json:"partial_products"`
				Q  []P2 `json:"quotient_polys"`
			} `json:"openings"`
			F struct {
				Caps [][]string `json:"commit_phase_merkle_caps"`
				Qs   []struct {
					I struct {
						E [][2]json.RawMessage `json:"evals_proofs"`
					} `json:"initial_trees_proof"`
					S []struct {
						E []P2 `json:"evals"`
						M struct {
							S []string `json:"siblings"`
						} `json:"merkle_proof"`
					} `json:"steps"`
				} `json:"query_round_proofs"`
				Final struct {
					C []P2 `json:"coeffs"`
				} `json:"final_poly"`
				Pow uint64 `json:"pow_witness"`
			} `json:"opening_proof"`
		} `json:"proof"`
		PIs []uint64 `json:"public_inputs"`
	}
	if err := json.Unmarshal(b, &j); err != nil {
		return nil, err
	}
	xs := func(p []P2) []ref.X {
		r := make([]ref.X, len(p))
		for i := range p {
			r[i] = ref.X{raw(p[i][0]), raw(p[i][1])}
		}
		return r
	}
	m = &ref.Msg{PIs: j.PIs}
	p := &m.Proof
	p.WiresCap, p.ZsCap, p.QuotCap = hs(j.Proof.W), hs(j.Proof.Z), hs(j.Proof.Q)
	o := j.Proof.Op
	p.Op = ref.Openings{Constants: xs(o.C), Sigmas: xs(o.S), Wires: xs(o.W), Zs: xs(o.Z), ZsNext: xs(o.ZN), PPs: xs(o.PP), Quot: xs(o.Q)}
	for _, c := range j.Proof.F.Caps {
		p.Fri.Caps = append(p.Fri.Caps, hs(c))
	}
	for _, q := range j.Proof.F.Qs {
		var rq ref.Query
		for _, e := range q.I.E {
			var leaf []uint64
			var sib struct {
				S []string `json:"siblings"`
			}
			if err := json.Unmarshal(e[0], &leaf); err != nil {
				return nil, err
			}
			if err := json.Unmarshal(e[1], &sib); err != nil {
				return nil, err
			}
			l := make([]ref.H, len(leaf))
			for i := range leaf {
				l[i] = raw(leaf[i])
			}
			rq.Init = append(rq.Init, ref.LeafProof{Leaf: l, Sib: hs(sib.S)})
		}
		for _, s := range q.S {
			rq.Steps = append(rq.Steps, ref.StepProof{Evals: xs(s.E), Sib: hs(s.M.S)})
		}
		p.Fri.Queries = append(p.Fri.Queries, rq)
	}
	p.Fri.Final = xs(j.Proof.F.Final.C)
	p.Fri.Pow = raw(j.Proof.F.Pow)
	return m, nil
}
func raw(x uint64) (h ref.H) { h.SetUint64(x); return }

// Wrap turns circuit variables into Goldilocks variables.
func Wrap(xs []frontend.Variable) []gl.Variable {
	r := make([]gl.Variable, len(xs))
	for i := range xs {
		r[i] = gl.NewVariable(xs[i])
	}
	return r
}
