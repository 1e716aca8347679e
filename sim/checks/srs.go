//go:build simos

package checks

import (
	"bytes"
	crand "crypto/rand"
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log"
	"math/big"
	"math/rand"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"strings"
	"sync"
	_ "unsafe"

	"github.com/consensys/gnark-crypto/ecc/bn254"
	"github.com/consensys/gnark-crypto/ecc/bn254/fp"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	kzg_bn254 "github.com/consensys/gnark-crypto/ecc/bn254/kzg"
	_ "github.com/consensys/gnark-ignition-verifier/ignition"
	"golang.org/x/crypto/blake2b"

	"github.com/succinctlabs/gnark-plonky2-verifier/trusted_setup"

	"verif/sim/lab"
	"verif/sim/simdisk"
)

// State of the ignition library that a new process starts without.
//
//go:linkname ignitionOnce github.com/consensys/gnark-ignition-verifier/ignition.initROnce
var ignitionOnce sync.Once

// ---- the simulated ceremony ---------------------------------------------------------------------

// blob is what the reference model knows about one transcript file: discrete logarithms.
type blob struct {
	first   bool
	start   int
	logs    []fr.Element // of the G1 points
	g2      [2]fr.Element
	total   int
	invalid bool // not a transcript an honest tool could produce
}

type participant struct {
	Address  string `json:"address"`
	Position int    `json:"position"`
}

type manifest struct {
	N            int           `json:"numG1Points"`
	Participants []participant `json:"participants"`
}

type ceremony struct {
	files map[string][]byte // by URL path below the ceremony
	known map[string]*blob  // by content hash
	parts []participant
	taus  []fr.Element
}

func key(b []byte) string { h := sha256.Sum256(b); return string(h[:]) }

func word(out *bytes.Buffer, e fp.Element) {
	b := e.Bytes() // big endian
	for i := 3; i >= 0; i-- {
		out.Write(b[8*i : 8*i+8])
	}
}

func transcript(n, num, total int, bl *blob, pts []bn254.G1Affine) []byte {
	var out bytes.Buffer
	ng2 := 0
	if bl.first {
		ng2 = 2
	}
	for _, x := range []int{num, total, n, 2, len(bl.logs), ng2, bl.start} {
		binary.Write(&out, binary.BigEndian, uint32(x))
	}
	for _, p := range pts {
		word(&out, p.X)
		word(&out, p.Y)
	}
	if bl.first {
		for _, s := range bl.g2 {
			p := g2mul(s)
			for _, e := range []fp.Element{p.X.A0, p.X.A1, p.Y.A0, p.Y.A1} {
				word(&out, e)
			}
		}
	}
	sum := blake2b.Sum512(out.Bytes())
	out.Write(sum[:])
	return out.Bytes()
}

func g1mul(s fr.Element) (p bn254.G1Affine) {
	_, _, g, _ := bn254.Generators()
	var b big.Int
	s.BigInt(&b)
	p.ScalarMultiplication(&g, &b)
	return
}
func g2mul(s fr.Element) (p bn254.G2Affine) {
	_, _, _, g := bn254.Generators()
	var b big.Int
	s.BigInt(&b)
	p.ScalarMultiplication(&g, &b)
	return
}

func rfr(r *rand.Rand) (e fr.Element) {
	e.SetBigInt(new(big.Int).Rand(r, fr.Modulus()))
	return
}

// Forgeries a participant may commit.
var forgeries = []string{"fork", "replay", "skip-link", "bad-power", "off-curve", "wrong-g2", "wrong-s", "bad-header-count"}

type cerKey struct {
	seed         int64
	parts, n, tr int
	forge        string // kind at index, e.g. "fork@2"
}

var (
	cerMu    sync.Mutex
	cerCache = map[cerKey]*ceremony{}
)

func newCeremony(k cerKey) *ceremony {
	cerMu.Lock()
	defer cerMu.Unlock()
	if c := cerCache[k]; c != nil {
		return c
	}
	if len(cerCache) > 400 {
		cerCache = map[cerKey]*ceremony{}
	}
	c := makeCeremony(k)
	cerCache[k] = c
	return c
}

func makeCeremony(k cerKey) *ceremony {
	r := lab.Rng(k.seed, "ceremony")
	kind, at := "", -1
	if k.forge != "" {
		i := strings.IndexByte(k.forge, '@')
		kind = k.forge[:i]
		fmt.Sscan(k.forge[i+1:], &at)
	}
	c := &ceremony{files: map[string][]byte{}, known: map[string]*blob{}}
	var tau fr.Element
	tau.SetOne()
	for i := 0; i < k.parts; i++ {
		var a [20]byte
		r.Read(a[:])
		addr := fmt.Sprintf("%x", a)
		if i%2 == 0 {
			addr = strings.ToUpper(addr)
		}
		c.parts = append(c.parts, participant{"0x" + addr, i + 1})
		s := rfr(r)
		if r.Intn(7) == 0 {
			s.SetOne()
		}
		prev := tau
		tau.Mul(&prev, &s)
		g2s := s
		if i == at {
			switch kind {
			case "fork": // builds on something else
				tau = rfr(r)
			case "skip-link": // builds on the last but one contribution
				if i >= 2 {
					tau.Mul(&c.taus[i-2], &s)
				} else {
					tau = s
				}
			case "wrong-s":
				g2s = rfr(r)
			}
		}
		c.taus = append(c.taus, tau)
		logs := make([]fr.Element, k.n)
		logs[0] = tau
		for j := 1; j < k.n; j++ {
			logs[j].Mul(&logs[j-1], &tau)
		}
		g2t := tau
		bad := false
		if i == at {
			switch kind {
			case "bad-power":
				j := r.Intn(k.n)
				if j == 0 && r.Intn(3) > 0 {
					j = k.n - 1
				}
				logs[j] = rfr(r)
			case "wrong-g2":
				g2t = rfr(r)
			case "bad-header-count":
				bad = true
			}
		}
		pts := make([]bn254.G1Affine, k.n)
		for j := range pts {
			pts[j] = g1mul(logs[j])
		}
		if i == at && kind == "off-curve" {
			j := r.Intn(k.n)
			pts[j].Y.Double(&pts[j].Y)
			bad = true
		}
		cut := []int{0}
		for t := 1; t < k.tr; t++ {
			cut = append(cut, t*k.n/k.tr)
		}
		cut = append(cut, k.n)
		for t := 0; t < k.tr; t++ {
			total := k.tr
			if i == at && kind == "bad-header-count" {
				total = []int{k.tr + 1, 31, 1 << 20, k.tr - 1}[r.Intn(4)]
				if total == 0 || k.tr == 1 {
					total = k.tr + 1
				}
			}
			bl := &blob{first: t == 0, start: cut[t], logs: logs[cut[t]:cut[t+1]], total: total, invalid: bad && kind == "off-curve"}
			bl.g2 = [2]fr.Element{g2t, g2s}
			b := transcript(k.n, t, total, bl, pts[cut[t]:cut[t+1]])
			c.known[key(b)] = bl
			c.files[c.url(i, t)] = b
		}
	}
	if kind == "replay" && at > 0 {
		for t := 0; t < k.tr; t++ {
			c.files[c.url(at, t)] = c.files[c.url(at-1, t)]
		}
	}
	m, _ := json.Marshal(map[string]any{"name": "main_50", "numG1Points": k.n, "numG2Points": 1, "pointsPerTranscript": k.n / k.tr, "rangeProofKmax": 1, "network": "mainnet",
		"startTime": "2019-10-25T00:00:00.000Z", "completedAt": "2020-01-02T16:58:20.000Z", "participants": stamped(c.parts), "crs": map[string]any{"h": []string{"0x1", "0x2"}, "t2": []string{"0x3"}}})
	c.files["manifest.json"] = m
	return c
}

func stamped(ps []participant) (out []map[string]any) {
	for _, p := range ps {
		out = append(out, map[string]any{"address": p.Address, "position": p.Position, "startedAt": "2019-10-25T00:00:00.000Z", "completedAt": "2019-10-25T01:00:00.000Z"})
	}
	return
}

func (p participant) file(t int) string {
	return fmt.Sprintf("%03d_%s/transcript%02d.dat", p.Position, strings.ToLower(p.Address), t)
}
func (c *ceremony) url(i, t int) string { return c.parts[i].file(t) }

// ---- the simulated network ----------------------------------------------------------------------

type network struct {
	c      *ceremony
	faults []lab.Fault
	n      int
	last   map[string][]byte // what was delivered last, completely, by file
	Fired  map[string]int
	asked  []string
}

func (w *network) RoundTrip(q *http.Request) (*http.Response, error) {
	path := strings.TrimPrefix(q.URL.Path, "/MAIN IGNITION/")
	if u, err := url.PathUnescape(path); err == nil {
		path = u
	}
	i := w.n
	w.n++
	w.asked = append(w.asked, path)
	delete(w.last, path)
	b, ok := w.c.files[path]
	code := 200
	if !ok {
		b, code = []byte("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<Error><Code>NoSuchKey</Code><Message>The specified key does not exist.</Message></Error>"), 404
	}
	var fail error
	for _, f := range w.faults {
		if f.A[0] != i {
			continue
		}
		hit := true
		switch f.K {
		case "connection-refused":
			w.Fired[f.K]++
			return nil, errors.New("dial tcp: connection refused")
		case "http-status":
			code = []int{500, 503, 403, 429, 404}[f.A[1]%5]
			b = []byte("<html><body>" + fmt.Sprint(code) + " try again</body></html>")
			if f.A[1]%3 == 0 {
				b = nil
			}
		case "cut-body":
			b = b[:f.A[1]%(len(b)+1)]
			fail = io.ErrUnexpectedEOF
		case "short-body": // looks complete
			if len(b) > 0 {
				b = b[:f.A[1]%len(b)]
			}
		case "bit-flip":
			if len(b) > 0 {
				b = append([]byte(nil), b...)
				b[f.A[1]%len(b)] ^= 1 << (f.A[2] % 8)
			}
		case "wrong-file": // a stale or misrouted answer
			j := f.A[1] % len(w.c.parts)
			t := f.A[2] % 3
			if x, ok := w.c.files[w.c.url(j, t)]; ok && path != "manifest.json" {
				b = x
			} else {
				hit = false
			}
		case "manifest-edit":
			if path == "manifest.json" {
				b = editManifest(b, f.A[1], f.A[2])
			} else {
				hit = false
			}
		default:
			hit = false
		}
		if hit {
			w.Fired[f.K]++
		}
	}
	if fail == nil {
		w.last[path] = b
	}
	var body io.Reader = bytes.NewReader(b)
	if fail != nil {
		body = io.MultiReader(body, failing{fail})
	}
	return &http.Response{Status: fmt.Sprint(code), StatusCode: code, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Body: io.NopCloser(body), ContentLength: -1, Request: q}, nil
}

type failing struct{ err error }

func (f failing) Read([]byte) (int, error) { return 0, f.err }

func editManifest(b []byte, how, x int) []byte {
	var v map[string]any
	json.Unmarshal(b, &v)
	ps := v["participants"].([]any)
	switch how % 6 {
	case 0: // not all participants yet
		v["participants"] = ps[:len(ps)-1-x%2]
	case 1: // a participant is missing
		i := x % len(ps)
		v["participants"] = append(append([]any{}, ps[:i]...), ps[i+1:]...)
	case 2: // two swapped
		i := x % (len(ps) - 1)
		q := append([]any{}, ps...)
		q[i], q[i+1] = q[i+1], q[i]
		v["participants"] = q
	case 3:
		v["numG1Points"] = int(v["numG1Points"].(float64)) + []int{1, -1, 5, -4}[x%4]
	case 4: // one twice
		i := x % len(ps)
		v["participants"] = append(append(append([]any{}, ps[:i+1]...), ps[i]), ps[i+1:]...)
	case 5:
		v["participants"] = []any{}
	}
	o, _ := json.Marshal(v)
	return o
}

// ---- reference model ----------------------------------------------------------------------------

type contribution struct {
	logs []fr.Element
	g2   [2]fr.Element
}

// assemble is one participant's contribution from the files that reached the downloader.
func (c *ceremony) assemble(files map[string][]byte, p participant, n int) *contribution {
	o := &contribution{logs: make([]fr.Element, n)}
	set := make([]bool, n)
	total := 1
	for t := 0; t < total; t++ {
		b, ok := files[p.file(t)]
		if !ok {
			return nil
		}
		bl := c.known[key(b)]
		if bl == nil || bl.invalid || bl.first != (t == 0) || bl.start+len(bl.logs) > n || bl.total > 30 {
			return nil
		}
		total = bl.total
		for j, x := range bl.logs {
			o.logs[bl.start+j] = x
			set[bl.start+j] = true
		}
		if t == 0 {
			o.g2 = bl.g2
		}
	}
	for j := range set {
		if !set[j] {
			return nil
		}
		if j > 0 {
			var x fr.Element
			if x.Mul(&o.logs[j-1], &o.g2[0]); !x.Equal(&o.logs[j]) {
				return nil
			}
		}
	}
	return o
}

// srsOf is the SRS a downloader may save from these files; nil: it must refuse.
func (c *ceremony) srsOf(files map[string][]byte, start int) *kzg_bn254.SRS {
	var m manifest
	if json.Unmarshal(files["manifest.json"], &m) != nil || start < 0 || start+1 >= len(m.Participants) || m.N < 2 || m.N > 1<<16 {
		return nil
	}
	var prev *contribution
	for i := start; i < len(m.Participants); i++ {
		cur := c.assemble(files, m.Participants[i], m.N)
		if cur == nil {
			return nil
		}
		if prev != nil {
			var x fr.Element
			if x.Mul(&prev.logs[0], &cur.g2[1]); !x.Equal(&cur.logs[0]) {
				return nil
			}
		}
		prev = cur
	}
	s := &kzg_bn254.SRS{}
	for _, l := range prev.logs {
		s.Pk.G1 = append(s.Pk.G1, g1mul(l))
	}
	_, _, _, g2 := bn254.Generators()
	s.Vk.G1 = s.Pk.G1[0]
	s.Vk.G2 = [2]bn254.G2Affine{g2, g2mul(prev.g2[0])}
	return s
}

// isSRS tells whether the file content is exactly this SRS.
func isSRS(b []byte, s *kzg_bn254.SRS) string {
	var g kzg_bn254.SRS
	rd := bytes.NewReader(b)
	n, err := g.ReadFrom(rd)
	if err != nil {
		return "cannot be read back: " + err.Error()
	}
	if n != int64(len(b)) {
		return fmt.Sprintf("has %d bytes after the SRS", int64(len(b))-n)
	}
	if len(g.Pk.G1) != len(s.Pk.G1) {
		return fmt.Sprintf("holds %d points instead of %d", len(g.Pk.G1), len(s.Pk.G1))
	}
	for i := range g.Pk.G1 {
		if !g.Pk.G1[i].Equal(&s.Pk.G1[i]) {
			return fmt.Sprintf("has the wrong G1 point %d", i)
		}
	}
	if !g.Vk.G1.Equal(&s.Vk.G1) || !g.Vk.G2[0].Equal(&s.Vk.G2[0]) || !g.Vk.G2[1].Equal(&s.Vk.G2[1]) {
		return "has the wrong verifying key"
	}
	return ""
}

type seededReader struct{ r *rand.Rand }

func (s seededReader) Read(b []byte) (int, error) { return s.r.Read(b) }

// process runs f as one process on the disk and network: fresh library state, seeded randomness, own directory.
func process(d *simdisk.Disk, w *network, seed int64, purpose string, f func()) (simdisk.End, error) {
	log.SetOutput(io.Discard)
	oldT, oldR := http.DefaultTransport, crand.Reader
	defer func() { http.DefaultTransport, crand.Reader = oldT, oldR }()
	http.DefaultTransport = w
	crand.Reader = seededReader{lab.Rng(seed, purpose)}
	ignitionOnce = sync.Once{}
	wd, err := os.Getwd()
	if err != nil {
		return simdisk.End{}, err
	}
	if err := os.Chdir(d.Dir); err != nil {
		return simdisk.End{}, err
	}
	defer os.Chdir(wd)
	return d.Run(f), nil
}

const srsName = "srs_setup"

func planCeremony(p *lab.Plan) (*ceremony, cerKey) {
	k := cerKey{seed: int64(p.P["ceremony"]), parts: p.P["parts"], n: p.P["points"], tr: p.P["files"]}
	for _, f := range p.Faults {
		for _, x := range forgeries {
			if f.K == x {
				k.forge = fmt.Sprintf("%s@%d", x, f.A[0])
			}
		}
	}
	return newCeremony(k), k
}

// view is what a downloader that reads its cache first gets to see.
func view(dir string, w *network) map[string][]byte {
	files := map[string][]byte{}
	for n, b := range w.last {
		files[n] = b
	}
	return files
}

func cached(dir string) map[string][]byte {
	out := map[string][]byte{}
	pre := "data/MAIN IGNITION/"
	for n, b := range simdisk.Files(dir) {
		if strings.HasPrefix(n, pre) {
			out[strings.TrimPrefix(n, pre)] = b
		}
	}
	return out
}

// c10Chain: one or more downloads over a faulty network.
func c10Chain(p *lab.Plan) *lab.Result {
	c, k := planCeremony(p)
	dir := scratch()
	defer os.RemoveAll(dir)
	res := &lab.Result{Fired: map[string]int{}}
	if k.forge != "" {
		res.Fired[strings.Split(k.forge, "@")[0]]++
	}
	var sum []any
	for round := 0; round < 1+p.P["reruns"]; round++ {
		var fs []lab.Fault
		for _, f := range p.Faults {
			if len(f.A) > 3 && f.A[3] == round || len(f.A) <= 3 && round == 0 {
				fs = append(fs, f)
			}
		}
		before := cached(dir)
		_, had := simdisk.Files(dir)[srsName]
		w := &network{c: c, faults: fs, last: map[string][]byte{}, Fired: res.Fired}
		d := simdisk.New(dir, nil, lab.Rng(p.Seed, "disk"))
		end, err := process(d, w, p.Seed, fmt.Sprint("coins", round), func() {
			trusted_setup.DownloadAndSaveAztecIgnitionSrs(p.P["start"], srsName)
		})
		if err != nil {
			return &lab.Result{Err: err.Error()}
		}
		res.Steps += int64(d.Ops() + w.n)
		seen := map[string][]byte{}
		for n, b := range before {
			seen[n] = b
		}
		for n, b := range w.last {
			seen[n] = b
		}
		for _, n := range w.asked {
			if _, ok := w.last[n]; !ok {
				delete(seen, n)
			}
		}
		want := c.srsOf(seen, p.P["start"])
		b, ok := simdisk.Files(dir)[srsName]
		sum = append(sum, end.Code == 0, ok, w.asked)
		where := fmt.Sprintf("%d participants from %d, %d points, %d files each", k.parts, p.P["start"], k.n, k.tr)
		switch {
		case want == nil && end.Code == 0:
			res.Viol = "the download of an incomplete or unverifiable chain succeeds (" + where + ")"
		case want == nil && ok && !had:
			res.Viol = "an SRS is left behind by an incomplete or unverifiable chain (" + where + ")"
		case end.Code == 0 && !ok:
			res.Viol = "the download succeeds but saves nothing (" + where + ")"
		case want != nil && end.Code == 0:
			if s := isSRS(b, want); s != "" {
				res.Viol = "the saved SRS is not that of the last contribution: it " + s + " (" + where + ")"
			}
		}
		disturbed := len(res.Fired) > 0
		if res.Viol == "" && !disturbed && end.Code != 0 && p.P["start"]+1 < k.parts {
			res.Viol = "an undisturbed download fails: " + clip(strings.ReplaceAll(end.Why, dir, ".")) + " (" + where + ")"
		}
		if res.Viol != "" {
			return res
		}
		res.Note += map[bool]string{true: "saved", false: "refused"}[end.Code == 0] + "; "
		if p.P["keep"] == 0 {
			os.RemoveAll(filepath.Join(dir, "data"))
		}
	}
	res.Sig = lab.Hash(p.P, p.Faults)
	res.Digest = digest(sum...)
	return res
}

func ceremonyPlan(r *rand.Rand) *lab.Plan {
	p := &lab.Plan{P: map[string]int{"ceremony": 1 + r.Intn(6), "parts": 2 + r.Intn(5), "points": 60 + r.Intn(10), "files": 1 + r.Intn(3)}}
	switch r.Intn(30) { // now and then a large one
	case 0, 1:
		p.P["parts"], p.P["ceremony"] = 7+r.Intn(12), 1
	case 2:
		p.P["points"], p.P["ceremony"] = 70+r.Intn(300), 1
	case 3:
		p.P["files"], p.P["parts"], p.P["ceremony"] = 4+r.Intn(16), 2+r.Intn(3), 1
	}
	p.P["start"] = r.Intn(p.P["parts"] - 1)
	return p
}

func C10() *lab.Check {
	netFault := func(r *rand.Rand, p *lab.Plan, round int) lab.Fault {
		n := 1 + (p.P["parts"]-p.P["start"])*p.P["files"]
		nth := r.Intn(n)
		switch r.Intn(8) {
		case 0:
			return lab.Fault{K: "connection-refused", A: []int{nth, 0, 0, round}}
		case 1:
			return lab.Fault{K: "http-status", A: []int{nth, r.Intn(30), 0, round}}
		case 2:
			return lab.Fault{K: "cut-body", A: []int{nth, r.Intn(6000), 0, round}}
		case 3:
			return lab.Fault{K: "short-body", A: []int{nth, r.Intn(6000), 0, round}}
		case 4:
			return lab.Fault{K: "manifest-edit", A: []int{0, r.Intn(6), r.Intn(8), round}}
		case 5, 6:
			return lab.Fault{K: "wrong-file", A: []int{nth, r.Intn(p.P["parts"]), r.Intn(3), round}}
		}
		return lab.Fault{K: "bit-flip", A: []int{nth, r.Intn(1 << 16), r.Intn(8), round}}
	}
	return &lab.Check{
		Prop: "C10", Level: "exploration",
		Rule:        "a run is one ceremony (2 to 18 participants, 60 to 369 points, 1 to 19 files each), a start index, forged contributions and a network fault trace; distinct by all of these",
		Measure:     "distinct (ceremony parameters, fault trace)",
		Real:        []string{"trusted_setup", "gnark-ignition-verifier", "gnark-crypto kzg, pairing", "net/http client above the transport"},
		Stub:        []string{"HTTP transport and server, ceremony participants", "disk and process exit: simdisk", "crypto/rand: seeded"},
		Assumptions: []string{"the reference model decides validity from the discrete logarithms of the generated points", "contributions consisting of points at infinity, which the third-party library accepts, are not generated"},
		Worlds: []lab.World{
			{Name: "network-faults", Quick: 700, Thorough: 40000, Serial: true, Exec: c10Chain, Gen: func(r *rand.Rand, i int) *lab.Plan {
				p := ceremonyPlan(r)
				p.P["reruns"] = r.Intn(3) / 2
				p.P["keep"] = r.Intn(2)
				for n := 1 + r.Intn(2); n > 0; n-- {
					p.Faults = append(p.Faults, netFault(r, p, r.Intn(1+p.P["reruns"])))
				}
				return p
			}},
			{Name: "forgeries", Quick: 500, Thorough: 30000, Serial: true, Exec: c10Chain, Gen: func(r *rand.Rand, i int) *lab.Plan {
				p := ceremonyPlan(r)
				p.P["ceremony"] = 1 + r.Intn(3)
				at := r.Intn(p.P["parts"])
				if r.Intn(3) > 0 { // where it matters
					at = p.P["start"] + r.Intn(p.P["parts"]-p.P["start"])
				}
				p.Faults = append(p.Faults, lab.Fault{K: forgeries[r.Intn(len(forgeries))], A: []int{at}})
				if r.Intn(4) == 0 {
					p.Faults = append(p.Faults, netFault(r, p, 0))
				}
				return p
			}},
			{Name: "undisturbed", Quick: 120, Thorough: 4000, Serial: true, Exec: c10Chain, Gen: func(r *rand.Rand, i int) *lab.Plan {
				p := ceremonyPlan(r)
				p.P["reruns"] = r.Intn(2)
				p.P["keep"] = r.Intn(2)
				if i%12 == 5 {
					p.P["start"] = p.P["parts"] - 1 + r.Intn(2) // out of range
				}
				return p
			}},
		},
	}
}
