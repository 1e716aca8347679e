// Package lab is the seeded search driver: it generates plans from seeds, executes them in the
// simulated worlds, minimises failures and writes replay and evidence files.
package lab

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Fault is one injected fault or one scheduling decision of a plan.
type Fault struct {
	K string `json:"k"`
	A []int  `json:"a,omitempty"`
	S string `json:"s,omitempty"`
}

func (f Fault) String() string { return fmt.Sprintf("%s%v%s", f.K, f.A, f.S) }

// Plan is one simulated run: seed, parameters and fault trace determine it completely.
type Plan struct {
	Prop   string         `json:"property"`
	World  string         `json:"world"`
	Seed   int64          `json:"seed"`
	P      map[string]int `json:"params,omitempty"`
	Faults []Fault        `json:"faults"`
}

func (p *Plan) Clone() *Plan {
	q := *p
	q.P = map[string]int{}
	for k, v := range p.P {
		q.P[k] = v
	}
	q.Faults = append([]Fault(nil), p.Faults...)
	return &q
}

// Result of one simulated run.
type Result struct {
	Viol   string // the property was violated
	Err    string // the simulator could not judge this run
	Sig    string // what made the run distinct; empty: trivial
	Note   string
	Fired  map[string]int
	Steps  int64
	Digest uint64
	Subs   int // further evaluations inside this run
}

// World is one family of simulated runs.
type World struct {
	Name            string
	Quick, Thorough int
	Gen             func(r *rand.Rand, i int) *Plan
	Exec            func(p *Plan) *Result
	Shrink          func(p *Plan) []*Plan
	Serial          bool // one at a time, before everything else
	Weight          int  // memory weight: runs of this world executing at once (0: no limit)
	NoRerun         bool // too slow to run twice for the repeatability sample
}

// Check decides one property.
type Check struct {
	Prop        string
	Level       string
	Rule        string
	Measure     string
	Real, Stub  []string
	Assumptions []string
	Worlds      []World
}

func seedFor(base int64, parts ...string) int64 {
	h := sha256.Sum256([]byte(fmt.Sprint(base, strings.Join(parts, "/"))))
	return int64(binary.LittleEndian.Uint64(h[:8]) >> 1)
}

// Rng is the random stream of a plan, split by purpose.
func Rng(seed int64, purpose string) *rand.Rand {
	return rand.New(rand.NewSource(seedFor(seed, purpose)))
}

func Hash(parts ...any) string {
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	return strconv.FormatUint(h.Sum64(), 16)
}

// Out is where reports go; the code under test writes to os.Stdout, which is discarded.
var Out = os.Stdout

type job struct {
	w *World
	p *Plan
	i int
}

func safeExec(w *World, p *Plan) (r *Result) {
	defer func() {
		if e := recover(); e != nil {
			buf := make([]byte, 8192)
			n := runtime.Stack(buf, false)
			r = &Result{Err: fmt.Sprintf("simulator panic: %v\n%s", e, buf[:n])}
		}
	}()
	return w.Exec(p)
}

// Root is /verif.
func Root() string {
	if d := os.Getenv("VERIF_ROOT"); d != "" {
		return d
	}
	return "/verif"
}

type sample struct {
	World  string  `json:"world"`
	Seed   int64   `json:"seed"`
	Params any     `json:"params,omitempty"`
	Faults []Fault `json:"faults"`
	Note   string  `json:"outcome"`
}

// Run searches for a violation. It returns the process exit code.
func Run(c *Check, tier string, seed int64, workers int, budget time.Duration) int {
	t0 := time.Now()
	deadline := t0.Add(budget)
	var jobs, serial []job
	nw := len(c.Worlds)
	counts := make([]int, nw)
	for i := range c.Worlds {
		counts[i] = c.Worlds[i].Quick
		if tier == "thorough" {
			counts[i] = c.Worlds[i].Thorough
		}
	}
	only := os.Getenv("VERIF_WORLD")
	mk := func(w *World, i int) *Plan {
		ps := seedFor(seed, c.Prop, w.Name, strconv.Itoa(i))
		p := w.Gen(rand.New(rand.NewSource(ps)), i)
		if p == nil {
			return nil
		}
		p.Prop, p.World = c.Prop, w.Name
		if p.Seed == 0 {
			p.Seed = ps
		}
		return p
	}
	// interleave worlds proportionally so that a budget cut hits all of them alike
	type slot struct {
		pos float64
		w   int
		i   int
	}
	var slots []slot
	for wi := range c.Worlds {
		if only != "" && only != c.Worlds[wi].Name {
			continue
		}
		for i := 0; i < counts[wi]; i++ {
			slots = append(slots, slot{(float64(i) + 0.5) / float64(counts[wi]), wi, i})
		}
	}
	sort.SliceStable(slots, func(a, b int) bool { return slots[a].pos < slots[b].pos })
	for _, s := range slots {
		w := &c.Worlds[s.w]
		j := job{w: w, i: s.i}
		if w.Serial {
			serial = append(serial, j)
		} else {
			jobs = append(jobs, j)
		}
	}
	var mu sync.Mutex
	next := 0
	stop := false
	runs, subs, errs, reruns, mismatches, skipped := 0, 0, 0, 0, 0, 0
	var steps int64
	sigs := map[string]bool{}
	fired := map[string]int{}
	perWorld := map[string]int{}
	notes := map[string]int{}
	var firstErr string
	var samples []sample
	var bad *Plan
	var badRes *Result
	var badW *World
	sems := map[string]chan struct{}{}
	for i := range c.Worlds {
		if n := c.Worlds[i].Weight; n > 0 {
			sems[c.Worlds[i].Name] = make(chan struct{}, n)
		}
	}
	one := func(j job) {
		p := mk(j.w, j.i)
		if p == nil {
			return
		}
		if s := sems[j.w.Name]; s != nil {
			s <- struct{}{}
			defer func() { <-s }()
		}
		r := safeExec(j.w, p)
		var again *Result
		if r.Viol == "" && r.Err == "" && j.i%29 == 7 && !j.w.NoRerun {
			again = safeExec(j.w, p)
		}
		mu.Lock()
		defer mu.Unlock()
		runs++
		subs += r.Subs
		steps += r.Steps
		perWorld[j.w.Name]++
		if again != nil {
			reruns++
			if again.Digest != r.Digest || again.Note != r.Note || again.Viol != r.Viol {
				mismatches++
			}
		}
		if r.Sig != "" {
			sigs[j.w.Name+":"+r.Sig] = true
		}
		for k, v := range r.Fired {
			fired[k] += v
		}
		nt := r.Note
		if len(nt) > 60 {
			nt = nt[:60]
		}
		notes[j.w.Name+": "+nt]++
		if r.Err != "" {
			errs++
			if firstErr == "" {
				b, _ := json.Marshal(p)
				firstErr = r.Err + "\n" + string(b)
			}
		}
		if perWorld[j.w.Name] <= 2 {
			samples = append(samples, sample{j.w.Name, p.Seed, p.P, p.Faults, r.Note})
		}
		if r.Viol != "" && bad == nil {
			bad, badRes, badW = p, r, j.w
			stop = true
		}
	}
	for _, j := range serial {
		if stop || time.Now().After(deadline) {
			skipped++
			continue
		}
		one(j)
	}
	var wg sync.WaitGroup
	for k := 0; k < workers; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				if stop || next >= len(jobs) || time.Now().After(deadline) {
					mu.Unlock()
					return
				}
				j := jobs[next]
				next++
				mu.Unlock()
				one(j)
			}
		}()
	}
	wg.Wait()
	skipped += len(jobs) - next
	code := 0
	viol := 0
	if bad != nil {
		viol = 1
		code = 1
		p, r, tried := Minimise(badW, bad, badRes, time.Now().Add(90*time.Second))
		path := writeReplay(c, p, r, bad, tried)
		fmt.Fprintf(Out, "violation: %s\n", r.Viol)
		fmt.Fprintf(Out, "world=%s seed=%d faults=%v (minimised from %d, %d attempts)\n", p.World, p.Seed, p.Faults, len(bad.Faults), tried)
		fmt.Fprintf(Out, "VIOLATION property=%s replay=%s\n", c.Prop, path)
	} else if errs > 0 {
		code = 2
		fmt.Fprintf(Out, "check error (%d runs could not be judged): %s\n", errs, firstErr)
	}
	wall := time.Since(t0).Seconds()
	cov := map[string]any{
		"evaluations":                   runs + subs,
		"simulated_runs":                runs,
		"distinct_nontrivial":           len(sigs),
		"rule":                          c.Rule,
		"distinctness_measure":          c.Measure,
		"samples":                       samples,
		"faults_injected":               fired,
		"runs_per_world":                perWorld,
		"simulated_steps":               steps,
		"runs_per_hour":                 int(float64(runs) / wall * 3600),
		"seeds_per_hour":                int(float64(runs) / wall * 3600),
		"repeatability":                 map[string]int{"runs_repeated": reruns, "differences": mismatches},
		"components_real":               c.Real,
		"components_stubbed":            c.Stub,
		"runs_skipped_for_time":         skipped,
		"runs_not_judged":               errs,
		"exhaustive":                    false,
		"outcomes":                      top(notes, 40),
		"simulated_time":                "the system has no clock on the verified path; time is counted in simulated_steps (builder operations, scheduler steps or I/O operations)",
		"minimised_replay_on_violation": true,
	}
	ev := map[string]any{"property": c.Prop, "tier": tier, "seed": seed, "level": c.Level, "coverage": cov, "wall_s": wall, "violations": viol, "assumptions": c.Assumptions}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(Root(), "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(Root(), "evidence", c.Prop+".json"), b, 0o644); err != nil {
		fmt.Fprintln(Out, "cannot write evidence:", err)
		return 3
	}
	fmt.Fprintf(Out, "%s %s: %d runs, %d evaluations, %d distinct, %d steps, %.1fs, %d violations, %d skipped\n", c.Prop, tier, runs, runs+subs, len(sigs), steps, wall, viol, skipped)
	if mismatches > 0 {
		fmt.Fprintf(Out, "note: %d of %d repeated runs differed\n", mismatches, reruns)
	}
	return code
}

func top(m map[string]int, n int) map[string]int {
	if len(m) <= n {
		return m
	}
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return m[ks[i]] > m[ks[j]] || m[ks[i]] == m[ks[j]] && ks[i] < ks[j] })
	o := map[string]int{}
	for _, k := range ks[:n] {
		o[k] = m[k]
	}
	return o
}

// Minimise drops faults and applies the world's own simplifications while the violation persists.
func Minimise(w *World, p *Plan, r *Result, until time.Time) (*Plan, *Result, int) {
	tried := 0
	cur, res := p, r
	for changed := true; changed; {
		changed = false
		var cand []*Plan
		n := len(cur.Faults)
		for size := n / 2; size >= 1; size /= 2 {
			for s := 0; s+size <= n; s += size {
				q := cur.Clone()
				q.Faults = append(append([]Fault(nil), cur.Faults[:s]...), cur.Faults[s+size:]...)
				cand = append(cand, q)
			}
		}
		if w.Shrink != nil {
			cand = append(cand, w.Shrink(cur)...)
		}
		for _, q := range cand {
			if time.Now().After(until) {
				return cur, res, tried
			}
			tried++
			x := safeExec(w, q)
			if x.Viol != "" {
				cur, res, changed = q, x, true
				break
			}
		}
	}
	return cur, res, tried
}

type replayFile struct {
	Plan      *Plan  `json:"plan"`
	Violation string `json:"violation"`
	Original  *Plan  `json:"found_as"`
	Attempts  int    `json:"minimisation_attempts"`
	Command   string `json:"replay_command"`
}

func writeReplay(c *Check, p *Plan, r *Result, orig *Plan, tried int) string {
	dir := filepath.Join(Root(), "replays")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, c.Prop+"-"+p.World+"-"+Hash(p.Seed, p.P, p.Faults)+".json")
	b, _ := json.MarshalIndent(replayFile{p, r.Viol, orig, tried, "bash /verif/check.sh replay " + path}, "", " ")
	os.WriteFile(path, b, 0o644)
	return path
}

// Replay re-executes a replay file and reports whether it reproduces exactly.
func Replay(checks []*Check, path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(Out, err)
		return 2
	}
	var f replayFile
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Fprintln(Out, err)
		return 2
	}
	for _, c := range checks {
		if c.Prop != f.Plan.Prop {
			continue
		}
		for i := range c.Worlds {
			w := &c.Worlds[i]
			if w.Name != f.Plan.World {
				continue
			}
			r := safeExec(w, f.Plan)
			if r.Viol == "" {
				fmt.Fprintf(Out, "not reproduced: %s %s\n", r.Note, r.Err)
				return 0
			}
			fmt.Fprintln(Out, "violation:", r.Viol)
			if r.Viol == f.Violation {
				fmt.Fprintln(Out, "reproduced exactly")
			} else {
				fmt.Fprintln(Out, "reproduced, but recorded as:", f.Violation)
			}
			fmt.Fprintf(Out, "VIOLATION property=%s replay=%s\n", c.Prop, path)
			return 1
		}
	}
	fmt.Fprintln(Out, "unknown property or world in replay file")
	return 2
}
