//go:build simos

package checks

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"

	"github.com/succinctlabs/gnark-plonky2-verifier/trusted_setup"

	"verif/sim/lab"
	"verif/sim/simdisk"
)

// c11Save: the save under disk faults and crashes, what a power loss leaves of it, and reruns.
func c11Save(p *lab.Plan) *lab.Result {
	c, _ := planCeremony(p)
	dir := scratch()
	defer os.RemoveAll(dir)
	res := &lab.Result{Fired: map[string]int{}}
	want := c.srsOf(c.files, p.P["start"])
	if want == nil {
		return &lab.Result{Err: "the reference model rejects an honest ceremony"}
	}
	path := filepath.Join(dir, srsName)
	var prev []byte
	switch p.P["previous"] {
	case 1: // an older SRS
		o := newCeremony(cerKey{seed: int64(p.P["ceremony"]) + 50, parts: 2, n: p.P["points"], tr: 1})
		var b bytes.Buffer
		o.srsOf(o.files, 0).WriteTo(&b)
		prev = b.Bytes()
	case 2: // the same file, saved before
		var b bytes.Buffer
		want.WriteTo(&b)
		prev = b.Bytes()
	case 3: // a longer one
		o := newCeremony(cerKey{seed: int64(p.P["ceremony"]) + 60, parts: 2, n: p.P["points"] + 20, tr: 1})
		var b bytes.Buffer
		o.srsOf(o.files, 0).WriteTo(&b)
		prev = b.Bytes()
	}
	if prev != nil {
		os.WriteFile(path, prev, 0o644)
	}
	where := fmt.Sprintf("%d points, previous file %v", p.P["points"], []string{"none", "older SRS", "same SRS", "longer SRS"}[p.P["previous"]])
	acceptable := func(when string) string {
		b, err := os.ReadFile(path)
		if err != nil {
			return ""
		}
		if prev != nil && bytes.Equal(b, prev) {
			return ""
		}
		if s := isSRS(b, want); s != "" {
			return fmt.Sprintf("%s, the file under the SRS name is neither absent, nor unchanged, nor complete: it %s (%d bytes; %s)", when, s, len(b), where)
		}
		return ""
	}
	var sum []any
	rounds := p.P["rounds"]
	small := c
	smallWant := want
	for round := 0; round < rounds; round++ {
		var fs []lab.Fault
		for _, f := range p.Faults {
			if f.A[3] == round {
				fs = append(fs, f)
			}
		}
		c, want = small, smallWant
		if p.P["shrinks"] == 1 && round == 0 { // the first process saves a larger SRS
			k := cerKey{seed: int64(p.P["ceremony"]) + 70, parts: 2, n: p.P["points"] + 30, tr: 1}
			c = newCeremony(k)
			want = c.srsOf(c.files, 0)
		}
		w := &network{c: c, last: map[string][]byte{}, Fired: map[string]int{}}
		d := simdisk.New(dir, fs, lab.Rng(p.Seed, fmt.Sprint("disk", round)))
		end, err := process(d, w, p.Seed, fmt.Sprint("coins", round), func() {
			trusted_setup.DownloadAndSaveAztecIgnitionSrs(p.P["start"], srsName)
		})
		if err != nil {
			return &lab.Result{Err: err.Error()}
		}
		for k, v := range d.Fired {
			res.Fired[k] += v
		}
		res.Steps += int64(d.Ops())
		if end.Code == 0 {
			b, err := os.ReadFile(path)
			switch {
			case err != nil:
				res.Viol = "the save succeeds but leaves no file (" + where + ")"
			case d.Bad[srsName] != "":
				res.Viol = fmt.Sprintf("the save succeeds although a %s of the SRS file failed (%s)", d.Bad[srsName], where)
			default:
				if s := isSRS(b, want); s != "" {
					res.Viol = fmt.Sprintf("the save succeeds but the file %s (%s)", s, where)
				}
			}
		} else if res.Viol = acceptable("after " + outcomeOf(end)); res.Viol == "" && len(d.Fired) == 0 && round == 0 {
			res.Viol = "an undisturbed save fails: " + clip(strings.ReplaceAll(end.Why, dir, "."))
		}
		if res.Viol != "" {
			return res
		}
		res.Note += map[bool]string{true: "saved", false: "failed"}[end.Code == 0]
		if end.Crashed {
			res.Note += " by crash"
		}
		sum = append(sum, end.Code == 0, end.Crashed)
		if end.Crashed || p.P["power"]>>round&1 == 1 {
			left := d.PowerLoss()
			res.Fired["power-loss"]++
			res.Note += ", power loss"
			if res.Viol = acceptable("after " + outcomeOf(end) + " and a power loss"); res.Viol != "" {
				return res
			}
			sum = append(sum, left[srsName])
		}
		res.Note += "; "
		if b, err := os.ReadFile(path); err == nil {
			prev = b // what the next process finds
		} else {
			prev = nil
		}
		if p.P["keep"] == 0 || p.P["shrinks"] == 1 || round == rounds-1 {
			os.RemoveAll(filepath.Join(dir, "data"))
		}
	}
	// Faults have stopped: progress.
	c, want = small, smallWant
	w := &network{c: c, last: map[string][]byte{}, Fired: map[string]int{}}
	d := simdisk.New(dir, nil, lab.Rng(p.Seed, "rerun"))
	end, err := process(d, w, p.Seed, "rerun", func() {
		trusted_setup.DownloadAndSaveAztecIgnitionSrs(p.P["start"], srsName)
	})
	if err != nil {
		return &lab.Result{Err: err.Error()}
	}
	res.Steps += int64(d.Ops())
	b, _ := os.ReadFile(path)
	if end.Code != 0 {
		res.Viol = "a rerun without faults fails: " + clip(strings.ReplaceAll(end.Why, dir, ".")) + " (" + where + ")"
	} else if s := isSRS(b, want); s != "" {
		res.Viol = "a rerun without faults leaves a file that " + s + " (" + where + ")"
	}
	res.Sig = lab.Hash(p.P, p.Faults, res.Fired)
	res.Digest = digest(sum...)
	return res
}

func outcomeOf(e simdisk.End) string {
	switch {
	case e.Crashed:
		return "a crash"
	case e.Code == 0:
		return "success"
	}
	return "a reported failure"
}

func C11() *lab.Check {
	gen := func(r *rand.Rand) *lab.Plan {
		return &lab.Plan{P: map[string]int{"ceremony": 1 + r.Intn(4), "parts": 2 + r.Intn(2), "points": []int{60, 64, 400}[r.Intn(3)], "files": 1 + r.Intn(2), "start": 0,
			"previous": r.Intn(4), "rounds": 1 + r.Intn(2), "keep": r.Intn(2), "power": r.Intn(4), "shrinks": r.Intn(2)}}
	}
	where := func(r *rand.Rand) string { return []string{"top", "top", "top", "", "cache"}[r.Intn(5)] }
	return &lab.Check{
		Prop: "C11", Level: "exploration",
		Rule:    "a run is one or two processes saving the SRS under a disk fault and crash trace, a power loss that keeps a seeded subset of what was not synced, and a rerun; distinct by parameters, trace and the faults that struck",
		Measure: "distinct (parameters, fault trace, faults that struck)",
		Real:    []string{"trusted_setup", "gnark-ignition-verifier", "gnark-crypto kzg serialisation", "Go os (with the fault seam)"},
		Stub:    []string{"disk, process exit and crash: simdisk", "HTTP transport and server", "crypto/rand: seeded"},
		Assumptions: []string{"unsynced file contents survive a power loss entirely, as a prefix, with a lost block, or not at all; directory changes since the last directory sync survive up to any point; a rename is atomic",
			"torn downloads left in ./data by the third-party library are removed before the rerun that must succeed"},
		Worlds: []lab.World{
			{Name: "disk-faults", Quick: 600, Thorough: 40000, Serial: true, Exec: c11Save, Gen: func(r *rand.Rand, i int) *lab.Plan {
				p := gen(r)
				for n := 1 + r.Intn(2); n > 0; n-- {
					k := []string{"open-error", "write-error", "write-error", "disk-full", "sync-error", "close-error", "rename-error", "remove-error", "mkdir-error", "truncate-error", "stat-error", "read-error"}[r.Intn(12)]
					s := where(r)
					nth := r.Intn(3)
					if k == "write-error" || k == "disk-full" {
						nth = r.Intn([]int{3, 80, 420}[r.Intn(3)])
					}
					if s != "top" {
						nth = r.Intn(30)
					}
					p.Faults = append(p.Faults, lab.Fault{K: k, A: []int{nth, []int{0, 0, 1, 7, 4096}[r.Intn(5)], r.Intn(5), r.Intn(p.P["rounds"])}, S: s})
				}
				return p
			}},
			{Name: "crashes", Quick: 600, Thorough: 40000, Serial: true, Exec: c11Save, Gen: func(r *rand.Rand, i int) *lab.Plan {
				p := gen(r)
				for n := 1 + r.Intn(2); n > 0; n-- {
					k := []string{"crash", "crash", "crash-in-write"}[r.Intn(3)]
					nth := r.Intn([]int{8, 80, 440}[r.Intn(3)])
					p.Faults = append(p.Faults, lab.Fault{K: k, A: []int{nth, r.Intn(40), 0, r.Intn(p.P["rounds"])}, S: []string{"top", "top", "top", ""}[r.Intn(4)]})
				}
				if r.Intn(4) == 0 {
					p.Faults = append(p.Faults, lab.Fault{K: []string{"sync-error", "close-error", "write-error", "rename-error"}[r.Intn(4)], A: []int{r.Intn(3), 0, 0, r.Intn(p.P["rounds"])}, S: "top"})
				}
				return p
			}},
			{Name: "every-crash-point", Quick: 160, Thorough: 900, Serial: true, Exec: c11Save, Gen: func(r *rand.Rand, i int) *lab.Plan {
				p := gen(r)
				p.P["points"], p.P["rounds"] = 60, 1
				p.Faults = []lab.Fault{{K: []string{"crash", "crash-in-write"}[i%2], A: []int{i / 2, r.Intn(64), 0, 0}, S: "top"}}
				return p
			}},
		},
	}
}
