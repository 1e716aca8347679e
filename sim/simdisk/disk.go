//go:build simos

// Package simdisk is the simulated disk and process: faults on file operations, crashes with only
// durable state surviving, and intercepted exits. Files live in a scratch directory.
package simdisk

import (
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"syscall"

	"verif/sim/lab"
)

type obj struct {
	synced []byte // content known to be durable
	last   []byte // content when it lost its name
	dirty  bool
	lost   bool
}

type handle struct {
	o    *obj
	name string
	bad  string // first error injected on this handle
	wr   bool
}

// Disk is one simulated machine.
type Disk struct {
	Dir    string
	faults []lab.Fault
	rng    *rand.Rand
	files  map[*os.File]*handle
	ns     map[string]*obj
	hist   []map[string]*obj
	firm   int // index of the durable directory state
	count  map[string]int
	ops    int
	full   bool
	dead   bool
	Fired  map[string]int
	Log    []string
	Bad    map[string]string // artifact name -> injected error not yet followed by a clean rewrite
	Closed map[string]bool   // last handle closed without error
}

type exited struct{ code int }
type crashed struct{}

// New adopts the files present in dir as durable.
func New(dir string, faults []lab.Fault, rng *rand.Rand) *Disk {
	if !strings.Contains(dir, "/simdisk.") {
		panic("not a scratch directory: " + dir)
	}
	d := &Disk{Dir: dir, faults: faults, rng: rng, files: map[*os.File]*handle{}, ns: map[string]*obj{}, count: map[string]int{}, Fired: map[string]int{}, Bad: map[string]string{}, Closed: map[string]bool{}}
	for n, b := range Files(dir) {
		d.ns[n] = &obj{synced: b}
	}
	d.note()
	return d
}

func (d *Disk) note() {
	m := map[string]*obj{}
	for k, v := range d.ns {
		m[k] = v
	}
	d.hist = append(d.hist, m)
}

// Files reads a directory tree.
func Files(dir string) map[string][]byte {
	r := map[string][]byte{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() {
			if b, err := os.ReadFile(p); err == nil {
				rel, _ := filepath.Rel(dir, p)
				r[rel] = b
			}
		}
		return nil
	})
	return r
}

func (d *Disk) rel(name string) (string, bool) {
	if !filepath.IsAbs(name) {
		wd, err := syscall.Getwd()
		if err != nil {
			return "", false
		}
		name = filepath.Join(wd, name)
	}
	r, err := filepath.Rel(d.Dir, name)
	if err != nil || r == ".." || strings.HasPrefix(r, "../") {
		return "", false
	}
	return r, true
}

// hit tells whether a fault of kind k strikes this operation on name.
func (d *Disk) hit(k, name string) (lab.Fault, bool) {
	for i, f := range d.faults {
		if f.K != k {
			continue
		}
		if f.S != "" {
			in := strings.HasPrefix(name, "data/") || name == "data"
			switch f.S {
			case "cache":
				if !in {
					continue
				}
			case "top":
				if in {
					continue
				}
			default:
				if name != f.S {
					continue
				}
			}
		}
		key := fmt.Sprint(k, i)
		d.count[key]++
		if d.count[key]-1 == f.A[0] {
			d.Fired[k]++
			return f, true
		}
	}
	return lab.Fault{}, false
}

func (d *Disk) step(op, name string) error {
	if d.dead {
		return syscall.EIO
	}
	d.ops++
	if len(d.Log) < 4000 {
		d.Log = append(d.Log, op+" "+name)
	}
	if _, ok := d.hit("crash", name); ok {
		d.crash()
	}
	return nil
}

func (d *Disk) crash() {
	d.dead = true
	panic(crashed{})
}

func errno(n int) error {
	return []error{syscall.EIO, syscall.ENOSPC, syscall.EDQUOT, io.ErrShortWrite, syscall.EACCES}[n%5]
}

func (d *Disk) Open(name string, flag int) error {
	r, ok := d.rel(name)
	if !ok {
		return nil
	}
	if err := d.step("open", r); err != nil {
		return err
	}
	if f, ok := d.hit("open-error", r); ok {
		d.bad(r, "open")
		return []error{syscall.EACCES, syscall.EMFILE, syscall.EIO, syscall.ENOSPC}[f.A[1]%4]
	}
	if d.full && flag&os.O_CREATE != 0 && d.ns[r] == nil {
		d.bad(r, "open")
		return syscall.ENOSPC
	}
	if o := d.ns[r]; o != nil && flag&os.O_TRUNC != 0 {
		o.dirty = true
	}
	return nil
}

func (d *Disk) bad(name, op string) {
	if d.Bad[name] == "" {
		d.Bad[name] = op
	}
}

func (d *Disk) Opened(f *os.File, name string, flag int) {
	r, ok := d.rel(name)
	if !ok {
		return
	}
	wr := flag&(os.O_WRONLY|os.O_RDWR) != 0
	o := d.ns[r]
	if o == nil && wr {
		o = &obj{dirty: true}
		d.ns[r] = o
		d.note()
	}
	d.files[f] = &handle{o: o, name: r, wr: wr}
	if wr {
		delete(d.Bad, r)
		d.Closed[r] = false
	}
}

func (d *Disk) Read(f *os.File, n int) (int, error) {
	h := d.files[f]
	if h == nil {
		return n, nil
	}
	if err := d.step("read", h.name); err != nil {
		return 0, err
	}
	for _, x := range d.faults { // a stretch of the file that cannot be read, now or later
		if x.K != "bad-sector" || x.S != h.name || n == 0 {
			continue
		}
		if pos, err := f.Seek(0, io.SeekCurrent); err == nil {
			if at := int64(x.A[0]); pos >= at {
				d.Fired[x.K]++
				return 0, syscall.EIO
			} else if pos+int64(n) > at {
				n = int(at - pos)
			}
		}
	}
	if x, ok := d.hit("read-error", h.name); ok {
		return min(n, x.A[1]), syscall.EIO
	}
	if x, ok := d.hit("short-read", h.name); ok {
		return min(n, 1+x.A[1]), nil
	}
	return n, nil
}

func (d *Disk) Write(f *os.File, n int) (int, error) {
	h := d.files[f]
	if h == nil {
		return n, nil
	}
	if d.dead {
		return 0, syscall.EIO
	}
	if x, ok := d.hit("crash-in-write", h.name); ok { // torn write
		k := min(n, x.A[1])
		h.o.dirty = true
		d.ops++
		d.dead = true
		if k == 0 {
			panic(crashed{})
		}
		return k, syscall.EIO // Did ends the process after the partial write
	}
	if err := d.step("write", h.name); err != nil {
		return 0, err
	}
	if h.o != nil {
		h.o.dirty = true
	}
	if d.full {
		d.hbad(h, "write")
		return 0, syscall.ENOSPC
	}
	if x, ok := d.hit("write-error", h.name); ok {
		d.hbad(h, "write")
		return min(n, x.A[1]), errno(x.A[2])
	}
	if x, ok := d.hit("disk-full", h.name); ok {
		d.full = true
		d.hbad(h, "write")
		return min(n, x.A[1]), syscall.ENOSPC
	}
	return n, nil
}

func (d *Disk) hbad(h *handle, op string) {
	h.bad = op
	d.bad(h.name, op)
}

func (d *Disk) Do(op string, f *os.File, a, b string) error {
	var name string
	h := d.files[f]
	if f != nil {
		if h == nil {
			return nil
		}
		name = h.name
	} else {
		r, ok := d.rel(a)
		if !ok {
			return nil
		}
		name = r
	}
	if err := d.step(op, name); err != nil {
		return err
	}
	if x, ok := d.hit(op+"-error", name); ok {
		if h != nil && h.wr {
			d.hbad(h, op)
		}
		if op == "rename" {
			if r, ok := d.rel(b); ok {
				d.bad(r, op)
			}
		}
		return errno(x.A[1])
	}
	if d.full && op == "mkdir" {
		return syscall.ENOSPC
	}
	if op == "rename" {
		if r, ok := d.rel(b); ok {
			if o := d.ns[r]; o != nil {
				o.last, _ = d.content(o)
				o.lost = true
			}
		}
	}
	if op == "remove" {
		if o := d.ns[name]; o != nil {
			o.last, _ = d.content(o)
			o.lost = true
		}
	}
	return nil
}

func (d *Disk) Did(op string, f *os.File, a, b string) {
	h := d.files[f]
	switch op {
	case "write":
		if h != nil && d.dead {
			panic(crashed{})
		}
	case "sync":
		if h != nil && h.o != nil {
			if h.wr || h.o != nil {
				if c, ok := d.content(h.o); ok {
					h.o.synced, h.o.dirty = c, false
				}
			}
		} else if h != nil { // a directory
			d.firm = len(d.hist) - 1
		}
	case "close":
		if h != nil {
			if h.wr && h.bad == "" {
				d.Closed[h.name] = true
			}
			delete(d.files, f)
		}
	case "rename":
		x, ok1 := d.rel(a)
		y, ok2 := d.rel(b)
		if ok1 && ok2 {
			d.ns[y] = d.ns[x]
			delete(d.ns, x)
			if d.ns[y] == nil {
				delete(d.ns, y)
			}
			d.Closed[y] = d.Closed[x]
			if d.Bad[x] != "" {
				d.Bad[y] = d.Bad[x]
			} else {
				delete(d.Bad, y)
			}
			d.note()
		}
	case "remove":
		if x, ok := d.rel(a); ok {
			delete(d.ns, x)
			d.note()
		}
	case "truncate":
		if h != nil && h.o != nil {
			h.o.dirty = true
		}
	}
}

// content reads the current content of an object.
func (d *Disk) content(o *obj) ([]byte, bool) {
	if o.lost {
		return o.last, true
	}
	for n, x := range d.ns {
		if x == o {
			fd, err := syscall.Open(filepath.Join(d.Dir, n), syscall.O_RDONLY, 0)
			if err != nil {
				return nil, false
			}
			defer syscall.Close(fd)
			var out []byte
			buf := make([]byte, 1<<16)
			for {
				k, err := syscall.Read(fd, buf)
				if k <= 0 || err != nil {
					return out, true
				}
				out = append(out, buf[:k]...)
			}
		}
	}
	return nil, false
}

func (d *Disk) Exit(code int) {
	d.dead = true
	panic(exited{code})
}

// End of a simulated process.
type End struct {
	Code    int // 0: success
	Crashed bool
	Why     string
}

// Run executes f as a process on this disk.
func (d *Disk) Run(f func()) (e End) {
	defer func() {
		os.Sim = nil
		for f := range d.files {
			f.Close()
		}
		switch r := recover().(type) {
		case nil:
		case exited:
			e.Code = r.code
			e.Why = fmt.Sprint("exit status ", r.code)
		case crashed:
			e = End{Code: -1, Crashed: true, Why: "crash"}
		case runtime.Error:
			e = End{Code: 2, Why: "panic: " + r.Error()}
		default:
			e = End{Code: 2, Why: fmt.Sprint("panic: ", r)}
		}
	}()
	os.Sim = d
	f()
	return
}

// Ops is the number of operations performed.
func (d *Disk) Ops() int { return d.ops }

// PowerLoss replaces the directory by what survives a crash now.
func (d *Disk) PowerLoss() map[string][]byte {
	j := d.firm + d.rng.Intn(len(d.hist)-d.firm)
	if d.rng.Intn(3) == 0 {
		j = len(d.hist) - 1
	}
	left := map[string][]byte{}
	var names []string
	for n := range d.hist[j] {
		names = append(names, n)
	}
	sort.Strings(names)
	survives := map[*obj][]byte{}
	for _, n := range names {
		o := d.hist[j][n]
		c, ok := survives[o]
		if !ok {
			c = d.survive(o)
			survives[o] = c
		}
		left[n] = c
	}
	Wipe(d.Dir)
	for n, b := range left {
		p := filepath.Join(d.Dir, n)
		os.MkdirAll(filepath.Dir(p), 0o755)
		os.WriteFile(p, b, 0o644)
	}
	return left
}

func (d *Disk) survive(o *obj) []byte {
	c, _ := d.content(o)
	if !o.dirty {
		return o.synced
	}
	switch d.rng.Intn(5) {
	case 0:
		return append([]byte(nil), o.synced...)
	case 1:
		return c
	case 2:
		if len(c) > 0 {
			return c[:d.rng.Intn(len(c))]
		}
	case 3: // a block never reached the disk
		if len(c) > 0 {
			x := append([]byte(nil), c...)
			k := d.rng.Intn(len(x)) &^ 511
			for i := k; i < len(x) && i < k+512; i++ {
				x[i] = 0
			}
			return x
		}
	}
	return nil
}

// Wipe empties a directory.
func Wipe(dir string) {
	if !strings.Contains(dir, "/simdisk.") {
		panic("not a scratch directory: " + dir)
	}
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		os.RemoveAll(filepath.Join(dir, e.Name()))
	}
}
