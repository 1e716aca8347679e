// Package simsync replaces package sync in the instrumented copy of the code under test: a seeded
// cooperative scheduler decides at every instrumented point which task runs, locks are simulated, and
// a vector-clock detector reports unsynchronised accesses to shared memory.
// With no scheduler active everything behaves like package sync.
package simsync

import (
	"fmt"
	"sort"
	"sync"
	"time"
	"unsafe"
)

// Instrumented is set by the instrumented packages.
var Instrumented bool

// Channels is set when the instrumented packages synchronise through channels, which are not simulated.
var Channels bool

// MapSeed decides the iteration order of maps; 0: Go's own order.
var MapSeed int64

// MapIterations counts map iterations with a decided order.
var MapIterations int

// Switch is a preemption: at scheduling point At, run task To (modulo the number of runnable tasks).
type Switch struct{ At, To int }

type task struct {
	id   int
	vc   []int
	wake chan struct{}
	wait func() bool // blocked until this holds
	why  string
	done bool
}

type access struct {
	task, clk int
	write     bool
}

type loc struct {
	w     access
	hasW  bool
	reads map[int]int
}

// Sched is one simulated execution.
type Sched struct {
	tasks    []*task
	cur      *task
	step     int
	plan     []Switch
	locs     map[unsafe.Pointer]*loc
	Races    []string
	Dead     string
	Limit    int
	Switches int
	Order    uint64 // fingerprint of the interleaving
	quiet    int
	end      chan struct{}
	panics   []string
	aborted  bool
	run      int
}

var runs int

var cur *Sched
var held = map[*Mutex]bool{}
var heldRW = map[*RWMutex]bool{}

type abortRun struct{}

// Active tells whether a simulated execution is running.
func Active() bool { return cur != nil }

// Run executes the bodies as tasks under the given preemption plan. It returns when all have ended,
// when none can continue (Dead), or when the step limit is reached (Dead).
func Run(plan []Switch, limit int, bodies ...func()) *Sched {
	for m := range held {
		m.locked = false
		delete(held, m)
	}
	for m := range heldRW {
		m.w, m.r = false, 0
		delete(heldRW, m)
	}
	runs++
	s := &Sched{run: runs, plan: append([]Switch(nil), plan...), locs: map[unsafe.Pointer]*loc{}, Limit: limit, end: make(chan struct{})}
	sort.SliceStable(s.plan, func(i, j int) bool { return s.plan[i].At < s.plan[j].At })
	for _, b := range bodies {
		s.spawn(b, nil)
	}
	cur = s
	s.cur = s.tasks[0]
	s.tasks[0].wake <- struct{}{}
	select {
	case <-s.end:
	case <-time.After(60 * time.Second):
		s.Dead = "stalled outside the simulated primitives"
	}
	cur = nil
	return s
}

func (s *Sched) spawn(body func(), parent *task) *task {
	t := &task{id: len(s.tasks), wake: make(chan struct{}, 1)}
	if parent != nil {
		t.vc = append([]int(nil), parent.vc...)
	}
	for len(t.vc) <= t.id {
		t.vc = append(t.vc, 0)
	}
	t.vc[t.id] = 1
	s.tasks = append(s.tasks, t)
	go func() {
		<-t.wake
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(abortRun); !ok {
					s.panics = append(s.panics, fmt.Sprint(r))
				}
			}
			t.done = true
			s.next(t)
		}()
		if s.aborted {
			return
		}
		body()
	}()
	return t
}

// Go starts a task.
func Go(f func()) {
	if cur == nil {
		go f()
		return
	}
	s := cur
	p := s.cur
	s.spawn(f, p)
	p.vc[p.id]++
	Point()
}

func (s *Sched) runnable() (r []*task) {
	for _, t := range s.tasks {
		if !t.done && (t.wait == nil || t.wait()) {
			r = append(r, t)
		}
	}
	return
}

// next hands control on when the current task has ended or blocks.
func (s *Sched) next(t *task) {
	r := s.runnable()
	if len(r) == 0 || s.aborted {
		alive := ""
		for _, x := range s.tasks {
			if !x.done {
				alive += fmt.Sprintf(" task %d waits for %s;", x.id, x.why)
			}
		}
		if alive != "" && !s.aborted {
			s.Dead = "deadlock:" + alive
			s.aborted = true
		}
		if !t.done {
			return // unwinds first
		}
		// let the others unwind one by one
		for _, x := range s.tasks {
			if !x.done && x != t {
				x.wait = nil
				s.cur = x
				x.wake <- struct{}{}
				return
			}
		}
		if t.done {
			close(s.end)
		}
		return
	}
	n := r[0]
	// the scheduler's choice when a task gives up control: the next preemption's target, else the lowest
	if len(s.plan) > 0 {
		n = r[s.plan[0].To%len(r)]
	}
	s.switchTo(t, n)
}

func (s *Sched) switchTo(from, to *task) {
	if from == to {
		return
	}
	s.Switches++
	s.Order = (s.Order*1099511628211 ^ uint64(to.id+1)) + uint64(s.step)*31
	to.wait = nil
	s.cur = to
	to.wake <- struct{}{}
	if !from.done {
		<-from.wake
		if s.aborted {
			panic(abortRun{})
		}
	}
}

// Quiet suspends preemption while f runs (bulk preparation).
func Quiet(f func()) {
	if s := cur; s != nil {
		s.quiet++
		defer func() { s.quiet-- }()
	}
	f()
}

// Point is a scheduling point.
func Point() {
	if s := cur; s != nil {
		s.point()
	}
}

func (s *Sched) point() {
	if s.quiet > 0 {
		return
	}
	if s.aborted {
		panic(abortRun{})
	}
	s.step++
	if s.Limit > 0 && s.step > s.Limit {
		s.Dead = "no end within the step limit"
		s.aborted = true
		panic(abortRun{})
	}
	for len(s.plan) > 0 && s.plan[0].At <= s.step {
		to := s.plan[0].To
		s.plan = s.plan[1:]
		r := s.runnable()
		if len(r) > 0 {
			s.switchTo(s.cur, r[to%len(r)])
		}
	}
}

// Steps is the number of scheduling points passed.
func (s *Sched) Steps() int { return s.step }

// Panics lists panics that ended tasks.
func (s *Sched) Panics() []string { return s.panics }

// block suspends the current task until ok holds.
func (s *Sched) block(why string, ok func() bool) {
	t := s.cur
	if s.aborted {
		panic(abortRun{})
	}
	for !ok() {
		t.wait, t.why = ok, why
		s.next(t)
		if s.aborted {
			panic(abortRun{})
		}
	}
}

func join(a []int, b []int) []int {
	for len(a) < len(b) {
		a = append(a, 0)
	}
	for i, x := range b {
		if x > a[i] {
			a[i] = x
		}
	}
	return a
}

// acquire and release move happens-before edges through a synchronisation object.
func (s *Sched) acquire(c Clock) {
	if c.run == s.run {
		s.cur.vc = join(s.cur.vc, c.vc)
	}
}
func (s *Sched) release(c Clock) Clock {
	if c.run != s.run {
		c.vc = nil
	}
	vc := join(append([]int(nil), c.vc...), s.cur.vc)
	s.cur.vc[s.cur.id]++
	return Clock{vc, s.run}
}

// Clock is the vector clock of a synchronisation object in one simulated execution.
type Clock struct {
	vc  []int
	run int
}

// Acquire and Release expose the same to package atomic.
func Acquire(o *Clock) {
	if cur != nil {
		cur.acquire(*o)
	}
}
func Release(o *Clock) {
	if cur != nil {
		*o = cur.release(*o)
	}
}

func (s *Sched) access(p unsafe.Pointer, name string, write bool) {
	if p == nil {
		return
	}
	t := s.cur
	l := s.locs[p]
	if l == nil {
		l = &loc{reads: map[int]int{}}
		s.locs[p] = l
	}
	before := func(task, clk int) bool { return task == t.id || (task < len(t.vc) && t.vc[task] >= clk) }
	if l.hasW && !before(l.w.task, l.w.clk) {
		s.race(name, "write", l.w.task, write)
	}
	if write {
		for k, c := range l.reads {
			if !before(k, c) {
				s.race(name, "read", k, true)
			}
		}
		l.w, l.hasW = access{t.id, t.vc[t.id], true}, true
		l.reads = map[int]int{}
	} else {
		l.reads[t.id] = t.vc[t.id]
	}
}

func (s *Sched) race(name, kind string, other int, write bool) {
	k := "read"
	if write {
		k = "write"
	}
	if len(s.Races) < 4 {
		s.Races = append(s.Races, fmt.Sprintf("unsynchronised %s of %s by task %d after a %s by task %d", k, name, s.cur.id, kind, other))
	}
}

// R and W record a read or write of shared memory and are scheduling points.
func R[T any](p *T, name string) {
	if s := cur; s != nil {
		s.point()
		s.access(unsafe.Pointer(p), name, false)
	}
}
func W[T any](p *T, name string) {
	if s := cur; s != nil {
		s.point()
		s.access(unsafe.Pointer(p), name, true)
	}
}

// MR and MW do the same for the contents of a map.
func MR[M ~map[K]V, K comparable, V any](m M, name string) {
	if s := cur; s != nil {
		s.point()
		s.access(*(*unsafe.Pointer)(unsafe.Pointer(&m)), name, false)
	}
}
func MW[M ~map[K]V, K comparable, V any](m M, name string) {
	if s := cur; s != nil {
		s.point()
		s.access(*(*unsafe.Pointer)(unsafe.Pointer(&m)), name, true)
	}
}

// Assign stores a value computed before a scheduling point.
func Assign[T any](p *T, name string) func(T) {
	return func(v T) {
		if s := cur; s != nil {
			s.point()
			s.access(unsafe.Pointer(p), name, true)
		}
		*p = v
	}
}

// Entry is a map entry.
type Entry[K comparable, V any] struct {
	K K
	V V
}

// Entries lists a map in the order decided by MapSeed.
func Entries[M ~map[K]V, K comparable, V any](m M) []Entry[K, V] {
	r := make([]Entry[K, V], 0, len(m))
	for k, v := range m {
		r = append(r, Entry[K, V]{k, v})
	}
	if MapSeed == 0 {
		return r
	}
	keys := make([]string, len(r))
	for i := range r {
		if s, ok := any(r[i].K).(fmt.Stringer); ok {
			keys[i] = s.String()
		} else {
			keys[i] = fmt.Sprintf("%v", r[i].K)
		}
	}
	idx := make([]int, len(r))
	for i := range idx {
		idx[i] = i
	}
	sort.SliceStable(idx, func(a, b int) bool { return keys[idx[a]] < keys[idx[b]] })
	x := uint64(MapSeed)
	for i := len(idx) - 1; i > 0; i-- {
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		j := int(x % uint64(i+1))
		idx[i], idx[j] = idx[j], idx[i]
	}
	o := make([]Entry[K, V], len(r))
	for i, j := range idx {
		o[i] = r[j]
	}
	mapMu.Lock()
	MapIterations++
	mapMu.Unlock()
	return o
}

var mapMu sync.Mutex
