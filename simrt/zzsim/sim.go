// Package zzsim is the deterministic simulator runtime. It is compiled into an
// instrumented build of the module (through go build -overlay) and owns every
// source of nondeterminism of that build: which task runs next, map iteration
// order, locks, pools, channels, goroutines, clocks and random numbers.
//
// Exactly one task runs at a time. A task gives up control only inside this
// package, and who runs next is decided by the Policy of the simulation, which
// is a pure function of the seed (or of a recorded list of context switches).
package zzsim

import (
	"fmt"
	"runtime"
	"runtime/metrics"
	"sync/atomic"
	"time"
	"unsafe"
)

// ---------------------------------------------------------------- PRNG

// Rng is splitmix64: small, seedable and stable across Go versions.
type Rng struct{ s uint64 }

func NewRng(seed uint64) *Rng { return &Rng{seed} }

func (r *Rng) U64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// N returns a number in [0,n).
func (r *Rng) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// P is true with probability num/den.
func (r *Rng) P(num, den int) bool { return r.N(den) < num }

func Mix(a ...uint64) uint64 {
	r := Rng{0x1234567}
	for _, x := range a {
		r.s ^= x
		r.s = r.U64()
	}
	return r.U64()
}

// HashStr is FNV-1a.
func HashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

// ---------------------------------------------------------------- tasks

type tstate uint8

const (
	stRunnable tstate = iota
	stBlocked
	stStalled // injected stall: resumes only when nothing else can run
	stSleeping
	stDone
)

// Task is a simulated thread of control.
type Task struct {
	ID      int
	Name    string
	Client  bool // started by the harness, not by the code under test
	wake    chan struct{}
	state   tstate
	vc      []uint32
	yields  uint64
	opSteps uint64
	budget  uint64
	killed  bool
	Overrun bool // step budget exceeded
	fn      func()
	waitOn  string
	slow    int // scheduling decisions to sit out (slow-node fault)
	prio    int
	Panic   interface{} // panic that escaped fn
	atomicN int
	wakeAt  int64
	Ctx     interface{} // harness context, inherited by goroutines
	parent  *Task       // the task that started this one,
	born    interface{} // and its context then
	root    *Task       // the task that made the call this one works for
	ops     int         // calls it made itself
}

// Switch is one recorded context switch: task From, at its Yield-th yield
// (or when it blocked or finished: Forced), handed control to task To.
type Switch struct {
	From   int    `json:"f"`
	Yield  uint64 `json:"y"`
	To     int    `json:"t"`
	Forced bool   `json:"b,omitempty"`
}

// Race is a pair of conflicting accesses not ordered by happens-before.
type Race struct {
	SiteA, SiteB   int
	TaskA, TaskB   int
	WriteA, WriteB bool
}

// Policy decides where to preempt and who runs next.
type Policy struct {
	Mode string // "none", "rand", "pct", "hot", "replay"
	Rng  *Rng
	Num  int // rand: preempt with probability Num/Den at a yield; hot: at shared accesses
	Den  int
	// pct
	Changes map[uint64]bool // global yield numbers at which the running task is demoted
	low     int
	// replay
	Replay map[[2]uint64]int // (task,yield) -> to
	Forced map[[2]uint64]int
}

// Stats counts what really happened.
type Stats struct {
	Yields, Accesses, Switches, Preempts, SharedAccesses uint64
	MapRanges, MapShuffled                               uint64
	SyncOps, ChanOps, GoStmts, PoolMiss, PoolHit         uint64
	Stalls, SlowSkips, Timers                            uint64
}

// Sim is one simulated run.
type Sim struct {
	tasks         []*Task
	alive         []*Task // those of tasks that may still run
	gone          int     // those of alive that are done
	doneVC        []uint32
	glut          bool // too many goroutines to go on
	pol           *Policy
	sh            shadow
	Races         []Race
	raceSeen      map[[2]int]bool
	Deadlock      string
	Stuck         string // tasks blocked while only stalled tasks remain
	Trace         []Switch
	hash          uint64
	Stats         Stats
	ctl           chan struct{}
	tracking      bool
	joinVC        []uint32
	chans         map[unsafe.Pointer]*simChan
	Fault         string // internal error
	phase         int
	live          int
	Clock         int64
	ticked        uint64 // steps the clock has been advanced for
	sleepers      int
	nextWake      int64
	SlowRng       *Rng
	SlowNum       int // 1/1000 chance per preemption point that the current task is put to sleep for a while
	DefaultBudget uint64
}

var (
	// S is the running simulation, cur the running task. Both are nil outside
	// simulated phases (package initialisation, harness bookkeeping).
	S   *Sim
	cur *Task

	rtRng    *Rng  // nil: no runtime randomness
	stepNano int64 // time a step takes
	mapRng   *Rng  // nil: canonical order
	mapMode  int   // 0 canonical, 1 reversed, 2 seeded shuffle
	// RaceIgnore is set while harness code inspects values.
	simCounter uint64
	// LastMapRanges counts map ranges, also outside tasks.
	GlobalMapRanges uint64
)

// SetMapOrder selects the map iteration order: 0 canonical, 1 reversed, any
// other value seeds shuffles.
func SetMapOrder(seed uint64) {
	switch seed {
	case 0:
		mapMode, mapRng = 0, nil
	case 1:
		mapMode, mapRng = 1, nil
	default:
		mapMode, mapRng = 2, NewRng(seed)
	}
}

// SetRuntimeRand seeds the source behind runtime-random choices; 0 removes it.
func SetRuntimeRand(seed uint64) {
	rtRng = nil
	fixedRng = NewRng(99)
	machine = 0
	if seed != 0 {
		machine = 1 + int(Mix(seed, 3)%16)
	}
	stepNano = 0
	if seed != 0 {
		rtRng = NewRng(seed)
		// how slow the machine is
		stepNano = [...]int64{0, 0, 0, 100, 10000, 100000, 1000000, 20000000}[Mix(seed, 7)%8]
	}
}

// New makes a simulation.
func New(pol *Policy) *Sim {
	if pol == nil {
		pol = &Policy{Mode: "none"}
	}
	return &Sim{
		pol:           pol,
		raceSeen:      map[[2]int]bool{},
		ctl:           make(chan struct{}),
		hash:          14695981039346656037,
		DefaultBudget: 1 << 62,
	}
}

// Hash is a digest of the interleaving: every context switch with the site
// at which it happened.
func (s *Sim) Hash() uint64 { return s.hash }

func (s *Sim) mixHash(a, b, c uint64) {
	for _, x := range [3]uint64{a, b, c} {
		s.hash ^= x
		s.hash *= 1099511628211
	}
}

// Cur returns the running task.
func Cur() *Task { return cur }

// Phase runs the functions as concurrent tasks until all have finished, or no
// progress is possible. It returns the tasks.
func (s *Sim) Phase(names []string, fns []func(), budget uint64) []*Task {
	if S != nil || cur != nil {
		panic("zzsim: nested phase")
	}
	s.phase++
	var ts []*Task
	for i, f := range fns {
		n := ""
		if i < len(names) {
			n = names[i]
		}
		t := s.newTask(n, f)
		t.Client = true
		t.budget = budget
		ts = append(ts, t)
	}
	s.tracking = len(fns) > 1 || s.live > len(fns)
	if len(fns) == 0 {
		return nil
	}
	if s.pol.Mode == "pct" && len(fns) > 1 {
		perm := make([]int, len(ts))
		for i := range perm {
			perm[i] = i
		}
		for i := len(perm) - 1; i > 0; i-- {
			j := s.pol.Rng.N(i + 1)
			perm[i], perm[j] = perm[j], perm[i]
		}
		for i, t := range ts {
			t.prio = 1000 + perm[i]
		}
	}
	S = s
	first := s.pick(nil, true)
	if len(fns) > 1 {
		s.Trace = append(s.Trace, Switch{1 << 60, uint64(s.phase), first.ID, true})
	}
	cur = first
	first.wake <- struct{}{}
	<-s.ctl
	cur, S = nil, nil
	// tear down clients that cannot finish; goroutines of the code under test
	// live on into the next phase
	s.kill(func(t *Task) bool { return t.Client })
	s.joinVC = joinVC(s.joinVC, s.doneVC)
	for _, t := range s.alive {
		s.joinVC = joinVC(s.joinVC, t.vc)
	}
	s.tracking = false
	return ts
}

func (s *Sim) kill(which func(*Task) bool) {
	for _, t := range append([]*Task(nil), s.alive...) {
		if t.state != stDone && which(t) {
			t.killed = true
			S, cur = s, t
			t.wake <- struct{}{}
			<-s.ctl
			cur, S = nil, nil
		}
	}
}

// Close ends the simulation: everything still alive is torn down.
func (s *Sim) Close() { s.kill(func(*Task) bool { return true }) }

// Tasks counts the tasks started so far.
func (s *Sim) Tasks() int { return len(s.tasks) }

// Background returns the tasks started by the code under test.
func (s *Sim) Background() []*Task {
	var out []*Task
	for _, t := range s.tasks {
		if !t.Client {
			out = append(out, t)
		}
	}
	return out
}

func (s *Sim) newTask(name string, fn func()) *Task {
	t := &Task{ID: len(s.tasks), Name: name, wake: make(chan struct{}), fn: fn, budget: s.DefaultBudget}
	t.vc = append([]uint32(nil), s.joinVC...)
	if cur != nil {
		t.vc = joinVC(t.vc, cur.vc)
		t.prio = cur.prio
		t.budget = cur.budget
		if t.budget < 1<<40 {
			t.budget *= 64 // it may serve many calls
		}
		t.Ctx = cur.Ctx
		t.parent, t.born = cur, cur.Ctx
		if t.root = cur.root; cur.Client || cur.ops > 0 {
			t.root = cur
		}
	}
	for len(t.vc) <= t.ID {
		t.vc = append(t.vc, 0)
	}
	t.vc[t.ID]++
	s.tasks = append(s.tasks, t)
	s.alive = append(s.alive, t)
	if len(s.tasks) >= 20000 {
		s.glut = true
	}
	s.live++
	go s.main(t)
	return t
}

func (s *Sim) main(t *Task) {
	<-t.wake
	defer func() {
		// runs on normal return, panic and Goexit
		if r := recover(); r != nil {
			t.Panic = r
		}
		t.state = stDone
		s.live--
		s.doneVC = joinVC(s.doneVC, t.vc)
		t.vc = nil
		if s.gone++; s.gone > 32 && s.gone > len(s.alive)/2 {
			k := 0
			for _, x := range s.alive {
				if x.state != stDone {
					s.alive[k] = x
					k++
				}
			}
			clear(s.alive[k:])
			s.alive, s.gone = s.alive[:k], 0
		}
		if t.killed && !t.Overrun {
			s.ctl <- struct{}{}
			return
		}
		s.leave(t)
	}()
	if !t.killed {
		t.fn()
	}
}

// leave hands control on when t has finished.
func (s *Sim) leave(t *Task) {
	t.yields++
	n := s.pick(t, true)
	if n == nil {
		s.ctl <- struct{}{}
		return
	}
	s.record(t, n, true, 0)
	cur = n
	n.wake <- struct{}{}
}

func (s *Sim) record(t, n *Task, forced bool, site int) {
	s.Trace = append(s.Trace, Switch{t.ID, t.yields, n.ID, forced})
	s.Stats.Switches++
	s.mixHash(uint64(t.ID)<<32|uint64(n.ID), t.yields, uint64(site))
}

// pick chooses the next task to run when the current one cannot go on. It
// returns nil if the phase is over (all clients done, or deadlock).
func (s *Sim) pick(t *Task, forced bool) *Task {
	var run []*Task
	for _, x := range s.alive {
		if x.state == stRunnable {
			run = append(run, x)
		}
	}
	if len(run) > 1 {
		var awake []*Task
		for _, x := range run {
			if x.slow > 0 {
				x.slow--
				s.Stats.SlowSkips++
			} else {
				awake = append(awake, x)
			}
		}
		if len(awake) > 0 {
			run = awake
		}
	}
	if len(run) == 0 {
		clients := 0
		blocked, waiting := "", ""
		// a call that waits for its own goroutine, stalled in a callback, is
		// itself the one that is stalled
		own := map[*Task]bool{}
		for _, x := range s.alive {
			if x.state == stStalled {
				for p := x; p.parent != nil && p.parent.Ctx == p.born; p = p.parent {
					own[p.parent] = true
				}
			}
		}
		for _, x := range s.alive {
			if x.state == stDone {
				continue
			}
			if x.Client {
				clients++
			}
			if x.state == stBlocked && x.Client {
				msg := fmt.Sprintf("task %d (%s) waits for %s; ", x.ID, x.Name, x.waitOn)
				blocked += msg
				if !own[x] {
					waiting += msg
				}
			}
		}
		if clients == 0 {
			return nil // only leaked goroutines are left
		}
		var next *Task
		for _, x := range s.alive {
			if x.state == stSleeping && (next == nil || x.wakeAt < next.wakeAt) {
				next = x
			}
		}
		if next != nil {
			if next.wakeAt > s.Clock {
				s.Clock = next.wakeAt
			}
			s.wakeUp(next)
			return next
		}
		for _, x := range s.alive {
			if x.state == stStalled {
				if waiting != "" && s.Stuck == "" {
					s.Stuck = waiting
				}
				x.state = stRunnable
				return x
			}
		}
		if s.Deadlock == "" {
			s.Deadlock = blocked
		}
		return nil
	}
	if len(run) == 1 {
		return run[0]
	}
	switch s.pol.Mode {
	case "replay":
		if t != nil {
			if to, ok := s.pol.Forced[[2]uint64{uint64(t.ID), t.yields}]; ok {
				for _, x := range run {
					if x.ID == to {
						return x
					}
				}
			}
		} else if to, ok := s.pol.Forced[[2]uint64{1 << 60, uint64(s.phase)}]; ok {
			for _, x := range run {
				if x.ID == to {
					return x
				}
			}
		}
		return run[0]
	case "pct":
		b := run[0]
		for _, x := range run {
			if x.prio > b.prio {
				b = x
			}
		}
		return b
	case "rand", "hot":
		return run[s.pol.Rng.N(len(run))]
	}
	return run[0]
}

// yield is the only preemption point. shared marks an access to memory another
// task has touched, or a synchronisation operation.
func (s *Sim) yield(site int, shared bool) {
	t := cur
	if t.killed {
		return
	}
	t.yields++
	t.opSteps++
	s.Stats.Yields++
	if uint(site) < uint(len(Reached)) {
		Reached[site] |= 1
	}
	over := t.opSteps > t.budget
	if r := t.root; r != nil && t.Ctx == t.born && r.Ctx == t.born && r.state != stDone {
		// part of the work of a call
		if r.opSteps++; r.opSteps > r.budget {
			over = true
			r.Overrun, r.killed = true, true
			switch r.state {
			case stBlocked:
				r.state = stRunnable
			case stSleeping:
				s.wakeUp(r)
			}
		}
	}
	if over || s.glut || t.opSteps&0x3ff == 0 && memTight.Load() {
		if s.glut || memTight.Load() {
			OutOfMemory = true
		}
		t.Overrun = true
		t.killed = true
		runtime.Goexit()
	}
	if s.live < 2 || t.atomicN > 0 {
		return
	}
	var n *Task
	if s.sleepers > 0 && stepNano > 0 {
		s.tick()
		if s.Clock >= s.nextWake {
			if d := s.due(); d != nil && s.pol.Mode != "replay" {
				s.Stats.Preempts++
				s.switchTo(t, d, site, false)
				return
			}
		}
	}
	switch s.pol.Mode {
	case "none":
		return
	case "replay":
		to, ok := s.pol.Replay[[2]uint64{uint64(t.ID), t.yields}]
		if !ok {
			return
		}
		for _, x := range s.alive {
			if x.ID == to && x.state == stRunnable {
				n = x
			}
		}
	case "rand":
		if s.pol.Rng.N(s.pol.Den) >= s.pol.Num {
			return
		}
		s.slowFault(t)
		n = s.pick(t, false)
	case "hot":
		if shared {
			if s.pol.Rng.N(4) == 0 {
				return
			}
		} else if s.pol.Rng.N(s.pol.Den) >= s.pol.Num {
			return
		}
		s.slowFault(t)
		n = s.pick(t, false)
	case "pct":
		if !s.pol.Changes[s.Stats.Yields] {
			// a task of higher priority may have become runnable
			if !shared {
				return
			}
		} else {
			s.pol.low--
			t.prio = s.pol.low
		}
		n = s.pick(t, false)
	}
	if n == nil || n == t {
		return
	}
	s.Stats.Preempts++
	s.switchTo(t, n, site, false)
}

// tick advances the clock by the steps since it was last looked at.
func (s *Sim) tick() {
	s.Clock += int64(s.Stats.Yields-s.ticked) * stepNano
	s.ticked = s.Stats.Yields
}

// due makes the sleeping tasks whose time has come runnable and returns the
// first.
func (s *Sim) due() *Task {
	var first *Task
	for _, x := range s.alive {
		if x.state == stSleeping && x.wakeAt <= s.Clock {
			if first == nil || x.wakeAt < first.wakeAt {
				first = x
			}
			s.wakeUp(x)
			s.Stats.Timers++
		}
	}
	s.nextWake = 1<<63 - 1
	for _, x := range s.alive {
		if x.state == stSleeping && x.wakeAt < s.nextWake {
			s.nextWake = x.wakeAt
		}
	}
	return first
}

func (s *Sim) wakeUp(t *Task) {
	t.state = stRunnable
	s.sleepers--
}

func (s *Sim) sleep(t *Task, d int64) {
	if d < 0 {
		d = 0
	}
	s.tick()
	t.wakeAt = s.Clock + d
	if s.sleepers == 0 || t.wakeAt < s.nextWake {
		s.nextWake = t.wakeAt
	}
	s.sleepers++
}

func (s *Sim) slowFault(t *Task) {
	if s.SlowNum > 0 && s.SlowRng.N(1000) < s.SlowNum {
		t.slow = 1 + s.SlowRng.N(40)
		s.Stats.Stalls++
	}
}

// Reached says of each instrumented place whether it was executed (1) and
// whether the scheduler switched tasks there (2).
var Reached []uint8

func (s *Sim) switchTo(t, n *Task, site int, forced bool) {
	if uint(site) < uint(len(Reached)) {
		Reached[site] |= 2
	}
	s.record(t, n, forced, site)
	cur = n
	n.wake <- struct{}{}
	<-t.wake
	if t.killed {
		runtime.Goexit()
	}
}

// block parks the current task until another makes it runnable.
func (s *Sim) block(why string, st tstate) {
	t := cur
	if t.killed {
		runtime.Goexit()
	}
	t.state = st
	t.waitOn = why
	t.yields++
	n := s.pick(t, true)
	if n == t {
		t.state = stRunnable
		return
	}
	if n == nil {
		// nothing can run: the controller decides. A client is torn down, a
		// goroutine of the code under test may be woken in a later phase.
		s.ctl <- struct{}{}
		<-t.wake
		if t.killed {
			runtime.Goexit()
		}
		return
	}
	s.switchTo(t, n, 0, true)
}

// ---------------------------------------------------------------- harness API

// Active reports whether simulated code is running.
func Active() bool { return cur != nil }

// OpStart resets the step budget of the running task and returns the steps
// used so far.
func OpStart(budget uint64) {
	if cur != nil {
		cur.opSteps = 0
		cur.budget = budget
		cur.ops++
	}
}

// OpSteps returns the steps of the running task since OpStart.
func OpSteps() uint64 {
	if cur != nil {
		return cur.opSteps
	}
	return 0
}

// SaveOp and RestoreOp bracket nested operations.
func SaveOp() (a, b uint64) {
	if cur == nil {
		return 0, 0
	}
	return cur.opSteps, cur.budget
}
func RestoreOp(a, b uint64) {
	if cur != nil {
		cur.opSteps, cur.budget = a, b
	}
}

// Stall parks the running task until nothing else can run.
func Stall() {
	if cur == nil || S == nil {
		return
	}
	S.Stats.Stalls++
	S.block("stall", stStalled)
}

// SleepTask parks the running task for d simulated nanoseconds.
func SleepTask(d int64) {
	if cur == nil || S == nil {
		return
	}
	S.sleep(cur, d)
	S.block("sleep", stSleeping)
}

// GoAfter starts a task that begins asleep.
func GoAfter(d int64, fn func()) {
	if cur == nil {
		return
	}
	S.Stats.GoStmts++
	t := S.newTask("timer", fn)
	cur.vc[cur.ID]++
	S.tracking = true
	S.sleep(t, d)
	t.state = stSleeping
	S.yield(0, true)
}

// Pause is an explicit preemption point of harness callbacks.
func Pause() {
	if cur != nil {
		S.yield(0, true)
	}
}

// NoPreempt runs f without preemption (harness bookkeeping).
func NoPreempt(f func()) {
	if cur == nil {
		f()
		return
	}
	t := cur
	t.atomicN++
	defer func() { t.atomicN-- }()
	f()
}

// YieldCount returns how many yields the run made.
func (s *Sim) YieldCount() uint64 { return s.Stats.Yields }

// NewReplay builds a replay policy from a trace.
func NewReplay(tr []Switch) *Policy {
	p := &Policy{Mode: "replay", Replay: map[[2]uint64]int{}, Forced: map[[2]uint64]int{}}
	for _, s := range tr {
		k := [2]uint64{uint64(s.From), s.Yield}
		if s.Forced {
			p.Forced[k] = s.To
		} else {
			p.Replay[k] = s.To
		}
	}
	return p
}

// NewPCT builds a PCT policy with d change points over an estimated number of
// yields.
func NewPCT(r *Rng, d int, est uint64) *Policy {
	p := &Policy{Mode: "pct", Rng: r, Changes: map[uint64]bool{}}
	if est < 10 {
		est = 10
	}
	for i := 0; i < d; i++ {
		p.Changes[1+r.U64()%est] = true
	}
	return p
}

// ---------------------------------------------------------------- hooks called by instrumented code

// Step marks a function entry or loop iteration.
func Step(site int) {
	if cur == nil {
		return
	}
	S.yield(site, false)
}

// R reads *p.
func R[T any](p *T, site int) T {
	if cur != nil && p != nil {
		S.access(unsafe.Pointer(p), unsafe.Sizeof(*p), false, site)
	}
	return *p
}

// W announces a write to *p; the store follows immediately.
func W[T any](p *T, site int) bool {
	if cur != nil && p != nil {
		S.access(unsafe.Pointer(p), unsafe.Sizeof(*p), true, site)
	}
	return true
}

// Wp is W in places where only an expression fits.
func Wp[T any](p *T, site int) *T {
	if cur != nil && p != nil {
		S.access(unsafe.Pointer(p), unsafe.Sizeof(*p), true, site)
	}
	return p
}

// RS reads all elements of a slice.
func RS[S1 ~[]E, E any](s S1, site int) S1 {
	if cur != nil && len(s) > 0 && S.tracking {
		S.accessN(unsafe.Pointer(&s[0]), unsafe.Sizeof(s[0])*uintptr(len(s)), false, site)
	}
	return s
}

// WS announces writes to all elements of a slice.
func WS[S1 ~[]E, E any](s S1, site int) S1 {
	if cur != nil && len(s) > 0 && S.tracking {
		S.accessN(unsafe.Pointer(&s[0]), unsafe.Sizeof(s[0])*uintptr(len(s)), true, site)
	}
	return s
}

// Rp announces a read of *p.
func Rp[T any](p *T, site int) *T {
	if cur != nil && p != nil {
		S.access(unsafe.Pointer(p), unsafe.Sizeof(*p), false, site)
	}
	return p
}

// AppP is append(*p, xs...); *p is loaded after the arguments are evaluated,
// as the compiler does.
func AppP[S1 ~[]E, E any](p *S1, site int) func(xs ...E) S1 {
	return func(xs ...E) S1 {
		s := R(p, site)
		return append(App(s, len(xs), site), xs...)
	}
}

// AppPS is append(*p, xs...) with a slice.
func AppPS[S1 ~[]E, S2 ~[]E, E any](p *S1, site int, xs S2) S1 {
	return AppendS(R(p, site), xs, site)
}

// Key registers a pointer map key in program order.
func Key[K comparable](k K) K {
	SeePtr(k)
	return k
}

func mapPtr[M ~map[K]V, K comparable, V any](m M) unsafe.Pointer {
	return *(*unsafe.Pointer)(unsafe.Pointer(&m))
}

// MR reads a map.
func MR[M ~map[K]V, K comparable, V any](m M, site int) M {
	if cur != nil && m != nil {
		S.access(mapPtr(m), 8, false, site)
	}
	return m
}

// MW announces a write to a map.
func MW[M ~map[K]V, K comparable, V any](m M, site int) M {
	if cur != nil && m != nil {
		S.access(mapPtr(m), 8, true, site)
	}
	return m
}

// MWb is MW as a value.
func MWb[M ~map[K]V, K comparable, V any](m M, site int) bool {
	MW(m, site)
	return true
}

// App announces append(s, n elements...).
func App[S1 ~[]E, E any](s S1, n int, site int) S1 {
	if cur != nil && S.tracking {
		S.appended(unsafe.Pointer(unsafe.SliceData([]E(s))), len(s), cap(s), n, unsafe.Sizeof(*new(E)), site)
	}
	return s
}

func (s *Sim) appended(base unsafe.Pointer, ln, cp, n int, sz uintptr, site int) {
	if sz == 0 || base == nil || n == 0 {
		return
	}
	if ln+n <= cp {
		s.accessN(unsafe.Add(base, uintptr(ln)*sz), uintptr(n)*sz, true, site)
	} else if ln > 0 {
		s.accessN(base, uintptr(ln)*sz, false, site)
	}
}

// OutOfMemory is set when a call was ended because the process is about to run
// out of memory. The run cannot be judged then.
var OutOfMemory bool

var memTight atomic.Bool

// GuardMemory ends calls when the heap holds more than limit bytes.
func GuardMemory(limit uint64) {
	go func() {
		m := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
		high := 0
		for {
			time.Sleep(50 * time.Millisecond)
			metrics.Read(m)
			if m[0].Value.Uint64() < limit {
				high = 0
				memTight.Store(false)
				continue
			}
			// it may be garbage
			if high++; high == 1 {
				runtime.GC()
				continue
			}
			memTight.Store(true)
		}
	}()
}

// bulk counts the work of moving n bytes at once.
func (s *Sim) bulk(n uintptr, site int) {
	if n < 4096 {
		return
	}
	cur.opSteps += uint64(n / 64)
	s.yield(site, false)
}

// AppendS is append(s, xs...).
func AppendS[S1 ~[]E, S2 ~[]E, E any](s S1, xs S2, site int) S1 {
	if cur != nil {
		S.bulk(unsafe.Sizeof(*new(E))*uintptr(len(xs)), site)
	}
	if cur != nil && S.tracking {
		sz := unsafe.Sizeof(*new(E))
		S.appended(unsafe.Pointer(unsafe.SliceData([]E(s))), len(s), cap(s), len(xs), sz, site)
		if len(xs) > 0 && sz > 0 {
			S.accessN(unsafe.Pointer(&xs[0]), sz*uintptr(len(xs)), false, site)
		}
	}
	return append(s, xs...)
}

// Copy is copy(dst, src).
func Copy[S1 ~[]E, S2 ~[]E, E any](dst S1, src S2, site int) int {
	n := len(dst)
	if len(src) < n {
		n = len(src)
	}
	if cur != nil {
		S.bulk(unsafe.Sizeof(*new(E))*uintptr(n), site)
	}
	if cur != nil && S.tracking && n > 0 {
		sz := unsafe.Sizeof(*new(E))
		if sz > 0 {
			S.accessN(unsafe.Pointer(&src[0]), sz*uintptr(n), false, site)
			S.accessN(unsafe.Pointer(&dst[0]), sz*uintptr(n), true, site)
		}
	}
	return copy(dst, src)
}

// Slice ranges over a slice, recording element reads.
func Slice[S1 ~[]E, E any](s S1, site int) func(yield func(int, E) bool) {
	return func(yield func(int, E) bool) {
		for i := range s {
			if cur != nil {
				S.access(unsafe.Pointer(&s[i]), unsafe.Sizeof(s[i]), false, site)
			}
			if !yield(i, s[i]) {
				return
			}
		}
	}
}

// Zero resets a package-level variable.
func Zero[T any](p *T) {
	var z T
	*p = z
}

// ---------------------------------------------------------------- package reset

type pkgReset struct {
	path string
	deps []string
	fn   func()
}

var resets []pkgReset

// RegisterPkg is called by the init function of every instrumented package, in
// initialisation order.
func RegisterPkg(path string, deps []string, fn func()) {
	resets = append(resets, pkgReset{path, deps, fn})
}

// ResetPkgs re-runs the initialisation of all registered packages accepted by
// the filter, and of those they import: a process restart.
func ResetPkgs(accept func(string) bool) {
	need := map[string]bool{}
	for i := len(resets) - 1; i >= 0; i-- { // importers come after what they import
		r := resets[i]
		if need[r.path] || accept == nil || accept(r.path) {
			need[r.path] = true
			for _, d := range r.deps {
				need[d] = true
			}
		}
	}
	for _, r := range resets {
		if need[r.path] {
			r.fn()
		}
	}
}

// Pkgs lists the registered packages.
func Pkgs() []string {
	var out []string
	for _, r := range resets {
		out = append(out, r.path)
	}
	return out
}
