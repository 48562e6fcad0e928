package zzsim

import "unsafe"

// shadow memory: for every 8-byte word touched while several tasks are alive,
// the last accesses per task. Entries keep the memory alive, so an address is
// never reused for another object within a run.

type acc struct {
	task  int32
	clk   uint32
	site  int32
	mask  uint8
	write bool
}

type cell struct {
	keep unsafe.Pointer
	n    int
	a    [4]acc
	more []acc
}

type shadow struct {
	idx   map[uintptr]int32
	cells []cell
}

func joinVC(a, b []uint32) []uint32 {
	for len(a) < len(b) {
		a = append(a, 0)
	}
	for i, x := range b {
		if x > a[i] {
			a[i] = x
		}
	}
	return a
}

func (s *Sim) access(p unsafe.Pointer, size uintptr, write bool, site int) {
	if size == 0 {
		return
	}
	s.Stats.Accesses++
	shared := false
	if s.tracking {
		shared = s.track(p, size, write, site)
		if shared {
			s.Stats.SharedAccesses++
		}
	}
	s.yield(site, shared)
}

func (s *Sim) accessN(p unsafe.Pointer, size uintptr, write bool, site int) {
	if size == 0 {
		return
	}
	s.Stats.Accesses++
	shared := s.track(p, size, write, site)
	if shared {
		s.Stats.SharedAccesses++
	}
	s.yield(site, shared)
}

func (s *Sim) track(p unsafe.Pointer, size uintptr, write bool, site int) bool {
	shared := false
	addr := uintptr(p)
	end := addr + size
	for a := addr; a < end; {
		w := a &^ 7
		lo := a - w
		hi := uintptr(8)
		if w+8 > end {
			hi = end - w
		}
		mask := uint8((1<<hi - 1) &^ (1<<lo - 1))
		if s.trackWord(unsafe.Add(p, a-addr), w, mask, write, site) {
			shared = true
		}
		a = w + 8
	}
	return shared
}

func (s *Sim) trackWord(p unsafe.Pointer, w uintptr, mask uint8, write bool, site int) bool {
	if s.sh.idx == nil {
		s.sh.idx = make(map[uintptr]int32, 256)
	}
	t := cur
	i, ok := s.sh.idx[w]
	if !ok {
		i = int32(len(s.sh.cells))
		s.sh.cells = append(s.sh.cells, cell{keep: p})
		s.sh.idx[w] = i
	}
	c := &s.sh.cells[i]
	shared := false
	me := acc{int32(t.ID), t.vc[t.ID], int32(site), mask, write}
	slot := -1
	total := c.n + len(c.more)
	for k := 0; k < total; k++ {
		var e *acc
		if k < c.n {
			e = &c.a[k]
		} else {
			e = &c.more[k-c.n]
		}
		if e.task == me.task {
			if e.write == write && e.mask == mask {
				slot = k
			}
			continue
		}
		if e.mask&mask == 0 {
			continue
		}
		shared = true
		if (e.write || write) && e.clk > vcAt(t.vc, int(e.task)) {
			s.race(e, &me)
		}
	}
	if slot >= 0 {
		if slot < c.n {
			c.a[slot] = me
		} else {
			c.more[slot-c.n] = me
		}
	} else if c.n < len(c.a) {
		c.a[c.n] = me
		c.n++
	} else {
		c.more = append(c.more, me)
	}
	return shared
}

func vcAt(vc []uint32, i int) uint32 {
	if i < len(vc) {
		return vc[i]
	}
	return 0
}

func (s *Sim) race(a, b *acc) {
	k := [2]int{int(a.site), int(b.site)}
	if k[0] > k[1] {
		k[0], k[1] = k[1], k[0]
	}
	if s.raceSeen[k] {
		return
	}
	s.raceSeen[k] = true
	s.Races = append(s.Races, Race{int(a.site), int(b.site), int(a.task), int(b.task), a.write, b.write})
}

// ---- happens-before edges of synchronisation objects

// SyncVar is a synchronisation object's clock.
type SyncVar struct {
	sim *Sim
	vc  []uint32
}

// Release publishes the running task's past.
func (v *SyncVar) Release() {
	if cur == nil {
		return
	}
	if v.sim != S {
		v.sim, v.vc = S, nil
	}
	v.vc = joinVC(v.vc, cur.vc)
	cur.vc[cur.ID]++
}

// Acquire makes what was published visible.
func (v *SyncVar) Acquire() {
	if cur == nil || v.sim != S {
		return
	}
	cur.vc = joinVC(cur.vc, v.vc)
}

// Sync is a preemption point of a synchronisation operation.
func Sync() {
	if cur != nil {
		S.Stats.SyncOps++
		S.yield(0, true)
	}
}

// WaitList holds blocked tasks.
type WaitList struct {
	sim *Sim
	ts  []*Task
}

// Block parks the running task on the list.
func (w *WaitList) Block(why string) {
	if cur == nil {
		panic("zzsim: blocking operation outside a simulated task: " + why)
	}
	if w.sim != S {
		w.sim, w.ts = S, nil
	}
	w.ts = append(w.ts, cur)
	S.block(why, stBlocked)
}

// Enroll puts the running task on the list without parking it; the result
// tells whether it has been taken off since.
func (w *WaitList) Enroll() func() bool {
	if cur == nil {
		panic("zzsim: blocking operation outside a simulated task")
	}
	if w.sim != S {
		w.sim, w.ts = S, nil
	}
	t := cur
	w.ts = append(w.ts, t)
	return func() bool {
		for _, x := range w.ts {
			if x == t {
				return false
			}
		}
		return true
	}
}

// Park waits for the enrolled task to be woken.
func (w *WaitList) Park(why string) { S.block(why, stBlocked) }

// WakeAll makes all tasks on the list runnable.
func (w *WaitList) WakeAll() {
	if w.sim == S {
		for _, t := range w.ts {
			if t.state == stBlocked {
				t.state = stRunnable
			}
		}
	}
	w.ts = nil
}

// WakeOne wakes the longest waiting task.
func (w *WaitList) WakeOne() {
	if w.sim == S {
		for len(w.ts) > 0 {
			t := w.ts[0]
			w.ts = w.ts[1:]
			if t.state == stBlocked {
				t.state = stRunnable
				return
			}
			if t.state == stRunnable && !t.killed {
				return // enrolled, about to park
			}
		}
	}
}

// Aborting reports that the running task is being torn down.
func Aborting() bool { return cur != nil && cur.killed }

// RuntimeRand is the seeded source behind every runtime-random choice
// (sync.Pool misses, select, math/rand, clock jitter).
func RuntimeRand() *Rng { return rtRng }

var (
	fixedRng = NewRng(99)
	machine  int
)

// Rand64 is what a program draws at random. Without a seed it is the same
// sequence in every simulated process.
func Rand64() uint64 {
	if rtRng != nil {
		return rtRng.U64()
	}
	return fixedRng.U64()
}

// Machine is a property of the machine, such as the number of processors.
func Machine(usual int) int {
	if machine == 0 {
		return usual
	}
	return machine
}

// NumTasks counts what is alive.
func NumTasks() int {
	n := 1
	if S != nil {
		for _, t := range S.tasks {
			if t.state != stDone {
				n++
			}
		}
	}
	return n
}

// CountPool records a pool outcome.
func CountPool(hit bool) {
	if S == nil {
		return
	}
	if hit {
		S.Stats.PoolHit++
	} else {
		S.Stats.PoolMiss++
	}
}

// Go starts a task.
func Go(fn func(), site int) {
	if cur == nil {
		// real process initialisation: the simulated one follows
		return
	}
	S.Stats.GoStmts++
	t := S.newTask("go", fn)
	cur.vc[cur.ID]++
	S.tracking = true
	_ = t
	S.yield(site, true)
}

// NowNano is the simulated clock.
func NowNano() int64 {
	if S == nil {
		return 0
	}
	S.tick()
	S.Clock += 1000
	if r := RuntimeRand(); r != nil {
		S.Clock += int64(r.N(1000000))
	}
	return S.Clock
}

// AdvanceClock is a clock jump.
func (s *Sim) AdvanceClock(d int64) { s.Clock += d }
