package zzsim

import (
	"unsafe"
)

// Channels of instrumented code keep their identity (the real chan value) but
// their contents live here, so that the scheduler decides every rendezvous.
// The queues follow the runtime's: a waiting counterpart is served directly.

type simItem struct {
	v  interface{}
	sv *SyncVar
}

// waitOp is one blocked send, receive or select.
type waitOp struct {
	t    *Task
	done bool
	idx  int // which case fired
	v    interface{}
	ok   bool // received a value; false: the channel was closed
	sv   SyncVar
}

// waiter is a waitOp's place in one channel's queue.
type waiter struct {
	op  *waitOp
	idx int
	v   interface{} // to send
}

type simChan struct {
	keep         unsafe.Pointer
	cap          int
	buf          []simItem
	closed       bool
	closeSV      SyncVar
	recvSV       SyncVar // receives that made room
	recvq, sendq []*waiter
}

// chanError is the runtime error of a misused channel.
type chanError string

func (e chanError) Error() string { return string(e) }
func (e chanError) RuntimeError() {}

func (s *Sim) ch(p unsafe.Pointer, cp int) *simChan {
	if s.chans == nil {
		s.chans = map[unsafe.Pointer]*simChan{}
	}
	c := s.chans[p]
	if c == nil {
		c = &simChan{keep: p, cap: cp}
		s.chans[p] = c
	}
	return c
}

func chp[C any](c C) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&c)) }

func need(op string) {
	if cur == nil {
		panic("zzsim: channel " + op + " outside a simulated task")
	}
	S.Stats.ChanOps++
	S.yield(0, true)
}

func blockForever(why string) {
	var w WaitList
	for {
		w.Block(why)
		if Aborting() {
			return
		}
	}
}

// first returns the first live waiter that does not belong to the running
// task, and drops dead ones.
func first(q *[]*waiter) *waiter {
	for i := 0; i < len(*q); {
		w := (*q)[i]
		if w.op.done || w.op.t.state == stDone || w.op.t.killed {
			*q = append((*q)[:i:i], (*q)[i+1:]...)
			continue
		}
		return w
	}
	return nil
}

func (w *waiter) fire(v interface{}, ok bool) {
	w.op.done, w.op.idx, w.op.v, w.op.ok = true, w.idx, v, ok
	w.op.sv.Release()
	if w.op.t.state == stBlocked {
		w.op.t.state = stRunnable
	}
}

func (c *simChan) canSend() bool { return c.closed || len(c.buf) < c.cap || first(&c.recvq) != nil }
func (c *simChan) canRecv() bool { return c.closed || len(c.buf) > 0 || first(&c.sendq) != nil }

// doSend and doRecv perform an operation that is possible.
func (c *simChan) doSend(v interface{}) {
	if c.closed {
		panic(chanError("send on closed channel"))
	}
	if w := first(&c.recvq); w != nil {
		w.op.sv.Acquire()
		w.fire(v, true)
		return
	}
	c.recvSV.Acquire()
	it := simItem{v, &SyncVar{}}
	it.sv.Release()
	c.buf = append(c.buf, it)
}

func (c *simChan) doRecv() (interface{}, bool) {
	if len(c.buf) > 0 {
		it := c.buf[0]
		c.buf = c.buf[1:]
		it.sv.Acquire()
		c.recvSV.Release()
		if w := first(&c.sendq); w != nil {
			c.buf = append(c.buf, simItem{w.v, &w.op.sv})
			w.fire(nil, true)
		}
		return it.v, true
	}
	if w := first(&c.sendq); w != nil {
		w.op.sv.Acquire()
		w.fire(nil, true)
		return w.v, true
	}
	c.closeSV.Acquire()
	return nil, false
}

// wait parks the running task until its operation has been performed.
func (op *waitOp) wait(why string) {
	for !op.done {
		S.block(why, stBlocked)
		if Aborting() {
			return
		}
	}
	op.sv.Acquire()
}

func (c *simChan) send(v interface{}) {
	if c.canSend() {
		c.doSend(v)
		return
	}
	op := &waitOp{t: cur}
	op.sv.Release()
	c.sendq = append(c.sendq, &waiter{op: op, v: v})
	op.wait("channel send")
	if !op.ok && !Aborting() {
		panic(chanError("send on closed channel"))
	}
}

func (c *simChan) recv() (interface{}, bool) {
	if c.canRecv() {
		return c.doRecv()
	}
	op := &waitOp{t: cur}
	op.sv.Release()
	c.recvq = append(c.recvq, &waiter{op: op})
	op.wait("channel receive")
	return op.v, op.ok
}

// Snd returns the send function of a channel.
func Snd[T any](ch chan<- T) func(T) {
	return func(v T) {
		need("send")
		if ch == nil {
			blockForever("send on nil channel")
		}
		S.ch(chp(ch), cap(ch)).send(v)
	}
}

func as[T any](v interface{}) T {
	if v == nil {
		var z T
		return z
	}
	return v.(T)
}

// Recv is <-ch.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Recv2 is v, ok := <-ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	need("receive")
	if ch == nil {
		blockForever("receive from nil channel")
	}
	v, ok := S.ch(chp(ch), cap(ch)).recv()
	return as[T](v), ok
}

// CloseCh is close(ch).
func CloseCh[T any](ch chan<- T) {
	need("close")
	if ch == nil {
		panic(chanError("close of nil channel"))
	}
	c := S.ch(chp(ch), cap(ch))
	if c.closed {
		panic(chanError("close of closed channel"))
	}
	c.closed = true
	c.closeSV.Release()
	for _, q := range []*[]*waiter{&c.recvq, &c.sendq} {
		for w := first(q); w != nil; w = first(q) {
			w.fire(nil, false)
		}
	}
}

// ChLen is len(ch).
func ChLen[T any](ch <-chan T) int {
	if cur == nil {
		return len(ch)
	}
	return len(S.ch(chp(ch), cap(ch)).buf)
}

// ChRange is for v := range ch.
func ChRange[T any](ch <-chan T) func(yield func(T) bool) {
	return func(yield func(T) bool) {
		for {
			v, ok := Recv2(ch)
			if !ok || !yield(v) {
				return
			}
		}
	}
}

// SelCase is one case of a select statement.
type SelCase struct {
	c    *simChan
	send bool
	v    interface{}
}

// SelRecv and SelSend build cases.
func SelRecv[T any](ch <-chan T) SelCase {
	if ch == nil {
		return SelCase{}
	}
	return SelCase{c: S.ch(chp(ch), cap(ch))}
}
func SelSend[T any](ch chan<- T) func(T) SelCase {
	return func(v T) SelCase {
		if ch == nil {
			return SelCase{}
		}
		return SelCase{c: S.ch(chp(ch), cap(ch)), send: true, v: v}
	}
}

// SelVal converts the received value.
func SelVal[T any](ch <-chan T, v interface{}) T { return as[T](v) }

// Select picks a ready case by the seed.
func Select(hasDefault bool, cases ...SelCase) (int, interface{}, bool) {
	need("select")
	var ready []int
	for i, cs := range cases {
		if cs.c == nil {
			continue
		}
		if cs.send && cs.c.canSend() || !cs.send && cs.c.canRecv() {
			ready = append(ready, i)
		}
	}
	if len(ready) > 0 {
		k := 0
		if r := RuntimeRand(); r != nil {
			k = r.N(len(ready))
		}
		i := ready[k]
		if cases[i].send {
			cases[i].c.doSend(cases[i].v)
			return i, nil, false
		}
		v, ok := cases[i].c.doRecv()
		return i, v, ok
	}
	if hasDefault {
		return -1, nil, false
	}
	op := &waitOp{t: cur}
	op.sv.Release()
	any := false
	for i, cs := range cases {
		if cs.c == nil {
			continue
		}
		any = true
		w := &waiter{op: op, idx: i, v: cs.v}
		if cs.send {
			cs.c.sendq = append(cs.c.sendq, w)
		} else {
			cs.c.recvq = append(cs.c.recvq, w)
		}
	}
	if !any {
		blockForever("select with no cases")
	}
	op.wait("select")
	if Aborting() {
		return op.idx, nil, false
	}
	if cases[op.idx].send && !op.ok {
		panic(chanError("send on closed channel"))
	}
	return op.idx, op.v, op.ok
}
