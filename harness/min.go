package main

import (
	"strings"
	"time"

	sim "github.com/adamcolton/parlex/zzsim"
)

// minimiser shrinks a failing spec while a violation of the same class persists.
type minimiser struct {
	r     *Run
	class string
	best  *Spec
	out   *Outcome
	until time.Time
	tries int
}

func (m *minimiser) fails(sp *Spec) *Outcome {
	m.tries++
	o := m.r.exec(sp)
	if o.Viol != nil && o.Viol.Class == m.class {
		return o
	}
	return nil
}

// try accepts sp if it fails, under its own schedule or a few others.
func (m *minimiser) try(sp *Spec) bool {
	if time.Now().After(m.until) {
		return false
	}
	if o := m.fails(sp); o != nil {
		m.best, m.out = sp, o
		return true
	}
	if !concurrent(sp) || sp.Sched.Mode == "replay" {
		return false
	}
	n := 6
	if m.class == "race" {
		n = 1
	}
	for i := 0; i < n && time.Now().Before(m.until); i++ {
		c := clone(sp)
		r := sim.NewRng(sim.Mix(sp.Seed, uint64(i), 77))
		c.Sched = sched(r, 2000)
		if i%2 == 0 {
			c.Sched = Sched{Mode: "rand", Seed: r.U64(), Num: 1, Den: 4}
		}
		if o := m.fails(c); o != nil {
			m.best, m.out = c, o
			return true
		}
	}
	return false
}

func concurrent(sp *Spec) bool {
	return len(sp.Tasks) > 1 || sp.Pipe != nil && len(sp.Pipe.Calls) > 1
}

func drop[T any](xs []T, i int) []T {
	out := append([]T(nil), xs[:i]...)
	return append(out, xs[i+1:]...)
}

// shrinkList drops chunks of a list of n elements; del removes [i,j).
func (m *minimiser) shrinkList(n func(*Spec) int, del func(sp *Spec, i, j int)) bool {
	any := false
	for size := n(m.best); size >= 1; size /= 2 {
		for i := 0; i < n(m.best); {
			j := min(i+size, n(m.best))
			c := clone(m.best)
			del(c, i, j)
			if m.try(c) {
				any = true
			} else {
				i += size
			}
			if time.Now().After(m.until) {
				return any
			}
		}
	}
	return any
}

func cutRange[T any](xs []T, i, j int) []T {
	return append(append([]T(nil), xs[:i]...), xs[j:]...)
}

func eachOp(sp *Spec, f func(*Op)) {
	var walk func(o *Op)
	walk = func(o *Op) {
		f(o)
		if o.F != nil && o.F.Sub != nil {
			walk(o.F.Sub)
		}
	}
	for i := range sp.Warm {
		walk(&sp.Warm[i])
	}
	for t := range sp.Tasks {
		for i := range sp.Tasks[t] {
			walk(&sp.Tasks[t][i])
		}
	}
	for i := range sp.Post {
		walk(&sp.Post[i])
	}
}

func nthOp(sp *Spec, n int) *Op {
	var r *Op
	k := 0
	eachOp(sp, func(o *Op) {
		if k == n {
			r = o
		}
		k++
	})
	return r
}

func opCount(sp *Spec) int {
	k := 0
	eachOp(sp, func(*Op) { k++ })
	return k
}

func (m *minimiser) tryEdit(f func(sp *Spec) bool) bool {
	c := clone(m.best)
	if !f(c) {
		return false
	}
	return m.try(c)
}

func (m *minimiser) run() {
	for round := 0; round < 4; round++ {
		ch := false
		or := func(b bool) {
			if b {
				ch = true
			}
		}
		if m.best.Pipe != nil {
			or(m.shrinkList(func(s *Spec) int { return len(s.Pipe.Calls) }, func(s *Spec, i, j int) { s.Pipe.Calls = cutRange(s.Pipe.Calls, i, j) }))
			for t := range m.best.Pipe.Calls {
				or(m.shrinkList(func(s *Spec) int { return len(s.Pipe.Calls[t]) }, func(s *Spec, i, j int) { s.Pipe.Calls[t] = cutRange(s.Pipe.Calls[t], i, j) }))
				for i := range m.best.Pipe.Calls[t] {
					or(m.tryEdit(func(s *Spec) bool {
						c := &s.Pipe.Calls[t][i]
						if c.Kind == "" {
							return false
						}
						c.Kind, c.Stage, c.Sub = "", "", 0
						return true
					}))
				}
			}
			for i := range m.best.Pipe.Runs {
				or(m.tryEdit(func(s *Spec) bool {
					x := &s.Pipe.Runs[i]
					if x.N <= 1 && x.Errs == nil && !x.NoTree {
						return false
					}
					*x = PScr{N: 1, Red: make([]int, len(x.Red))}
					return true
				}))
				or(m.shrinkList(func(s *Spec) int { return len(s.Pipe.Runs[i].Errs) }, func(s *Spec, a, b int) { s.Pipe.Runs[i].Errs = cutRange(s.Pipe.Runs[i].Errs, a, b) }))
			}
			or(m.shrinkList(func(s *Spec) int { return len(s.Pipe.Reds) }, func(s *Spec, i, j int) {
				s.Pipe.Reds = cutRange(s.Pipe.Reds, i, j)
				for k := range s.Pipe.Runs {
					if j <= len(s.Pipe.Runs[k].Red) {
						s.Pipe.Runs[k].Red = cutRange(s.Pipe.Runs[k].Red, i, j)
					}
				}
			}))
		}
		if m.best.Term != nil {
			or(m.shrinkList(func(s *Spec) int { return len(strings.SplitAfter(s.Term.In, "\n")) }, func(s *Spec, i, j int) {
				s.Term.In = strings.Join(cutRange(strings.SplitAfter(s.Term.In, "\n"), i, j), "")
			}))
			or(m.tryEdit(func(s *Spec) bool { x := len(s.Term.Cuts) > 0; s.Term.Cuts = nil; return x }))
			or(m.shrinkList(func(s *Spec) int { return len(s.Term.Cuts) }, func(s *Spec, i, j int) { s.Term.Cuts = cutRange(s.Term.Cuts, i, j) }))
			or(m.tryEdit(func(s *Spec) bool { x := s.Term.Fail >= 0; s.Term.Fail = -1; s.Term.Short = false; return x }))
			or(m.tryEdit(func(s *Spec) bool { x := s.Term.End != "eof"; s.Term.End = "eof"; return x }))
		}
		or(m.tryEdit(func(s *Spec) bool { x := len(s.Post) > 0; s.Post = nil; return x }))
		or(m.tryEdit(func(s *Spec) bool { x := len(s.Warm) > 0; s.Warm = nil; return x }))
		or(m.shrinkList(func(s *Spec) int { return len(s.Warm) }, func(s *Spec, i, j int) { s.Warm = cutRange(s.Warm, i, j) }))
		or(m.shrinkList(func(s *Spec) int { return len(s.Tasks) }, func(s *Spec, i, j int) { s.Tasks = cutRange(s.Tasks, i, j) }))
		for t := 0; t < len(m.best.Tasks); t++ {
			or(m.shrinkList(func(s *Spec) int { return len(s.Tasks[t]) }, func(s *Spec, i, j int) { s.Tasks[t] = cutRange(s.Tasks[t], i, j) }))
		}
		or(m.shrinkList(func(s *Spec) int { return len(s.Post) }, func(s *Spec, i, j int) { s.Post = cutRange(s.Post, i, j) }))
		or(m.shrinkList(func(s *Spec) int { return len(s.Setup) }, func(s *Spec, i, j int) { s.Setup = cutRange(s.Setup, i, j) }))
		or(m.shrinkList(func(s *Spec) int { return len(s.Build) }, func(s *Spec, i, j int) { s.Build = cutRange(s.Build, i, j) }))
		or(m.tryEdit(func(s *Spec) bool { x := s.RtSeed != 0; s.RtSeed = 0; return x }))
		or(m.tryEdit(func(s *Spec) bool { x := s.MapOrd != 0; s.MapOrd = 0; return x }))
		or(m.tryEdit(func(s *Spec) bool { x := s.MapOrd > 1; s.MapOrd = 1; return x }))
		or(m.tryEdit(func(s *Spec) bool { x := s.Sched.Slow != 0; s.Sched.Slow = 0; return x }))
		for i := 0; i < opCount(m.best); i++ {
			or(m.tryEdit(func(s *Spec) bool { o := nthOp(s, i); x := o.F != nil; o.F = nil; return x }))
			if i >= opCount(m.best) {
				break
			}
			or(m.tryEdit(func(s *Spec) bool { o := nthOp(s, i); x := o.Rep > 1; o.Rep = 0; return x }))
			or(m.tryEdit(func(s *Spec) bool { o := nthOp(s, i); x := o.Rep > 2; o.Rep /= 2; return x }))
			switch nthOp(m.best, i).K {
			case "lex", "lexerrs", "lexstr", "lexlist", "run", "run2", "json", "math", "scalc", "scalcp":
				or(m.shrinkList(func(s *Spec) int { return len([]rune(nthOp(s, i).S)) }, func(s *Spec, a, b int) {
					o := nthOp(s, i)
					o.S = string(cutRange([]rune(o.S), a, b))
				}))
			}
			if in := nthOp(m.best, i).In; in != nil {
				or(m.shrinkInput(func(s *Spec) *Input { return nthOp(s, i).In }))
			}
		}
		for i := range m.best.Inputs {
			or(m.shrinkInput(func(s *Spec) *Input { return &s.Inputs[i] }))
		}
		for i := range m.best.Defs {
			or(m.tryEdit(func(s *Spec) bool { x := s.Defs[i].K != "none"; s.Defs[i] = Def{K: "none"}; return x }))
			if m.best.Defs[i].K == "comb" {
				or(m.shrinkList(func(s *Spec) int { return len(s.Defs[i].S) }, func(s *Spec, a, b int) { s.Defs[i].S = cutRange(s.Defs[i].S, a, b) }))
			}
		}
		if !ch || time.Now().After(m.until) {
			break
		}
	}
	// fix the schedule as a list of switches, then drop the ones not needed
	if concurrent(m.best) || len(m.out.Trace) > 0 {
		c := clone(m.best)
		c.Sched = Sched{Mode: "replay", Trace: m.out.Trace}
		if len(c.Build) > 1 {
			return
		}
		if o := m.fails(c); o != nil {
			m.best, m.out = c, o
			if len(c.Sched.Trace) < 4000 {
				m.until = m.until.Add(5 * time.Second)
				m.shrinkList(func(s *Spec) int { return len(s.Sched.Trace) }, func(s *Spec, i, j int) { s.Sched.Trace = cutRange(s.Sched.Trace, i, j) })
			}
		}
	}
}

func (m *minimiser) shrinkInput(get func(*Spec) *Input) bool {
	ch := m.shrinkList(func(s *Spec) int { return len(get(s).Toks) }, func(s *Spec, i, j int) {
		in := get(s)
		in.Toks = cutRange(in.Toks, i, j)
		if in.Toks == nil {
			in.Toks = []Tok{}
		}
	})
	if m.tryEdit(func(s *Spec) bool { x := get(s).Cb; get(s).Cb = false; return x }) {
		ch = true
	}
	if get(m.best).Tree == nil {
		return ch
	}
	for i := 0; i < countNodes(get(m.best).Tree) && i < 200; i++ {
		if m.tryEdit(func(s *Spec) bool {
			n := nthNode(get(s).Tree, i)
			x := len(n.C) > 0
			n.C = nil
			return x
		}) {
			ch = true
		}
		if i >= countNodes(get(m.best).Tree) {
			break
		}
		if m.shrinkList(func(s *Spec) int {
			n := nthNode(get(s).Tree, i)
			if n == nil {
				return 0
			}
			return len(n.C)
		}, func(s *Spec, a, b int) {
			n := nthNode(get(s).Tree, i)
			n.C = cutRange(n.C, a, b)
		}) {
			ch = true
		}
	}
	return ch
}

func countNodes(n *Node) int {
	k := 1
	for _, c := range n.C {
		k += countNodes(c)
	}
	return k
}

func nthNode(n *Node, i int) *Node {
	k := 0
	var f func(n *Node) *Node
	f = func(n *Node) *Node {
		if k == i {
			return n
		}
		k++
		for _, c := range n.C {
			if r := f(c); r != nil {
				return r
			}
		}
		return nil
	}
	return f(n)
}
