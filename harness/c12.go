package main

import (
	"bufio"
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/adamcolton/parlex/examples/scalc"
	sim "github.com/adamcolton/parlex/zzsim"
	"github.com/adamcolton/parlex/zzsim/scalcmain"
	"github.com/adamcolton/parlex/zzsim/sos"
)

// Term is one session of the interactive calculator: the bytes of its input,
// how they are delivered, how the input ends, and from where output fails.
type Term struct {
	In    string `json:"in"`
	Pad   int    `json:"pad,omitempty"` // spaces put in place of the first \x00
	Cuts  []int  `json:"cuts"`          // size of each delivery; 0 is an empty read; the rest comes whole
	End   string `json:"end"`           // eof, eofdata, err, errdata
	Fail  int    `json:"fail"`          // output byte from which writes fail, -1 never
	Short bool   `json:"short,omitempty"`
}

func (t *Term) input() string {
	return strings.Replace(t.In, "\x00", strings.Repeat(" ", t.Pad), -1)
}

type termModel struct {
	out   string   // exact output for the complete lines
	at    []string // output due after n complete lines, including the next prompt
	exit  bool
	part  string // unterminated rest
	partA string // its answer
	ok    bool
	steps uint64
}

// answer says what the calculator makes of a line on a stack.
func (o *Oracle) answer(stack, line string) (ans, next string, steps uint64, ok bool) {
	key := "scalcline " + stack + "\x00" + line
	e, has := o.memo[key]
	if !has {
		e = &Exp{}
		o.memo[key] = e
		sim.SetMapOrder(0)
		sim.SetRuntimeRand(0)
		s := sim.New(nil)
		freshProcess()
		ts := s.Phase([]string{"solo"}, []func(){func() {
			sim.ResetPkgs(pkgFilter(map[string]bool{"scalc": true}))
			sim.OpStart(soloCap * 4)
			r := scalc.Eval(stack + " " + line)
			e.Steps = sim.OpSteps()
			if r == nil {
				e.S = "bad"
				return
			}
			var strs []string
			for _, f := range r {
				strs = append(strs, f.String())
			}
			e.S = "=" + strings.Join(strs, " ")
		}}, buildCap)
		if ts[0].Overrun || ts[0].Panic != nil || s.Deadlock != "" {
			e.Overrun = true
		}
		s.Close()
	}
	if e.Overrun {
		return "", "", 0, false
	}
	if e.S == "bad" {
		return "Bad input", stack, e.Steps, true
	}
	return e.S[1:], e.S[1:], e.Steps, true
}

func (o *Oracle) session(in string) *termModel {
	m := &termModel{ok: true}
	stack := ""
	b := &strings.Builder{}
	b.WriteString("> ")
	m.at = append(m.at, b.String())
	for {
		i := strings.IndexByte(in, '\n')
		if i < 0 {
			break
		}
		line := in[:i+1]
		in = in[i+1:]
		if line == "exit\n" {
			m.exit = true
			m.out = b.String()
			m.at = append(m.at, m.out)
			return m
		}
		a, next, st, ok := o.answer(stack, line)
		m.steps += st
		if !ok || len(next) > 200 {
			m.ok = false
			return m
		}
		stack = next
		b.WriteString(a + "\n> ")
		m.at = append(m.at, b.String())
	}
	m.out = b.String()
	m.part = in
	if in != "" {
		a, _, st, ok := o.answer(stack, in)
		m.steps += st
		if !ok {
			m.ok = false
		}
		m.partA = a
	}
	return m
}

// final says whether out is a right output of the whole session.
func (m *termModel) final(out string) bool {
	if m.exit {
		return out == m.out
	}
	// the prompt of a line that never comes may be followed by a line end, by
	// the answer to an unterminated rest, and by one more prompt
	rest, ok := strings.CutPrefix(out, m.out)
	if !ok {
		return false
	}
	if rest == "" || rest == "\n" {
		return true
	}
	if m.part != "" {
		if r, ok := strings.CutPrefix(rest, m.partA+"\n"); ok {
			return r == "" || r == "> " || r == "> \n"
		}
	}
	return false
}

func (m *termModel) couldStart(out string) bool {
	if strings.HasPrefix(m.out, out) {
		return true
	}
	if m.exit {
		return false
	}
	for _, tail := range []string{"\n", m.partA + "\n> \n"} {
		if tail == m.partA+"\n> \n" && m.part == "" {
			continue
		}
		if strings.HasPrefix(m.out+tail, out) {
			return true
		}
	}
	return false
}

// maxEndReads bounds how often a session may ask for more input after it was
// told that there is none.
const maxEndReads = 40

type ranOnPanic struct{}

// termSrc delivers the input as the run says.
type termSrc struct {
	t                         *Term
	in                        string
	pos, cut, zeros, endReads int
	ended                     bool
	note                      func(string)
}

func (x *termSrc) read(p []byte) (int, error) {
	t := x.t
	for x.cut < len(t.Cuts) && t.Cuts[x.cut] == 0 {
		x.cut++
		x.zeros++
		if x.zeros < 40 {
			x.note("empty read")
			return 0, nil
		}
	}
	x.zeros = 0
	if x.pos >= len(x.in) {
		x.ended = true
		x.endReads++
		if t.End == "err" || t.End == "errdata" {
			if x.endReads == 1 {
				x.note("read error")
			}
			return 0, errInput
		}
		if x.endReads == 1 {
			x.note("end of input")
		}
		return 0, io.EOF
	}
	n := len(x.in) - x.pos
	if x.cut < len(t.Cuts) {
		if t.Cuts[x.cut] < n {
			n = t.Cuts[x.cut]
			x.note("short read")
		}
		x.cut++
	}
	if n > len(p) {
		n = len(p)
	}
	copy(p, x.in[x.pos:x.pos+n])
	x.pos += n
	if x.pos >= len(x.in) {
		switch t.End {
		case "eofdata":
			x.ended = true
			x.endReads++
			x.note("end of input with data")
			return n, io.EOF
		case "errdata":
			x.ended = true
			x.endReads++
			x.note("read error with data")
			return n, errInput
		}
	}
	return n, nil
}

type readFunc func(p []byte) (int, error)

func (f readFunc) Read(p []byte) (int, error) { return f(p) }

// knownSession recognises the two recorded findings about the interactive
// calculator. It plays the session with exactly those two faults in it - each
// line is read through a new buffer, and the end of the input is not noticed -
// and marks the run as a known finding only if the real session did precisely
// that, answer by answer and read by read. Any other difference stays a
// violation.
func (o *Oracle) knownSession(res *Outcome, t *Term, in, got string, reads []int, endless, failing bool) {
	var b strings.Builder
	var at []int
	src := &termSrc{t: t, in: in, note: func(string) {}}
	stack, lost, done := "", false, false
	for !done && (b.Len() <= len(got) || src.endReads < 3) && len(at) <= len(reads)+maxEndReads {
		rd := bufio.NewReader(readFunc(func(p []byte) (int, error) {
			at = append(at, b.Len())
			return src.read(p)
		}))
		b.WriteString("> ")
		line, _ := rd.ReadString('\n')
		lost = lost || rd.Buffered() > 0
		if line == "exit\n" {
			done = true
			break
		}
		a, next, _, ok := o.answer(stack, line)
		if !ok || len(next) > 200 {
			res.Viol, res.Skip = nil, "a line cannot be evaluated on its own"
			return
		}
		stack = next
		b.WriteString(a + "\n")
	}
	switch {
	case failing:
		if !strings.HasPrefix(b.String(), got) || endless == done {
			return
		}
	case endless:
		if done || !strings.HasPrefix(b.String(), got) {
			return
		}
	case !done || got != b.String():
		return
	}
	if !failing {
		for i, n := range reads {
			if i < len(at) && at[i] != n {
				return
			}
		}
	}
	if lost {
		res.Known = append(res.Known, "lost-lines")
	}
	if endless && src.endReads > 0 {
		res.Known = append(res.Known, "runs-on")
	}
	for _, k := range res.Known {
		if known["C12"][k] == "" {
			res.Known = nil
		}
	}
	if len(res.Known) == 0 {
		return
	}
	res.KnownAs = res.Viol.Class + ": " + res.Viol.Msg
	res.Viol = nil
}

var errInput = errors.New("input/output error")

func (r *Run) execTerm(sp *Spec) *Outcome {
	out := &Outcome{Stats: RunStats{Faults: map[string]int{}}}
	t := sp.Term
	in := t.input()
	m := r.orc.session(in)
	if !m.ok {
		out.Skip = "a line cannot be evaluated on its own"
		return out
	}
	s := sim.New(sp.Sched.policy())
	budget := m.steps*10 + 300000 + uint64(len(in))*20
	s.DefaultBudget = budget
	freshProcess()
	sim.SetMapOrder(sp.MapOrd)
	sim.SetRuntimeRand(sp.RtSeed)

	var got strings.Builder
	src := &termSrc{t: t, in: in, note: func(k string) { out.Stats.Faults[k]++ }}
	failing := false
	var reads []int
	fail := func(class, f string, a ...interface{}) {
		if out.Viol == nil {
			out.Viol = &Viol{class, fmt.Sprintf(f, a...)}
		}
	}
	finished, ranOn := false, false
	sos.Args = []string{"scalc"}
	sos.Stdin.R = func(p []byte) (int, error) {
		if len(p) == 0 {
			return 0, nil
		}
		// the reader has to wait here: everything due by now must be out
		sim.Stall()
		reads = append(reads, got.Len())
		if !failing && !finished {
			lines := strings.Count(in[:src.pos], "\n")
			if m.exit && lines >= len(m.at)-1 {
				lines = len(m.at) - 1
			}
			if want := m.at[min(lines, len(m.at)-1)]; got.String() != want && (!src.ended || !m.final(got.String())) {
				fail("late", "waiting for input after %d complete lines, the output is %s", lines, diff(want, got.String()))
			}
		}
		if src.endReads > maxEndReads {
			ranOn = true
			panic(ranOnPanic{})
		}
		return src.read(p)
	}
	sos.Stdout.W = func(p []byte) (int, error) {
		if t.Fail >= 0 && (failing || got.Len()+len(p) > t.Fail) {
			k := 0
			if !failing && t.Short {
				k = t.Fail - got.Len()
				got.Write(p[:k])
				out.Stats.Faults["short write"]++
			}
			failing = true
			out.Stats.Faults["write error"]++
			return k, errInput
		}
		got.Write(p)
		return len(p), nil
	}
	sos.Stderr.W = func(p []byte) (int, error) { return len(p), nil }
	ts := s.Phase([]string{"session"}, []func(){func() {
		sim.ResetPkgs(pkgFilter(map[string]bool{"scalc": true, "scalcmain": true}))
		sim.OpStart(budget)
		defer func() {
			finished = true
			if v := recover(); v != nil {
				if _, ok := v.(ranOnPanic); ok {
					return
				}
				if _, ok := v.(sos.ExitCode); !ok {
					fail("panic", "the session ends with %s", renderPanic(v))
				}
			}
		}()
		scalcmain.SimMain()
	}}, budget)
	sos.Stdin.R, sos.Stdout.W, sos.Stderr.W = nil, nil, nil
	defer s.Close()
	o := got.String()
	endless := ranOn || ts[0].Overrun || bgOverrun(s)
	if endless {
		switch {
		case src.endReads > 0:
			fail("endless", "the session runs on after its input has ended (%d reads at the end, output %d bytes): %s", src.endReads, len(o), diff(m.out, o))
		default:
			fail("endless", "the session does not finish: %s", diff(m.out, o))
		}
	} else if s.Deadlock != "" {
		fail("deadlock", "the session is blocked: %s", s.Deadlock)
	} else if t.Fail >= 0 && failing {
		if !m.couldStart(o) {
			fail("output", "before writes failed the session wrote %s", diff(m.out, o))
		}
	} else if !m.final(o) {
		fail("output", "the session wrote %s", diff(m.out, o))
	}
	if out.Viol != nil && out.Viol.Class != "panic" && out.Viol.Class != "deadlock" {
		r.orc.knownSession(out, t, in, o, reads, endless, failing)
	}
	out.Stats.Ops = len(m.at)
	out.Stats.Sim = s.Stats
	out.Stats.Hash = sim.Mix(s.Hash(), sim.HashStr(in), sim.HashStr(fmt.Sprint(t.Cuts, t.End, t.Fail, t.Short)))
	out.Stats.Clock = s.Clock
	out.Trace = s.Trace
	out.Dig = sim.Mix(s.Hash(), sim.HashStr(o), s.Stats.Yields)
	return out
}

func bgOverrun(s *sim.Sim) bool {
	for _, t := range s.Background() {
		if t.Overrun {
			return true
		}
	}
	return false
}

var termLines = []string{"1", "2", "3 4", "+", "1 2 +", "*", "-5", "abs", "--", "1.5", "2.25 *", "swap", "drop", "clear", "sum", "len", "avg", "max", "min", "/", "^", "%", "x", "1 +", "garbage!", "", " ", "\t7 ", "(", "( 1 2 ) sum", "10 3 /", "exit now", "exitx", "=", ">", "8 9 cmpr", "first", "last", "1 2 3 ?", "é", "> 1"}

func genC12(r rng, o *Oracle) *Spec {
	t := &Term{Fail: -1, End: pick(r, []string{"eof", "eof", "eof", "eofdata", "err", "errdata"})}
	sp := &Spec{Term: t, Fam: "session", Sched: Sched{Mode: "none"}}
	stack := ""
	n := r.N(7)
	if r.P(1, 10) {
		n = 10 + r.N(15)
	}
	var in strings.Builder
	exit := -1
	if r.P(1, 3) {
		exit = r.N(n + 1)
	}
	for i := 0; i < n; i++ {
		if i == exit {
			in.WriteString("exit\n")
		}
		for try := 0; try < 6; try++ {
			l := pick(r, termLines) + "\n"
			if len(stack) > 12 && r.P(1, 2) {
				l = pick(r, []string{"clear\n", "sum\n", "drop\n", "max\n"})
			}
			_, next, st, ok := o.answer(stack, l)
			if !ok || st > soloCap/2 || len(next) > 40 {
				continue
			}
			stack = next
			in.WriteString(l)
			break
		}
	}
	if exit >= n {
		in.WriteString("exit\n")
		if r.P(1, 3) {
			in.WriteString("1 2\n3\n")
		}
	}
	if r.P(1, 4) {
		in.WriteString(pick(r, []string{"1", "1 2", "exi", "exit", "x", " ", "+"}))
	}
	t.In = in.String()
	if r.P(1, 25) && len(t.In) > 0 {
		// one very long line: padding within a line
		if i := strings.IndexByte(t.In, '\n'); i > 0 && !strings.HasPrefix(t.In, "exit\n") {
			t.In = t.In[:i] + "\x00" + t.In[i:]
			t.Pad = pick(r, []int{4000, 4090, 5000, 66000})
		}
	}
	ln := len(t.input())
	switch r.N(7) {
	case 0: // everything at once
	case 1: // byte by byte
		if ln < 3000 {
			for i := 0; i < ln; i++ {
				t.Cuts = append(t.Cuts, 1)
			}
		}
	case 2, 6: // line by line
		for _, l := range strings.SplitAfter(t.input(), "\n") {
			t.Cuts = append(t.Cuts, len(l))
		}
	default:
		for left := ln; left > 0 && len(t.Cuts) < 60; {
			k := 1 + r.N(12)
			t.Cuts = append(t.Cuts, k)
			left -= k
		}
	}
	if r.P(1, 4) {
		for j := 1 + r.N(4); j > 0; j-- {
			i := r.N(len(t.Cuts) + 1)
			t.Cuts = append(t.Cuts[:i], append([]int{0}, t.Cuts[i:]...)...)
		}
	}
	if r.P(1, 4) {
		t.Fail = r.N(30)
		t.Short = r.P(1, 2)
	}
	if r.P(1, 3) {
		sp.RtSeed = 1 + r.U64()%1000000
		sp.Sched = sched(r, 3000)
	}
	return sp
}
