package main

import (
	"errors"
	"fmt"

	"github.com/adamcolton/parlex"
	"github.com/adamcolton/parlex/lexeme"
	"github.com/adamcolton/parlex/symbol/stringsymbol"
	"github.com/adamcolton/parlex/tree"
	sim "github.com/adamcolton/parlex/zzsim"
)

// Pipe is a run of parlex.Run and Runner.Run over stages that record what
// they are given and what they produce. The stages are either scripted, so
// that they fail as told, or the library's own.
type Pipe struct {
	Reds  []bool   `json:"reds,omitempty"`  // scripted: which reducers are non-nil
	Same  []int    `json:"same,omitempty"`  // per reducer: i+1 if it is the very same as reducer i
	Runs  []PScr   `json:"runs,omitempty"`  // scripted: what the stages do for an input
	Real  []Def    `json:"real,omitempty"`  // or the library's stages
	Texts []string `json:"texts,omitempty"` // inputs for those
	RC    []int    `json:"rc,omitempty"`    // lexer, parser, reducers (-1: nil)
	// clients: each call is an index into Runs or Texts; negative (-1-i): by
	// the package function instead of the runner
	Calls [][]PCall `json:"calls"`
}

// PCall is one run.
type PCall struct {
	N     int    `json:"n"`
	Func  bool   `json:"func,omitempty"`  // parlex.Run rather than Runner.Run
	Stage string `json:"stage,omitempty"` // where the fault strikes
	Kind  string `json:"kind,omitempty"`  // panic, reenter, stall
	Sub   int    `json:"sub,omitempty"`
}

// PScr scripts the stages for one input.
type PScr struct {
	NilLex bool  `json:"nil_lex,omitempty"`
	N      int   `json:"n"`              // lexemes
	Errs   []int `json:"errs,omitempty"` // positions of error lexemes
	NoTree bool  `json:"no_tree,omitempty"`
	Red    []int `json:"red,omitempty"` // per reducer: 0 new node, 1 the same node, 2 nothing
	Own    bool  `json:"own,omitempty"` // lexemes that are values rather than pointers
	Pos    int   `json:"pos,omitempty"` // how the lexemes are positioned
}

type pEvent struct {
	stage string
	i     int
	in    interface{} // string, []parlex.Lexeme, parlex.ParseNode
	out   interface{}
	done  bool
}

type pRun struct {
	input  string
	scr    *PScr
	call   *PCall
	ev     []*pEvent
	panicV interface{}
	fired  bool
	sub    func(int)
	depth  int
	fns    *RunStats
}

type ownErr struct {
	parlex.Lexeme
	msg string
}

func (e *ownErr) Error() string { return e.msg }

// ownVal is a lexeme that is not a pointer.
type ownVal struct {
	k, v string
	l, c int
}

func (o ownVal) Kind() parlex.Symbol { return stringsymbol.Symbol(o.k) }
func (o ownVal) Value() string       { return o.v }
func (o ownVal) Pos() (int, int)     { return o.l, o.c }

type ownErrVal struct {
	ownVal
	msg string
}

func (e ownErrVal) Error() string { return e.msg }

func curPRun() *pRun {
	if t := sim.Cur(); t != nil {
		if c, ok := t.Ctx.(*pRun); ok {
			return c
		}
	}
	return nil
}

// fault strikes when the named stage is entered.
func (r *pRun) fault(stage string) {
	sim.Pause()
	if r == nil || r.call == nil || r.call.Stage != stage || r.fired {
		return
	}
	r.fired = true
	r.fns.Faults[r.call.Kind]++
	switch r.call.Kind {
	case "panic":
		r.panicV = sentinelFor(uint64(len(r.input)+7*len(r.call.Stage)), len(r.ev))
		panic(r.panicV)
	case "stall":
		sim.Stall()
	case "reenter":
		if r.sub != nil {
			r.sub(r.call.Sub)
		}
	}
}

func (r *pRun) enter(stage string, i int, in interface{}) *pEvent {
	e := &pEvent{stage: stage, i: i, in: in}
	if r != nil {
		r.ev = append(r.ev, e)
	}
	return e
}

type recLexer struct{ real parlex.Lexer }

func (l *recLexer) Lex(s string) []parlex.Lexeme {
	r := curPRun()
	e := r.enter("lexer", 0, s)
	r.fault("lex")
	var out []parlex.Lexeme
	if l.real != nil {
		out = l.real.Lex(s)
	} else if r != nil && !r.scr.NilLex {
		out = make([]parlex.Lexeme, r.scr.N, r.scr.N+3)
		for i := range out {
			ln, col := i/4+1, i%4
			switch r.scr.Pos {
			case 1: // unset
				ln, col = 0, 0
			case 2: // backwards
				ln, col = r.scr.N-i, 4-i%4
			case 3: // any
				ln, col = i*7919%13-3, i*104729%17-2
			}
			if r.scr.Own && i%3 != 0 {
				out[i] = ownVal{"k" + fmt.Sprint(i%5), fmt.Sprint(s, "#", i), ln, col}
			} else {
				out[i] = lexeme.New(stringsymbol.Symbol("k"+fmt.Sprint(i%5))).Set(fmt.Sprint(s, "#", i)).At(ln, col)
			}
		}
		for j, p := range r.scr.Errs {
			if p >= len(out) {
				continue
			}
			msg := fmt.Sprintf("%s bad %d", s, j)
			if v, ok := out[p].(ownVal); ok {
				out[p] = ownErrVal{v, msg}
			} else {
				out[p] = &ownErr{out[p], msg}
			}
		}
		if r.scr.NoTree {
			r.fns.Faults["stage failure"]++
		}
		if len(r.scr.Errs) > 0 {
			r.fns.Faults["error lexemes"]++
		}
	} else if r != nil {
		r.fns.Faults["no lexemes"]++
	}
	// a copy of what was produced: the elements must arrive unchanged
	e.out = append([]parlex.Lexeme(nil), out...)
	if out == nil {
		e.out = []parlex.Lexeme(nil)
	} else if len(out) == 0 {
		e.out = []parlex.Lexeme{}
	}
	e.done = true
	sim.Pause()
	return out
}

type recParser struct{ real parlex.Parser }

func (p *recParser) Parse(ls []parlex.Lexeme) parlex.ParseNode {
	r := curPRun()
	e := r.enter("parser", 0, append([]parlex.Lexeme(nil), ls...))
	r.fault("parse")
	var out parlex.ParseNode
	if p.real != nil {
		out = p.real.Parse(ls)
	} else if r != nil && !r.scr.NoTree {
		out = &tree.PN{Lexeme: lexeme.New(stringsymbol.Symbol("T")).Set(r.input)}
	}
	e.out, e.done = out, true
	sim.Pause()
	return out
}

type recReducer struct {
	i    int
	real parlex.Reducer
}

// Can is advice to clients that reduce by hand; a pipeline runs its reducers
// whatever it says.
func (d *recReducer) Can(n parlex.ParseNode) bool {
	if d.real != nil {
		return d.real.Can(n)
	}
	if r := curPRun(); r != nil {
		return (len(r.input)+d.i+r.scr.N)%3 != 0
	}
	return true
}
func (d *recReducer) Reduce(n parlex.ParseNode) parlex.ParseNode {
	r := curPRun()
	e := r.enter("reducer", d.i, n)
	r.fault(fmt.Sprint("red", d.i))
	var out parlex.ParseNode
	if d.real != nil {
		out = d.real.Reduce(n)
	} else if r != nil {
		switch r.scr.Red[d.i] {
		case 0:
			out = &tree.PN{Lexeme: lexeme.New(stringsymbol.Symbol("R")).Set(fmt.Sprint(r.input, d.i))}
		case 1:
			out = n
		default:
			r.fns.Faults["stage failure"]++
		}
	}
	e.out, e.done = out, true
	sim.Pause()
	return out
}

// monitor checks one run against the contract, given what the stages really
// produced.
func (r *pRun) monitor(reds []parlex.Reducer, t parlex.ParseNode, err error) *Viol {
	bad := func(f string, a ...interface{}) *Viol {
		return &Viol{"pipeline", fmt.Sprintf("run of %q: ", cut(r.input)) + fmt.Sprintf(f, a...)}
	}
	ev := r.ev
	i := 0
	next := func(stage string, k int) *pEvent {
		if i < len(ev) && ev[i].stage == stage && ev[i].i == k {
			i++
			return ev[i-1]
		}
		return nil
	}
	was := func() string {
		if i < len(ev) {
			return fmt.Sprintf("%s %d was invoked", ev[i].stage, ev[i].i)
		}
		return "the run ended"
	}
	failed := func(stage string, want error) *Viol {
		if i < len(ev) {
			return bad("the %s failed but %s", stage, was())
		}
		if !isNilNode(t) {
			return bad("the %s failed but a tree came back", stage)
		}
		if t != nil {
			return bad("the %s failed but a node that is not nil came back", stage)
		}
		if err == nil {
			return bad("the %s failed but no error came back", stage)
		}
		if !errors.Is(err, want) || err.Error() != want.Error() {
			return bad("the %s failed but the error is %q, not %q", stage, err.Error(), want.Error())
		}
		return nil
	}
	e := next("lexer", 0)
	if e == nil {
		return bad("the lexer should come first but %s", was())
	}
	if e.in.(string) != r.input {
		return bad("the lexer was given %q", cut(e.in.(string)))
	}
	ls := e.out.([]parlex.Lexeme)
	if ls == nil {
		return failed("lexer", parlex.ErrCouldNotLex)
	}
	for _, l := range ls {
		le, ok := l.(parlex.LexError)
		if !ok {
			continue
		}
		if i < len(ev) {
			return bad("there is an error lexeme but %s", was())
		}
		if t != nil {
			return bad("there is an error lexeme but a tree came back")
		}
		if err == nil {
			return bad("there is an error lexeme but no error came back")
		}
		var got parlex.LexError
		if !errors.As(err, &got) {
			return bad("there is an error lexeme but the error that came back is not a LexError: %v", err)
		}
		l1, c1 := le.Pos()
		l2, c2 := got.Pos()
		if err.Error() != le.Error() || got.Kind().String() != le.Kind().String() || got.Value() != le.Value() || l1 != l2 || c1 != c2 {
			return bad("the error that came back (%v) is not the first error lexeme (%v)", err, le)
		}
		return nil
	}
	e = next("parser", 0)
	if e == nil {
		return bad("the parser should come next but %s", was())
	}
	in := e.in.([]parlex.Lexeme)
	if len(in) != len(ls) {
		return bad("the parser was given %d lexemes, the lexer gave %d", len(in), len(ls))
	}
	for j := range in {
		if in[j] != ls[j] {
			return bad("the parser was not given the lexemes the lexer gave (lexeme %d)", j)
		}
	}
	node, _ := e.out.(parlex.ParseNode)
	if isNilNode(node) {
		return failed("parser", parlex.ErrCouldNotParse)
	}
	for k := range reds {
		if reds[k] == nil {
			continue
		}
		e = next("reducer", reds[k].(*recReducer).i)
		if e == nil {
			return bad("reducer %d should come next but %s", k, was())
		}
		if x, _ := e.in.(parlex.ParseNode); x != node {
			return bad("reducer %d was not given the tree the previous stage gave", k)
		}
		node, _ = e.out.(parlex.ParseNode)
		if isNilNode(node) {
			return failed(fmt.Sprintf("reducer %d", k), parlex.ErrCouldNotReduce)
		}
	}
	if i < len(ev) {
		return bad("every stage was done but %s", was())
	}
	if err != nil {
		return bad("every stage succeeded but the error is %q", err.Error())
	}
	if t != node {
		return bad("every stage succeeded but the tree is not the one the last stage gave")
	}
	return nil
}

func (r *Run) execPipe(sp *Spec) *Outcome {
	out := &Outcome{Stats: RunStats{Faults: map[string]int{}}}
	p := sp.Pipe
	s := sim.New(sp.Sched.policy())
	s.DefaultBudget = buildCap
	freshProcess()
	sim.SetMapOrder(sp.MapOrd)
	sim.SetRuntimeRand(sp.RtSeed)
	w := &World{defs: p.Real}
	var lx parlex.Lexer
	var pr parlex.Parser
	var reds []parlex.Reducer
	var runner *parlex.Runner
	ts := s.Phase([]string{"setup"}, []func(){func() {
		used := map[string]bool{}
		for i := range w.defs {
			defPkgs(&w.defs[i], func(x string) { used[x] = true })
		}
		sim.ResetPkgs(pkgFilter(used))
		if len(p.Real) > 0 {
			w.build(nil)
			l, q := w.lexer(p.RC[0]), w.parser(p.RC[1])
			if l == nil || q == nil {
				return
			}
			lx, pr = &recLexer{l}, &recParser{q}
			for i, x := range w.reducers(p.RC[2:]) {
				if x == nil {
					reds = append(reds, nil)
				} else {
					reds = append(reds, &recReducer{i, x})
				}
			}
		} else {
			lx, pr = &recLexer{}, &recParser{}
			for i, on := range p.Reds {
				if i < len(p.Same) && p.Same[i] > 0 && p.Same[i] <= i {
					reds = append(reds, reds[p.Same[i]-1])
				} else if on {
					reds = append(reds, &recReducer{i: i})
				} else {
					reds = append(reds, nil)
				}
			}
		}
		runner = parlex.New(lx, pr, reds...)
	}}, buildCap)
	defer s.Close()
	if runner == nil || ts[0].Panic != nil || ts[0].Overrun {
		out.Skip = "stages cannot be built"
		return out
	}
	dig := uint64(0)
	var do func(c *PCall, depth int)
	do = func(c *PCall, depth int) {
		x := &pRun{call: c, depth: depth, fns: &out.Stats}
		if len(p.Real) > 0 {
			x.input = p.Texts[c.N%len(p.Texts)]
		} else {
			x.input = fmt.Sprintf("run %d", c.N)
			x.scr = &p.Runs[c.N%len(p.Runs)]
		}
		if depth < 3 {
			x.sub = func(n int) { do(&PCall{N: n, Func: n%2 == 0}, depth+1) }
		}
		t := sim.Cur()
		saved := t.Ctx
		t.Ctx = x
		a, b := sim.SaveOp()
		sim.OpStart(soloCap)
		var tr parlex.ParseNode
		var err error
		var pv interface{}
		func() {
			defer func() { pv = recover() }()
			if c.Func {
				tr, err = parlex.Run(x.input, lx, pr, reds...)
			} else {
				tr, err = runner.Run(x.input)
			}
		}()
		sim.OpStart(soloCap)
		t.Ctx = saved
		out.Stats.Ops++
		var v *Viol
		if x.panicV != nil {
			if pv != x.panicV {
				v = &Viol{"swallowed", fmt.Sprintf("run of %q: a stage's panic did not reach the caller, who got %v, %v, %v", cut(x.input), isNilNode(tr), err, pv)}
			}
		} else if pv != nil {
			// a stage of the library may panic by itself; scripted ones never do
			last := (*pEvent)(nil)
			if len(x.ev) > 0 {
				last = x.ev[len(x.ev)-1]
			}
			if last == nil || last.done || len(p.Real) == 0 {
				v = &Viol{"pipeline", fmt.Sprintf("run of %q panics: %s", cut(x.input), renderPanic(pv))}
			}
		} else {
			v = x.monitor(reds, tr, err)
		}
		if v != nil && out.Viol == nil {
			out.Viol = v
		}
		for _, e := range x.ev {
			dig = sim.Mix(dig, sim.HashStr(e.stage), uint64(e.i))
		}
		sim.RestoreOp(a, b)
	}
	var fns []func()
	var names []string
	for ci := range p.Calls {
		cs := p.Calls[ci]
		names = append(names, fmt.Sprint("client ", ci))
		fns = append(fns, func() {
			for i := range cs {
				do(&cs[i], 0)
			}
		})
	}
	ts = s.Phase(names, fns, soloCap)
	for _, t := range ts {
		if t.Overrun && out.Viol == nil {
			if len(p.Real) > 0 {
				out.Skip = "a stage of the library does not finish"
			} else {
				out.Viol = &Viol{"overrun", "a run does not finish"}
			}
		} else if t.Panic != nil && out.Viol == nil {
			out.Viol = &Viol{"harness", fmt.Sprintf("harness panic: %v", t.Panic)}
		}
	}
	if out.Viol == nil && s.Stuck != "" {
		out.Viol = &Viol{"stuck", "runs are blocked while a stage of another is stalled: " + s.Stuck}
	}
	if out.Viol == nil && s.Deadlock != "" {
		out.Viol = &Viol{"deadlock", s.Deadlock}
	}
	out.Stats.Sim = s.Stats
	out.Stats.Hash = sim.Mix(s.Hash(), dig)
	out.Stats.Clock = s.Clock
	out.Trace = s.Trace
	out.Dig = sim.Mix(s.Hash(), s.Stats.Yields, dig)
	return out
}

func genC08(r rng, o *Oracle) *Spec {
	p := &Pipe{}
	sp := &Spec{Pipe: p, Sched: Sched{Mode: "none"}, Fam: "scripted"}
	stages := []string{"lex", "parse"}
	nruns := 1 + r.N(6)
	if r.P(1, 4) { // the library's own stages
		k := runnerKit(r, false, true)
		sp.Fam = "real:" + k.f.Name
		p.Real = k.defs[:k.runners[0]+1]
		p.RC = p.Real[k.runners[0]].C
		p.Texts = k.f.texts(r, nruns, smallish(r))
		nruns = len(p.Texts)
		for i, x := range p.RC[2:] {
			if x >= 0 {
				stages = append(stages, fmt.Sprint("red", i))
			}
		}
	} else {
		n := r.N(5)
		if r.P(1, 10) {
			n = 5 + r.N(10)
		}
		if prof.defs {
			n = 15 + r.N(80)
		}
		for i := 0; i < n; i++ {
			p.Reds = append(p.Reds, !r.P(1, 5))
			stages = append(stages, fmt.Sprint("red", i))
			if i > 0 && r.P(1, 6) {
				for len(p.Same) < i {
					p.Same = append(p.Same, 0)
				}
				x := 1 + r.N(i)
				if r.P(1, 2) {
					x = i
				}
				p.Same = append(p.Same, x)
			}
		}
		for i := 0; i < nruns; i++ {
			c := PScr{N: r.N(6), Own: r.P(1, 6)}
			if r.P(1, 4) {
				c.Pos = 1 + r.N(3)
			}
			if r.P(1, 8) {
				c.N = 1 + r.N(220)
			}
			if prof.big {
				c.N = 200 + r.N(3000)
			}
			if r.P(1, 10) {
				c.NilLex = true
			} else if c.N > 0 && r.P(1, 4) {
				for j := 1 + r.N(3); j > 0; j-- {
					c.Errs = append(c.Errs, r.N(c.N))
				}
				if r.P(1, 5) {
					c.Errs = []int{c.N - 1}
				}
			}
			c.NoTree = r.P(1, 6)
			for j := 0; j < n; j++ {
				x := r.N(2)
				if r.P(1, 8) {
					x = 2
				}
				c.Red = append(c.Red, x)
			}
			p.Runs = append(p.Runs, c)
		}
	}
	nc := 1
	if r.P(1, 2) {
		nc = clients(r, 2, 3)
	}
	for c := 0; c < nc; c++ {
		var calls []PCall
		m := 1 + r.N(6)
		if r.P(1, 10) {
			m = 20 + r.N(40)
		}
		if prof.crowd {
			m = 1 + r.N(3)
		} else if prof.warm > 0 && sp.Fam == "scripted" {
			m = 60 + r.N(300)
		}
		for j := 0; j < m; j++ {
			x := PCall{N: r.N(nruns), Func: r.P(1, 3)}
			if r.P(1, 6) {
				x.Stage, x.Kind, x.Sub = pick(r, stages), pick(r, []string{"panic", "reenter", "stall"}), r.N(nruns)
			}
			calls = append(calls, x)
		}
		p.Calls = append(p.Calls, calls)
	}
	if nc > 1 {
		sp.Sched = sched(r, 400)
		if r.P(1, 2) {
			sp.RtSeed = 1 + r.U64()%1000000
		}
	}
	return sp
}
