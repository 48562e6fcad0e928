package main

import (
	"encoding/json"
	"fmt"
	"io"
	"os"
	"runtime/debug"
	"strings"

	"github.com/adamcolton/parlex"
	"github.com/adamcolton/parlex/parser/topdown"
	"github.com/adamcolton/parlex/tree"
	sim "github.com/adamcolton/parlex/zzsim"
	"github.com/adamcolton/parlex/zzsim/satomic"
)

const (
	soloCap   = 400000  // steps an operation may take on its own
	opSlack   = 100000  // extra steps granted in a shared run
	buildCap  = 8000000 // steps for building everything
	heldLimit = 24
)

// Viol is a violation found by a run.
type Viol struct {
	Class string
	Msg   string
}

// RunStats counts what really happened in a run.
type RunStats struct {
	Faults map[string]int
	Ops    int
	Sim    sim.Stats
	Hash   uint64
	Clock  int64
}

// Exp is what an operation does on its own.
type Exp struct {
	S       string
	Steps   uint64
	Cbs     int
	Overrun bool
	NoBuild bool
}

// Oracle runs operations alone on freshly built components and remembers the
// answers.
type Oracle struct {
	memo map[string]*Exp
	Cap  uint64 // steps a call may take
	Hit  int
	Miss int
}

func NewOracle() *Oracle { return &Oracle{memo: map[string]*Exp{}, Cap: soloCap} }

// ---------------------------------------------------------------- package reset

func pkgFilter(used map[string]bool) func(string) bool {
	return func(p string) bool {
		for _, x := range []string{"grammar/regexgram", "tree/reducer", "examples/parlexjson", "examples/parlexmath", "examples/scalc", "scalcmain"} {
			if strings.Contains(p, x) {
				k := x[strings.Index(x, "/")+1:]
				if x == "tree/reducer" {
					k = x
				}
				if x == "scalcmain" {
					k = x
				}
				return used[k]
			}
		}
		if strings.Contains(p, "/examples/") {
			return false
		}
		return true
	}
}

func (w *World) pkgs(need []bool, ops ...*Op) map[string]bool {
	used := map[string]bool{}
	add := func(s string) { used[s] = true }
	for i := range w.defs {
		if need == nil || need[i] {
			defPkgs(&w.defs[i], add)
		}
	}
	for _, o := range ops {
		opPkgs(o, add)
	}
	return used
}

// freshProcess puts the simulated process into its initial state.
func freshProcess() {
	sim.ResetIDs()
	satomic.Reset()
}

// ---------------------------------------------------------------- oracle

func closure(defs []Def, roots []int) []bool {
	need := make([]bool, len(defs))
	var walk func(i int)
	walk = func(i int) {
		if i < 0 || i >= len(defs) || need[i] {
			return
		}
		need[i] = true
		for _, c := range defs[i].C {
			walk(c)
		}
	}
	for _, r := range roots {
		walk(r)
	}
	return need
}

func opRoots(op *Op) []int {
	if op.K == "bmerge" {
		return []int{op.C, op.N}
	}
	return []int{op.C}
}

// entry points and builders use no component
func usesComp(k string) bool {
	switch k {
	case "bslex", "bstlex", "bgram", "bregex", "bdsl", "btree", "json", "math", "scalc", "scalcp", "symset", "clone", "tstr", "size", "childat", "walk", "lxs":
		return false
	}
	return true
}

// Solo says what op does on freshly built components, alone, in a fresh
// process with canonical map order.
func (o *Oracle) Solo(defs []Def, setup []Op, ins []Input, op *Op) *Exp {
	return o.solo(defs, setup, ins, op, false)
}

// Early says what op does on components that had their whole configuration
// before anything was built on them: rules and productions that were added
// later are part of the definition text, and parsers and runners are made
// after the grammars, lexers and reducers they use were configured. Nil if
// that makes a legitimate difference: a copy is made when it is asked for.
func (o *Oracle) Early(defs []Def, setup []Op, ins []Input, op *Op) *Exp {
	if !usesComp(op.K) {
		return nil
	}
	need := closure(defs, opRoots(op))
	conf := map[int]bool{}
	late := false
	for i := range setup {
		if c := setup[i].C; c < len(need) && need[c] {
			conf[c] = true
			late = true
		}
	}
	if !late {
		return nil
	}
	for i := range defs {
		if !need[i] {
			continue
		}
		switch defs[i].K {
		case "rlr", "ana", "merge":
			for j, n := range closure(defs, defs[i].C) {
				if n && conf[j] {
					return nil
				}
			}
		}
	}
	if e := o.solo(defs, setup, ins, op, true); !e.Overrun && !e.NoBuild {
		return e
	}
	return nil
}

// fold moves configuration calls into the definition where the text can say
// the same.
func fold(d *Def, conf []Op) (*Def, []Op) {
	out := *d
	out.S = append([]string(nil), d.S...)
	var rest []Op
	for _, c := range conf {
		switch {
		case c.K == "gadd" && d.K == "gram" && len(d.S) == 1:
			out.S[0] += "\n" + c.S + " -> " + strings.Join(c.Strs, " ")
		case c.K == "add" && d.K == "slex" && !strings.ContainsAny(c.T, "/\n"):
			ln := c.S + " /" + c.T + "/"
			if c.N&1 != 0 {
				ln += " -"
			}
			dup := false
			for _, s := range out.S {
				for _, l := range strings.Split(s, "\n") {
					if f := strings.FieldsFunc(l, func(c rune) bool { return c == '/' || c == ' ' || c == '\t' }); len(f) > 0 && f[0] == c.S {
						dup = true
					}
				}
			}
			if dup {
				rest = append(rest, c)
			} else {
				out.S = append(out.S, ln)
			}
		default:
			rest = append(rest, c)
		}
	}
	return &out, rest
}

func (o *Oracle) solo(defs []Def, setup []Op, ins []Input, op *Op, early bool) *Exp {
	var need []bool
	if usesComp(op.K) {
		need = closure(defs, opRoots(op))
	} else {
		need = make([]bool, len(defs))
	}
	var kb strings.Builder
	if o.Cap != soloCap {
		fmt.Fprintf(&kb, "%d ", o.Cap)
	}
	if early {
		kb.WriteString("early ")
	}
	for i := range defs {
		if need[i] {
			b, _ := json.Marshal(defs[i])
			fmt.Fprintf(&kb, "%d%s", i, b)
		}
	}
	var conf []Op
	for i := range setup {
		if setup[i].C < len(need) && need[setup[i].C] {
			conf = append(conf, setup[i])
			kb.WriteString(setup[i].key())
		}
	}
	if op.I > 0 && op.I <= len(ins) {
		b, _ := json.Marshal(ins[op.I-1])
		kb.Write(b)
	}
	kb.WriteString(op.key())
	key := kb.String()
	if e, ok := o.memo[key]; ok {
		o.Hit++
		return e
	}
	o.Miss++
	if len(o.memo) > 20000 {
		o.memo = map[string]*Exp{}
	}
	e := &Exp{}
	o.memo[key] = e
	sim.SetMapOrder(0)
	sim.SetRuntimeRand(0)
	s := sim.New(nil)
	freshProcess()
	w := &World{defs: defs}
	ts := s.Phase([]string{"solo"}, []func(){func() {
		sim.ResetPkgs(pkgFilter(w.pkgs(need, op)))
		if early {
			w.comps = make([]*Comp, len(defs))
			for i := range defs {
				if !need[i] {
					continue
				}
				var mine []Op
				for _, c := range conf {
					if c.C == i {
						mine = append(mine, c)
					}
				}
				d, rest := fold(&defs[i], mine)
				w.comps[i] = w.buildOne(d)
				if w.comps[i].Err != "" {
					e.NoBuild = true
				}
				for j := range rest {
					w.config(&rest[j])
				}
			}
		} else {
			w.build(need)
			for i := range conf {
				w.config(&conf[i])
			}
		}
		w.mkInputs(ins)
		ctx := &opCtx{}
		sim.Cur().Ctx = ctx
		sim.OpStart(o.Cap)
		in, _ := w.resolve(op, nil)
		e.S, _, _ = guarded(w, op, in)
		e.Steps = sim.OpSteps()
		e.Cbs = ctx.n
	}}, buildCap)
	if ts[0].Overrun || s.Deadlock != "" || ts[0].Panic != nil {
		e.Overrun = true
		e.S = fmt.Sprintf("does not finish on its own (%v %v)", s.Deadlock, ts[0].Panic)
	}
	s.Close()
	return e
}

// Builds says whether building finishes in a fresh process with canonical map
// order.
func (o *Oracle) Builds(defs []Def, setup []Op, all []*Op) bool {
	sim.SetMapOrder(0)
	sim.SetRuntimeRand(0)
	s := sim.New(nil)
	freshProcess()
	w := &World{defs: defs}
	ts := s.Phase([]string{"solo"}, []func(){func() {
		sim.ResetPkgs(pkgFilter(w.pkgs(nil, all...)))
		w.build(nil)
		for i := range setup {
			w.config(&setup[i])
		}
	}}, buildCap)
	defer s.Close()
	return !(ts[0].Overrun || ts[0].Panic != nil || s.Deadlock != "")
}

// guarded makes the call and turns a panic into a result.
func guarded(w *World, op *Op, in interface{}) (res string, obj interface{}, pv interface{}) {
	defer func() {
		if r := recover(); r != nil {
			res, obj, pv = renderPanic(r), nil, r
			if os.Getenv("VDEBUG") != "" {
				debug.PrintStack()
			}
		}
	}()
	res, obj = w.exec(op, in)
	return
}

// resolve finds the input of a call. The second result is the same input
// written out, for inputs that are earlier results.
func (w *World) resolve(op *Op, c *client) (interface{}, *Input) {
	if op.I > 0 && op.I <= len(w.inputs) {
		return w.inputs[op.I-1], nil
	}
	if op.H > 0 && c != nil && op.K != "aq" {
		if op.H <= len(c.held) {
			h := c.held[op.H-1]
			return h.obj, describe(h.obj)
		}
		return nil, &Input{}
	}
	if op.In != nil {
		if op.In.Tree != nil {
			return mkTree(op.In), nil
		}
		return mkLexemes(op.In), nil
	}
	return nil, nil
}

// describe writes a result out as an input.
func describe(o interface{}) *Input {
	switch x := o.(type) {
	case []parlex.Lexeme:
		in := &Input{Toks: []Tok{}}
		for _, l := range x {
			if l == nil {
				return nil
			}
			ln, c := l.Pos()
			in.Toks = append(in.Toks, Tok{written(l.Kind().String()), written(l.Value()), ln, c})
		}
		return in
	case *tree.PN:
		if x == nil {
			return &Input{}
		}
		cnt := 0
		n := describeNode(x, &cnt)
		if n == nil {
			return nil
		}
		return &Input{Tree: n}
	}
	return nil
}

func describeNode(x *tree.PN, cnt *int) *Node {
	*cnt++
	if x == nil || x.Lexeme == nil || *cnt > 600 {
		return nil
	}
	ln, c := x.Pos()
	n := &Node{K: written(x.Kind().String()), V: written(x.Value()), L: ln, P: c}
	for _, ch := range x.C {
		m := describeNode(ch, cnt)
		if m == nil {
			return nil
		}
		n.C = append(n.C, m)
	}
	return n
}

// ---------------------------------------------------------------- shared runs

type held struct {
	obj  interface{}
	snap string
	op   int
	seq  int
}

type rec struct {
	client, op int
	sub        bool
	what       *Op // resolved
	cfg        int // configuration calls in force
	res        string
	pv         interface{}
	ctx        *opCtx
	skip       bool
}

type client struct {
	id   int
	ops  []Op
	held []held
	cur  string
	cfg  int // configuration calls so far
	what *Op // the call in progress, if it works on an earlier result
	pos  int
}

// Run executes specs.
type Run struct {
	orc *Oracle
}

// Outcome of a run.
type Outcome struct {
	Viol  *Viol
	Skip  string // the run could not be judged (not a verdict)
	Stats RunStats
	Trace []sim.Switch
	Dig   uint64

	Known   []string // recorded findings that this run met, and nothing else
	KnownAs string
}

type ptrSentinel struct{ id int }

// rtSentinel looks like an error of the runtime: an index out of range, a nil
// map.
type rtSentinel struct{ id int }

func (*rtSentinel) RuntimeError() {}
func (s *rtSentinel) Error() string {
	return fmt.Sprintf("runtime error: index out of range [%d] with length 0", s.id)
}

type bigSentinel struct {
	id   int
	name string
	err  error
}

// sentinelFor draws what a callback panics with: anything a program may panic
// with, errors the library itself returns among them.
func sentinelFor(seed uint64, n int) interface{} {
	switch (seed + uint64(n)) % 16 {
	case 0, 5:
		return &ptrSentinel{n}
	case 1:
		return fmt.Sprintf("boom %d", n)
	case 2:
		return fmt.Errorf("boom error %d", n)
	case 3, 6:
		return &rtSentinel{n}
	case 4:
		return parlex.ErrCouldNotParse
	case 7:
		return parlex.ErrCouldNotLex
	case 8:
		return parlex.ErrCouldNotReduce
	case 9:
		return topdown.ErrLeftRecursion
	case 10:
		return io.EOF
	case 11:
		return n
	case 12:
		return false
	case 13:
		return bigSentinel{n, "big", parlex.ErrCouldNotLex}
	case 14:
		return ""
	}
	return ptrSentinel{n}
}

// raceProps are the properties whose runs must be free of data races.
var raceProps = map[string]bool{"C01": true, "C02": true, "C03": true, "C04": true, "C09": true, "C10": true, "C11": true}

func (r *Run) exec(sp *Spec) *Outcome {
	o := r.exec1(sp)
	if sim.OutOfMemory {
		// an emergency: what was cut short proves nothing
		sim.OutOfMemory = false
		*r.orc = *NewOracle()
		o = &Outcome{Skip: "out of memory", Stats: RunStats{Faults: map[string]int{}}}
	}
	return o
}

func (r *Run) exec1(sp *Spec) *Outcome {
	if sp.Term != nil {
		return r.execTerm(sp)
	}
	if sp.Pipe != nil {
		return r.execPipe(sp)
	}
	out := &Outcome{Stats: RunStats{Faults: map[string]int{}}}
	r.orc.Cap = soloCap
	if sp.Cap != 0 {
		r.orc.Cap = sp.Cap
	}
	// what every call does alone; also bounds the work of the run
	budgets := map[string]uint64{}
	var prep func(op *Op, setup []Op) bool
	prep = func(op *Op, setup []Op) bool {
		if configOps[op.K] || op.K == "edit" || op.K == "gc" {
			return true
		}
		if op.F != nil && op.F.Sub != nil {
			if !prep(op.F.Sub, setup) {
				return false
			}
		}
		if op.H > 0 && op.K != "aq" {
			return true
		}
		e := r.orc.Solo(sp.Defs, setup, sp.Inputs, op)
		if e.Overrun {
			out.Skip = "an operation does not finish on its own: " + op.K
			return false
		}
		k := op.key()
		if b := e.Steps*10 + opSlack; b > budgets[k] {
			budgets[k] = b
		}
		return true
	}
	setup := append([]Op(nil), sp.Setup...)
	for i := range sp.Warm {
		if !prep(&sp.Warm[i], setup) {
			return out
		}
	}
	for _, t := range sp.Tasks {
		for i := range t {
			if configOps[t[i].K] {
				setup = append(setup, t[i])
				continue
			}
			if !prep(&t[i], setup) {
				return out
			}
		}
	}
	for i := range sp.Post {
		if !prep(&sp.Post[i], setup) {
			return out
		}
	}

	builds := sp.Build
	if len(builds) == 0 {
		builds = []uint64{0}
	}
	for bi, bm := range builds {
		r.once(sp, out, budgets, bm, bi)
		if out.Viol != nil || out.Skip != "" {
			return out
		}
	}
	return out
}

func (r *Run) once(sp *Spec, out *Outcome, budgets map[string]uint64, buildOrd uint64, bi int) {
	s := sim.New(sp.Sched.policy())
	s.DefaultBudget = buildCap
	if sp.Sched.Slow > 0 {
		s.SlowNum, s.SlowRng = sp.Sched.Slow, sim.NewRng(sp.Sched.Seed^0x510)
	}
	freshProcess()
	w := &World{defs: sp.Defs}
	var all []*Op
	for ti := range sp.Tasks {
		for i := range sp.Tasks[ti] {
			all = append(all, &sp.Tasks[ti][i])
		}
	}
	for i := range sp.Warm {
		all = append(all, &sp.Warm[i])
	}
	for i := range sp.Post {
		all = append(all, &sp.Post[i])
	}
	inSnap := make([]string, len(sp.Inputs))
	sim.SetMapOrder(buildOrd)
	rt := sp.RtSeed
	if bi > 0 {
		rt = sim.Mix(sp.RtSeed, uint64(bi))
	}
	sim.SetRuntimeRand(rt)
	ts := s.Phase([]string{"setup"}, []func(){func() {
		sim.ResetPkgs(pkgFilter(w.pkgs(nil, all...)))
		w.build(nil)
		for i := range sp.Setup {
			w.config(&sp.Setup[i])
		}
		w.mkInputs(sp.Inputs)
		for i, in := range w.inputs {
			inSnap[i] = renderObj(in)
		}
	}}, buildCap)
	defer s.Close()
	if ts[0].Overrun || ts[0].Panic != nil || s.Deadlock != "" {
		s.Close()
		if !r.orc.Builds(sp.Defs, sp.Setup, all) {
			out.Skip = "a component cannot be built on its own"
			return
		}
		out.Viol = &Viol{"build", fmt.Sprintf("building the components does not finish (%s %v)", s.Deadlock, ts[0].Panic)}
		return
	}
	if sp.MapOrd != 0 {
		sim.SetMapOrder(sp.MapOrd)
	} else {
		sim.SetMapOrder(0)
	}

	// clients
	var hist []*rec
	seq := 0
	mk := func(ci int, ops []Op) *client { return &client{id: ci, ops: ops} }
	known := knownSymbols(sp)
	var runClient func(c *client, post bool)
	runClient = func(c *client, post bool) {
		cfg := 0
		if post {
			for ti := range sp.Tasks {
				for i := range sp.Tasks[ti] {
					if configOps[sp.Tasks[ti][i].K] {
						cfg++
					}
				}
			}
		}
		c.cfg = cfg
		for i := range c.ops {
			op := &c.ops[i]
			c.pos = i
			reps := op.Rep
			if reps < 1 {
				reps = 1
			}
			for k := 0; k < reps && (k < 30 || s.Tasks() < 2500); k++ {
				c.cur = fmt.Sprintf("client %d call %d (%s)", c.id, i, opBrief(op))
				if configOps[op.K] {
					sim.OpStart(buildCap)
					w.config(op)
					cfg++
					c.cfg = cfg
					continue
				}
				if op.K == "edit" {
					if len(c.held) > 0 {
						h := &c.held[(op.H-1+len(c.held))%len(c.held)]
						sim.OpStart(buildCap)
						edit(h.obj, uint64(op.N), known)
						h.snap = renderObj(h.obj)
						out.Stats.Faults["edit"]++
					}
					continue
				}
				r.call(w, c, op, i, k, cfg, false, &hist, &seq, out, budgets, sp)
			}
		}
	}
	var cs []*client
	var fns []func()
	var names []string
	for ti := range sp.Tasks {
		c := mk(ti, sp.Tasks[ti])
		cs = append(cs, c)
		names = append(names, fmt.Sprintf("client %d", ti))
		fns = append(fns, func() { runClient(c, false) })
	}
	fill := func() {
		out.Stats.Sim = addStats(out.Stats.Sim, s.Stats)
		out.Stats.Hash = sim.Mix(out.Stats.Hash, s.Hash())
		out.Stats.Clock += s.Clock
		out.Stats.Ops += len(hist)
		out.Trace = s.Trace
		d := out.Stats.Hash
		for _, h := range hist {
			d = sim.Mix(d, sim.HashStr(h.res), uint64(h.client), uint64(h.op))
		}
		out.Dig = sim.Mix(out.Dig, d, s.Stats.Yields)
	}
	fail := func(class, f string, a ...interface{}) {
		if out.Viol == nil {
			out.Viol = &Viol{class, fmt.Sprintf(f, a...)}
		}
	}
	check := func(ts []*sim.Task, cs []*client) {
		for i, t := range ts {
			if t.Overrun && cs[i].what != nil && r.orc.Solo(sp.Defs, setupAt(sp, cs[i].cfg), sp.Inputs, cs[i].what).Overrun {
				out.Skip = "a call on an earlier result does not finish on its own"
			} else if t.Overrun {
				fail("overrun", "%s takes more than ten times the steps it takes alone", cs[i].cur)
			} else if t.Panic != nil {
				fail("harness", "harness panic in %s: %v", cs[i].cur, t.Panic)
			}
		}
		if s.Stuck != "" {
			where := ""
			for _, c := range cs {
				where += c.cur + "; "
			}
			fail("stuck", "calls are blocked while another is stalled in client code: %s [%s]", s.Stuck, where)
		}
		if s.Deadlock != "" {
			where := ""
			for _, c := range cs {
				where += c.cur + "; "
			}
			fail("deadlock", "deadlock: %s [%s]", s.Deadlock, where)
		}
		for _, t := range s.Background() {
			if t.Panic != nil {
				fail("bgpanic", "a goroutine of the library panics: %v", t.Panic)
			}
		}
		if raceProps[sp.Prop] && len(s.Races) > 0 && !degraded {
			x := s.Races[0]
			fail("race", "data race: %s by task %d and %s by task %d%s", rw(x.WriteA, x.SiteA), x.TaskA, rw(x.WriteB, x.SiteB), x.TaskB, moreRaces(s.Races))
		}
	}
	if len(sp.Warm) > 0 {
		c := mk(len(sp.Tasks)+1, sp.Warm)
		check(s.Phase([]string{"before"}, []func(){func() { runClient(c, false) }}, buildCap), []*client{c})
		cs = append(cs, c)
	}
	if out.Viol == nil && out.Skip == "" {
		check(s.Phase(names, fns, buildCap), cs)
	}
	if out.Skip != "" {
		return
	}
	// inputs, held results and later calls
	stopped := out.Viol != nil
	if !stopped {
		pc := mk(len(sp.Tasks), sp.Post)
		var inNow []string
		type chg struct {
			h   held
			c   int
			by  string
			ops []Op
		}
		var changed []chg
		ts = s.Phase([]string{"after"}, []func(){func() {
			for _, in := range w.inputs {
				inNow = append(inNow, renderObj(in))
			}
			for _, c := range cs {
				for _, h := range c.held {
					if now := renderObj(h.obj); now != h.snap {
						changed = append(changed, chg{h, c.id, now, c.ops})
					}
				}
			}
			runClient(pc, true)
			for _, c := range cs {
				for _, h := range c.held {
					if now := renderObj(h.obj); now != h.snap {
						changed = append(changed, chg{h, c.id, now, c.ops})
					}
				}
			}
		}}, buildCap*4)
		check(ts, []*client{pc})
		if out.Skip != "" {
			return
		}
		for i := range inNow {
			if inNow[i] != inSnap[i] {
				fail("input", "input %d was changed: %s", i, diff(inSnap[i], inNow[i]))
			}
		}
		if len(changed) > 0 {
			x := changed[0]
			fail("held", "the result of client %d call %d (%s) changed after it was returned: %s", x.c, x.h.op, opBrief(&x.ops[x.h.op]), diff(x.h.snap, x.by))
		}
	}
	fill()
	r.judge(sp, out, hist)
}

func (r *Run) call(w *World, c *client, op *Op, idx, rep, cfg int, sub bool, hist *[]*rec, seq *int, out *Outcome, budgets map[string]uint64, sp *Spec) {
	t := sim.Cur()
	a, b := sim.SaveOp()
	bud := budgets[op.key()]
	if bud == 0 {
		bud = r.orc.Cap * 10
	}
	var cc *client
	if !sub {
		cc = c
	}
	sim.OpStart(buildCap)
	in, written := w.resolve(op, cc)
	what := op
	x := &rec{client: c.id, op: idx, sub: sub, cfg: cfg}
	if op.H > 0 && op.K != "aq" {
		n := *op
		n.H, n.F = 0, nil
		n.In = written
		if written == nil {
			x.skip = true
		}
		what = &n
		c.what = what
	}
	x.what = what
	ctx := &opCtx{f: op.F, stats: &out.Stats}
	x.ctx = ctx
	if op.F != nil {
		*seq++
		ctx.sentinel = sentinelFor(sp.Seed, *seq)
		ctx.reenter = func(s *Op) {
			r.call(w, c, s, idx, rep, cfg, true, hist, seq, out, budgets, sp)
		}
	}
	saved := t.Ctx
	t.Ctx = ctx
	sim.OpStart(bud)
	before := ""
	if in != nil && op.I == 0 {
		before = inputSnap(in)
		sim.OpStart(bud)
	}
	res, obj, pv := guarded(w, op, in)
	t.Ctx = saved
	x.res, x.pv = res, pv
	c.what = nil
	*hist = append(*hist, x)
	sim.OpStart(buildCap)
	if in != nil && op.I == 0 && before != "" {
		if now := inputSnap(in); now != before && out.Viol == nil {
			out.Viol = &Viol{"input", fmt.Sprintf("client %d call %d (%s) changed its input: %s", c.id, idx, opBrief(op), diff(before, now))}
		}
	}
	if obj != nil && !sub {
		if n, ok := obj.(parlex.ParseNode); !ok || !isNilNode(n) {
			snap := res
			switch op.K {
			case "lex", "parse", "reduce", "rawred", "clone", "scalcp", "nts", "lexerrs", "btopdown", "bpackrat":
			default:
				snap = renderObj(obj)
			}
			h := held{obj: obj, snap: snap, op: idx, seq: len(*hist)}
			if len(c.held) >= heldLimit {
				// the first results are kept to the end
				c.held[heldLimit/2+(idx+rep)%(heldLimit/2)] = h
			} else {
				c.held = append(c.held, h)
			}
		}
	}
	sim.RestoreOp(a, b)
}

// inputSnap describes an input without going through client callbacks.
func inputSnap(in interface{}) string {
	switch x := in.(type) {
	case []parlex.Lexeme:
		for _, l := range x {
			if _, ok := l.(*cbLex); ok {
				return ""
			}
		}
		return renderLexemes(x)
	case *tree.PN:
		return renderTree(x)
	}
	return ""
}

// setupAt gives the configuration after n configuration calls of the clients.
func setupAt(sp *Spec, n int) []Op {
	out := append([]Op(nil), sp.Setup...)
	for _, t := range sp.Tasks {
		for i := range t {
			if configOps[t[i].K] {
				for k := 0; k < max(1, t[i].Rep) && n > 0; k++ {
					out = append(out, t[i])
					n--
				}
			}
		}
	}
	return out
}

// judge compares the recorded history with what every call does alone.
func (r *Run) judge(sp *Spec, out *Outcome, hist []*rec) {
	if out.Viol != nil && out.Viol.Class != "race" {
		return
	}
	for _, x := range hist {
		if x.skip {
			continue
		}
		setup := setupAt(sp, x.cfg)
		e := r.orc.Solo(sp.Defs, setup, sp.Inputs, x.what)
		if e.Overrun {
			continue
		}
		where := fmt.Sprintf("client %d call %d (%s)", x.client, x.op, opBrief(x.what))
		if x.sub {
			where += " made from inside a callback"
		}
		if x.ctx.f != nil && x.ctx.f.Kind == "panic" && x.ctx.fired {
			if x.pv == nil {
				out.Viol = &Viol{"swallowed", fmt.Sprintf("%s: the callback's panic did not reach the caller, which got %s", where, cut(x.res))}
				return
			}
			if x.pv != x.ctx.sentinel {
				out.Viol = &Viol{"swallowed", fmt.Sprintf("%s: the callback's panic reached the caller changed: %s", where, cut(renderPanic(x.pv)))}
				return
			}
			continue
		}
		if x.what.K == "symset" && x.res != "ok" {
			out.Viol = &Viol{"alias", where + ": " + x.res}
			return
		}
		if x.res != e.S {
			v := &Viol{"result", fmt.Sprintf("%s gives a different result than alone: %s", where, diff(e.S, x.res))}
			if out.Viol != nil { // a race was found as well
				v.Msg += "; " + out.Viol.Msg
				v.Class = "race"
			}
			out.Viol = v
			return
		}
		if sp.Prop == "C07" && x.cfg > 0 && out.Viol == nil {
			if y := r.orc.Early(sp.Defs, setup, sp.Inputs, x.what); y != nil && y.S != x.res {
				out.Viol = &Viol{"effect", fmt.Sprintf("%s gives a different result than on components that were defined with the later additions from the start: %s", where, diff(y.S, x.res))}
				return
			}
		}
	}
}

// ---------------------------------------------------------------- helpers

func addStats(a, b sim.Stats) sim.Stats {
	a.Yields += b.Yields
	a.Accesses += b.Accesses
	a.Switches += b.Switches
	a.Preempts += b.Preempts
	a.SharedAccesses += b.SharedAccesses
	a.MapRanges += b.MapRanges
	a.MapShuffled += b.MapShuffled
	a.SyncOps += b.SyncOps
	a.ChanOps += b.ChanOps
	a.GoStmts += b.GoStmts
	a.PoolMiss += b.PoolMiss
	a.PoolHit += b.PoolHit
	a.Stalls += b.Stalls
	a.Timers += b.Timers
	a.SlowSkips += b.SlowSkips
	return a
}

func knownSymbols(sp *Spec) []string {
	seen := map[string]bool{}
	var out []string
	for _, d := range sp.Defs {
		if d.K == "gram" || d.K == "gadded" {
			c := parseCFG(d.S[0])
			for _, nt := range c.Order {
				if !seen[nt] {
					seen[nt] = true
					out = append(out, nt)
				}
			}
		}
	}
	// only symbols every grammar of the run knows: extending a production by
	// a new symbol registers it with its grammar
	var common []string
	for _, s := range out {
		ok := true
		for _, d := range sp.Defs {
			if d.K == "gram" || d.K == "gadded" {
				if _, has := parseCFG(d.S[0]).Prods[s]; !has {
					ok = false
				}
			}
		}
		if ok {
			common = append(common, s)
		}
	}
	return common
}

func opBrief(op *Op) string {
	s := op.K
	if usesComp(op.K) {
		s += fmt.Sprintf(" on component %d", op.C)
	}
	if op.S != "" {
		s += " " + cut(fmt.Sprintf("%q", op.S))
	}
	if len(op.Strs) > 0 {
		s += " " + cut(fmt.Sprintf("%q", op.Strs))
	}
	if op.I > 0 {
		s += fmt.Sprintf(" of shared input %d", op.I-1)
	}
	if op.In != nil {
		b, _ := json.Marshal(op.In)
		s += " " + cut(string(b))
	}
	if op.F != nil {
		s += fmt.Sprintf(" with %s at callback %d", op.F.Kind, op.F.At)
	}
	return s
}

func cut(s string) string {
	if len(s) > 160 {
		return s[:120] + "..." + s[len(s)-30:]
	}
	return s
}

func diff(want, got string) string {
	i := 0
	for i < len(want) && i < len(got) && want[i] == got[i] {
		i++
	}
	st := i - 40
	if st < 0 {
		st = 0
	}
	w, g := want[st:], got[st:]
	if len(w) > 160 {
		w = w[:160] + "..."
	}
	if len(g) > 160 {
		g = g[:160] + "..."
	}
	pre := ""
	if st > 0 {
		pre = "..."
	}
	return fmt.Sprintf("expected %s%s got %s%s", pre, w, pre, g)
}

func rw(w bool, site int) string {
	if w {
		return "write at " + siteName(site)
	}
	return "read at " + siteName(site)
}

func moreRaces(rs []sim.Race) string {
	if len(rs) < 2 {
		return ""
	}
	return fmt.Sprintf(" (and %d more pairs)", len(rs)-1)
}
