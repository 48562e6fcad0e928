package main

import (
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/adamcolton/parlex"
	"github.com/adamcolton/parlex/analyze"
	"github.com/adamcolton/parlex/grammar"
	"github.com/adamcolton/parlex/grammar/regexgram"
	"github.com/adamcolton/parlex/lexeme"
	"github.com/adamcolton/parlex/lexer/simplelexer"
	"github.com/adamcolton/parlex/lexer/stacklexer"
	"github.com/adamcolton/parlex/parser/packrat"
	"github.com/adamcolton/parlex/parser/topdown"
	"github.com/adamcolton/parlex/symbol/stringsymbol"
	"github.com/adamcolton/parlex/tree"
	"github.com/adamcolton/parlex/tree/reducer"
	sim "github.com/adamcolton/parlex/zzsim"
)

// ---------------------------------------------------------------- callbacks

// opCtx follows one call through the code under test.
type opCtx struct {
	n        int // callbacks so far
	f        *Fault
	fired    bool
	sentinel interface{}
	reenter  func(*Op)
	stats    *RunStats
}

func curCtx() *opCtx {
	if t := sim.Cur(); t != nil {
		if c, ok := t.Ctx.(*opCtx); ok {
			return c
		}
	}
	return nil
}

// cb is called by everything the client supplies: reductions, conditions,
// grammars, productions, symbols, lexemes, trees, stages.
func cb() {
	if sim.Cur() == nil {
		return
	}
	sim.Pause()
	c := curCtx()
	if c == nil {
		return
	}
	c.n++
	if c.f == nil || c.fired || c.n != c.f.At {
		return
	}
	c.fired = true
	if c.stats != nil {
		c.stats.Faults[c.f.Kind]++
	}
	switch c.f.Kind {
	case "panic":
		panic(c.sentinel)
	case "stall":
		sim.Stall()
	case "slow":
		sim.SleepTask(int64(1e6))
	case "reenter":
		if c.f.Sub != nil && c.reenter != nil {
			c.reenter(c.f.Sub)
		}
	}
}

type cbSym string

func (s cbSym) String() string { cb(); return string(s) }

type cbLex struct{ t Tok }

func (l *cbLex) Kind() parlex.Symbol { cb(); return cbSym(raw(l.t.K)) }
func (l *cbLex) Value() string       { cb(); return raw(l.t.V) }
func (l *cbLex) Pos() (int, int)     { cb(); return l.t.L, l.t.C }

type cbNode struct {
	n *Node
	p *cbNode
	c []*cbNode
}

func (n *cbNode) Kind() parlex.Symbol { cb(); return cbSym(raw(n.n.K)) }
func (n *cbNode) Value() string       { cb(); return raw(n.n.V) }
func (n *cbNode) Pos() (int, int)     { cb(); return n.n.L, n.n.P }
func (n *cbNode) Children() int       { cb(); return len(n.c) }
func (n *cbNode) Child(i int) parlex.ParseNode {
	cb()
	if i < 0 {
		i += len(n.c)
	}
	if i < 0 || i >= len(n.c) {
		return nil
	}
	return n.c[i]
}
func (n *cbNode) Parent() parlex.ParseNode {
	cb()
	if n.p == nil {
		return nil
	}
	return n.p
}

func mkCbNode(n *Node, p *cbNode) *cbNode {
	x := &cbNode{n: n, p: p}
	for _, c := range n.C {
		x.c = append(x.c, mkCbNode(c, x))
	}
	return x
}

type cbGram struct {
	order []string
	prods map[string]cbProds
}

func (g *cbGram) Productions(s parlex.Symbol) parlex.Productions {
	cb()
	if p, ok := g.prods[s.String()]; ok {
		return p
	}
	return nil
}
func (g *cbGram) NonTerminals() []parlex.Symbol {
	cb()
	out := make([]parlex.Symbol, len(g.order))
	for i, s := range g.order {
		out[i] = cbSym(s)
	}
	return out
}

type cbProds []cbProd

func (p cbProds) Productions() int { cb(); return len(p) }
func (p cbProds) Production(i int) parlex.Production {
	cb()
	if i < 0 || i >= len(p) {
		return nil
	}
	return p[i]
}
func (p cbProds) Iter() *parlex.ProductionsIterator {
	cb()
	return &parlex.ProductionsIterator{Productions: p}
}

type cbProd []string

func (p cbProd) Symbols() int { cb(); return len(p) }
func (p cbProd) Symbol(i int) parlex.Symbol {
	cb()
	if i < 0 || i >= len(p) {
		return nil
	}
	return cbSym(p[i])
}
func (p cbProd) Iter() *parlex.ProductionIterator {
	cb()
	return &parlex.ProductionIterator{Production: p}
}

// CFG is a grammar text as the generator and the client-supplied grammar see it.
type CFG struct {
	Order []string
	Prods map[string][][]string
}

func parseCFG(text string) *CFG {
	g := &CFG{Prods: map[string][][]string{}}
	cur := ""
	for _, ln := range strings.Split(text, "\n") {
		ln = strings.TrimSpace(ln)
		i := strings.Index(ln, "->")
		if i < 0 {
			continue
		}
		if nt := strings.TrimSpace(ln[:i]); nt != "" {
			cur = nt
			if _, ok := g.Prods[cur]; !ok {
				g.Order = append(g.Order, cur)
			}
		}
		g.Prods[cur] = append(g.Prods[cur], strings.Fields(ln[i+2:]))
	}
	return g
}

func mkCbGram(text string) *cbGram {
	c := parseCFG(text)
	g := &cbGram{order: c.Order, prods: map[string]cbProds{}}
	for k, ps := range c.Prods {
		var out cbProds
		for _, p := range ps {
			out = append(out, cbProd(p))
		}
		g.prods[k] = out
	}
	return g
}

// mkStrGram is a grammar built from the library's string symbols.
type strGram struct {
	order []parlex.Symbol
	prods map[string]stringsymbol.Productions
}

func (g *strGram) Productions(s parlex.Symbol) parlex.Productions {
	if p, ok := g.prods[s.String()]; ok {
		return p
	}
	return nil
}
func (g *strGram) NonTerminals() []parlex.Symbol { return append([]parlex.Symbol(nil), g.order...) }

func mkStrGram(text string) *strGram {
	c := parseCFG(text)
	g := &strGram{prods: map[string]stringsymbol.Productions{}}
	for _, k := range c.Order {
		g.order = append(g.order, stringsymbol.Symbol(k))
		var out stringsymbol.Productions
		for _, p := range c.Prods[k] {
			var q stringsymbol.Production
			for _, s := range p {
				q = append(q, stringsymbol.Symbol(s))
			}
			out = append(out, q)
		}
		g.prods[k] = out
	}
	return g
}

// ---------------------------------------------------------------- inputs

func mkLexemes(in *Input) []parlex.Lexeme {
	out := make([]parlex.Lexeme, len(in.Toks))
	for i, t := range in.Toks {
		if in.Cb {
			out[i] = &cbLex{t}
		} else {
			out[i] = lexeme.New(stringsymbol.Symbol(raw(t.K))).Set(raw(t.V)).At(t.L, t.C)
		}
	}
	return out
}

func mkPN(n *Node, p *tree.PN) *tree.PN {
	x := &tree.PN{Lexeme: lexeme.New(stringsymbol.Symbol(raw(n.K))).Set(raw(n.V)).At(n.L, n.P), P: p}
	for _, c := range n.C {
		x.C = append(x.C, mkPN(c, x))
	}
	return x
}

func mkTree(in *Input) parlex.ParseNode {
	if in.Tree == nil {
		return nil
	}
	if in.Cb {
		return mkCbNode(in.Tree, nil)
	}
	return mkPN(in.Tree, nil)
}

// ---------------------------------------------------------------- rendering

const nodeCap = 4000

func renderLexeme(b *strings.Builder, l parlex.Lexeme) {
	if l == nil {
		b.WriteString("<nil>")
		return
	}
	ln, c := l.Pos()
	k := l.Kind()
	if k == nil {
		fmt.Fprintf(b, "?:%q@%d,%d", l.Value(), ln, c)
	} else {
		fmt.Fprintf(b, "%s:%q@%d,%d", k.String(), l.Value(), ln, c)
	}
	if e, ok := l.(parlex.LexError); ok {
		fmt.Fprintf(b, "!%q", e.Error())
	}
}

func renderLexemes(ls []parlex.Lexeme) string {
	if ls == nil {
		return "no lexemes"
	}
	b := &strings.Builder{}
	b.WriteString("[")
	for i, l := range ls {
		if i > 0 {
			b.WriteString(" ")
		}
		if i > nodeCap {
			b.WriteString("...")
			break
		}
		renderLexeme(b, l)
	}
	b.WriteString("]")
	return b.String()
}

func isNilNode(n parlex.ParseNode) bool {
	if n == nil {
		return true
	}
	if p, ok := n.(*tree.PN); ok && p == nil {
		return true
	}
	return false
}

func renderTree(n parlex.ParseNode) string {
	if n == nil {
		return "no tree"
	}
	if isNilNode(n) {
		return "nil node"
	}
	b := &strings.Builder{}
	cnt := 0
	renderNode(b, n, nil, &cnt, 0)
	return b.String()
}

func renderNode(b *strings.Builder, n, parent parlex.ParseNode, cnt *int, depth int) {
	*cnt++
	if *cnt > nodeCap || depth > 2000 {
		b.WriteString("...")
		return
	}
	if isNilNode(n) {
		b.WriteString("<nil>")
		return
	}
	if p, ok := n.(*tree.PN); ok {
		if p.Lexeme == nil {
			b.WriteString("<no lexeme>")
		} else {
			ln, c := p.Pos()
			fmt.Fprintf(b, "%s:%q@%d,%d", p.Kind().String(), p.Value(), ln, c)
		}
		// parent link: ^ to the node above, - none, * elsewhere
		switch {
		case p.P == nil:
			b.WriteString("-")
		case parent != nil && parlex.ParseNode(p.P) == parent:
			b.WriteString("^")
		default:
			b.WriteString("*")
		}
	} else {
		ln, c := n.Pos()
		fmt.Fprintf(b, "%s:%q@%d,%d", n.Kind().String(), n.Value(), ln, c)
	}
	k := n.Children()
	if k > 0 {
		b.WriteString("{")
		for i := 0; i < k; i++ {
			if i > 0 {
				b.WriteString(" ")
			}
			renderNode(b, n.Child(i), n, cnt, depth+1)
		}
		b.WriteString("}")
	}
}

func renderProds(p parlex.Productions) string {
	if p == nil {
		return "no productions"
	}
	var out []string
	for i := 0; i < p.Productions(); i++ {
		out = append(out, renderProd(p.Production(i)))
	}
	return strings.Join(out, " | ")
}

func renderProd(p parlex.Production) string {
	if p == nil {
		return "no production"
	}
	var s []string
	for i := 0; i < p.Symbols(); i++ {
		s = append(s, p.Symbol(i).String())
	}
	return "<" + strings.Join(s, " ") + ">"
}

func renderSyms(ss []parlex.Symbol) string {
	var out []string
	for _, s := range ss {
		if s == nil {
			out = append(out, "<nil>")
		} else {
			out = append(out, s.String())
		}
	}
	return "(" + strings.Join(out, " ") + ")"
}

func renderGrammar(g parlex.Grammar) string {
	b := &strings.Builder{}
	nts := g.NonTerminals()
	b.WriteString(renderSyms(nts))
	for _, nt := range nts {
		fmt.Fprintf(b, "; %s -> %s", nt.String(), renderProds(g.Productions(nt)))
	}
	return b.String()
}

var probeTree = func() *Node {
	leaf := func(k, v string) *Node { return &Node{K: k, V: v, L: 1, P: 2} }
	in := func(k string, c ...*Node) *Node { return &Node{K: k, C: c, L: 1, P: 1} }
	sub := func(k string) *Node {
		return in(k, leaf("lp", "("), in("E", leaf("a", "1"), leaf("op", "+"), leaf("b", "2")), leaf("rp", ")"), in("A", leaf("a", "x")), leaf("comma", ","))
	}
	return in("S", sub("E"), sub("A"), sub("B"), sub("List"), sub("Value"), in("P", leaf("a", "q")))
}()

func renderReducer(r tree.Reducer) string {
	if r == nil {
		return "no reducer"
	}
	ks := make([]string, 0, len(r))
	for k, f := range r {
		if f == nil {
			k += "=nil"
		}
		ks = append(ks, k)
	}
	sort.Strings(ks)
	// the probe holds a node of every kind the reducer knows, so that equal
	// keys with different reductions are told apart
	probe := clone(probeTree)
	kids := clone(probeTree.C)
	for i, k := range ks {
		if i >= 40 {
			break
		}
		probe.C = append(probe.C, &Node{K: strings.TrimSuffix(k, "=nil"), V: "v", C: clone(kids[i%len(kids)].C)})
	}
	return strings.Join(ks, ",") + " => " + renderTree(r.RawReduce(mkPN(probe, nil)))
}

func renderAna(a *analyze.Analytics, syms []string) string {
	b := &strings.Builder{}
	for _, s := range syms {
		sy := stringsymbol.Symbol(s)
		fmt.Fprintf(b, "%s:%v,%v,%v ", s, a.Contains(sy), a.NonTerminal(sy), a.HasNilInFirst(sy))
		for _, t := range syms {
			if a.HasFirst(sy, stringsymbol.Symbol(t)) {
				fmt.Fprintf(b, "<%s", t)
			}
		}
		b.WriteString(";")
	}
	return b.String()
}

// renderObj describes any result a call can return.
func renderObj(o interface{}) string {
	switch x := o.(type) {
	case nil:
		return "nil"
	case []parlex.Lexeme:
		return renderLexemes(x)
	case tree.Reducer:
		return renderReducer(x)
	case *grammar.Grammar:
		if x == nil {
			return "nil grammar"
		}
		return renderGrammar(x)
	case []parlex.Symbol:
		return renderSyms(x)
	case []parlex.Production:
		var out []string
		for _, p := range x {
			out = append(out, renderProd(p))
		}
		return strings.Join(out, " | ")
	case []parlex.LexError:
		b := &strings.Builder{}
		for _, e := range x {
			renderLexeme(b, e)
			b.WriteString(" ")
		}
		return b.String()
	case *pair:
		return renderObj(x.a) + " && " + renderObj(x.b)
	case parlex.ParseNode:
		return renderTree(x)
	}
	return fmt.Sprintf("%T", o)
}

type pair struct{ a, b interface{} }

// ---------------------------------------------------------------- components

// Comp is a built component.
type Comp struct {
	K    string
	V    interface{}
	Red  tree.Reducer // regular-expression grammars come with one
	Err  string
	deps []int
}

// World is a set of components, built from definitions.
type World struct {
	defs   []Def
	comps  []*Comp
	inputs []interface{}
	insrc  []Input
}

func (w *World) lexer(i int) parlex.Lexer {
	if i < 0 || i >= len(w.comps) || w.comps[i] == nil {
		return nil
	}
	if l, ok := w.comps[i].V.(parlex.Lexer); ok {
		return l
	}
	return nil
}
func (w *World) parser(i int) parlex.Parser {
	if i < 0 || i >= len(w.comps) || w.comps[i] == nil {
		return nil
	}
	if l, ok := w.comps[i].V.(parlex.Parser); ok {
		return l
	}
	return nil
}
func (w *World) grammar(i int) parlex.Grammar {
	if i < 0 || i >= len(w.comps) || w.comps[i] == nil {
		return nil
	}
	if l, ok := w.comps[i].V.(parlex.Grammar); ok {
		return l
	}
	return nil
}
func (w *World) reducer(i int) tree.Reducer {
	if i < 0 || i >= len(w.comps) || w.comps[i] == nil {
		return nil
	}
	if w.comps[i].Red != nil {
		return w.comps[i].Red
	}
	if l, ok := w.comps[i].V.(tree.Reducer); ok {
		return l
	}
	return nil
}

func (w *World) build(need []bool) {
	w.comps = make([]*Comp, len(w.defs))
	for i := range w.defs {
		if need == nil || need[i] {
			w.comps[i] = w.buildOne(&w.defs[i])
		}
	}
}

func errStr(err error) string {
	if err == nil {
		return ""
	}
	return "error: " + err.Error()
}

func (w *World) buildOne(d *Def) (c *Comp) {
	c = &Comp{K: d.K}
	defer func() {
		if r := recover(); r != nil {
			c.V, c.Red = nil, nil
			c.Err = renderPanic(r)
		}
	}()
	txt := ""
	if len(d.S) > 0 {
		txt = d.S[0]
	}
	dep := func(i int) int {
		if i < len(d.C) {
			return d.C[i]
		}
		return -1
	}
	needG := func() parlex.Grammar {
		g := w.grammar(dep(0))
		if g == nil {
			panic("no grammar")
		}
		return g
	}
	switch d.K {
	case "slex":
		l, err := simplelexer.New(d.S...)
		c.Err = errStr(err)
		if err == nil {
			c.V = l
		}
	case "stlex":
		l, err := stacklexer.New(d.S...)
		c.Err = errStr(err)
		if err == nil {
			c.V = l
		}
	case "gram":
		g, err := grammar.New(txt)
		c.Err = errStr(err)
		if err == nil {
			c.V = g
		}
	case "gadded":
		// a grammar assembled by calls
		g := grammar.Empty()
		cf := parseCFG(txt)
		for _, nt := range cf.Order {
			for _, p := range cf.Prods[nt] {
				g.Add(stringsymbol.Symbol(nt), mkStrProd(p))
			}
		}
		c.V = g
	case "regram":
		g, r, err := regexgram.New(txt)
		c.Err = errStr(err)
		if err == nil {
			c.V, c.Red = g, r
		}
	case "cbgram":
		c.V = mkCbGram(txt)
	case "strgram":
		c.V = mkStrGram(txt)
	case "rlr":
		c.V = grammar.RemoveLeftRecursion(needG())
	case "packrat":
		c.V = packrat.New(needG())
	case "topdown":
		t, err := topdown.New(needG())
		c.Err = errStr(err)
		if err == nil {
			c.V = t
		}
	case "ana":
		c.V = analyze.Analyze(needG())
	case "dsl":
		r, err := reducer.Parse(txt)
		c.Err = errStr(err)
		if err == nil {
			c.V = r
		}
	case "comb":
		c.V = mkComb(d.S)
	case "merge":
		a, b := w.reducer(dep(0)), w.reducer(dep(1))
		c.V = tree.Merge(a, b)
	case "cblex":
		l := w.lexer(dep(0))
		if l == nil {
			panic("no lexer")
		}
		c.V = &cbLexer{l}
	case "cbpar":
		p := w.parser(dep(0))
		if p == nil {
			panic("no parser")
		}
		c.V = &cbParser{p}
	case "cbred":
		r := w.reducer(dep(0))
		if r == nil {
			panic("no reducer")
		}
		c.V = &cbReducer{r}
	case "runner":
		l, p := w.lexer(dep(0)), w.parser(dep(1))
		if l == nil || p == nil {
			panic("no stage")
		}
		c.V = parlex.New(l, p, w.reducers(d.C[2:])...)
	}
	return c
}

func (w *World) reducers(idx []int) []parlex.Reducer {
	var rs []parlex.Reducer
	for _, i := range idx {
		if i >= 0 && i < len(w.comps) && w.comps[i] != nil {
			if x, ok := w.comps[i].V.(*cbReducer); ok {
				rs = append(rs, x)
				continue
			}
		}
		r := w.reducer(i)
		if r == nil {
			rs = append(rs, nil)
		} else {
			rs = append(rs, r)
		}
	}
	return rs
}

// stages of the client's own around the library's
type cbLexer struct{ l parlex.Lexer }

func (c *cbLexer) Lex(s string) []parlex.Lexeme {
	cb()
	r := c.l.Lex(s)
	cb()
	return r
}

type cbParser struct{ p parlex.Parser }

func (c *cbParser) Parse(l []parlex.Lexeme) parlex.ParseNode {
	cb()
	r := c.p.Parse(l)
	cb()
	return r
}

type cbReducer struct{ r tree.Reducer }

func (c *cbReducer) Can(n parlex.ParseNode) bool { cb(); return c.r.Can(n) }
func (c *cbReducer) Reduce(n parlex.ParseNode) parlex.ParseNode {
	cb()
	r := c.r.Reduce(n)
	cb()
	return r
}

func mkStrProd(p []string) stringsymbol.Production {
	q := stringsymbol.Production{}
	for _, s := range p {
		q = append(q, stringsymbol.Symbol(s))
	}
	return q
}

func (w *World) mkInputs(ins []Input) {
	w.insrc = ins
	for i := range ins {
		if ins[i].Tree != nil {
			w.inputs = append(w.inputs, mkTree(&ins[i]))
		} else {
			w.inputs = append(w.inputs, mkLexemes(&ins[i]))
		}
	}
}

// mkComb builds a reducer from library combinators and client callbacks. Each
// rule reads "Kind op arg arg|op arg".
func mkComb(rules []string) tree.Reducer {
	r := tree.Reducer{}
	for _, rule := range rules {
		f := strings.SplitN(rule, " ", 2)
		if len(f) < 2 {
			r.Add(f[0], nil)
			continue
		}
		r.Add(f[0], mkChain(f[1]))
	}
	return r
}

func mkChain(text string) tree.Reduction {
	var out tree.Reduction
	for _, seg := range strings.Split(text, "|") {
		out = addReduction(out, strings.Fields(seg))
	}
	return out
}

func addReduction(r tree.Reduction, f []string) tree.Reduction {
	if len(f) == 0 {
		return r
	}
	n := func(i int) int {
		if i < len(f) {
			x, _ := strconv.Atoi(f[i])
			return x
		}
		return 0
	}
	var nums []int
	for i := 1; i < len(f); i++ {
		nums = append(nums, n(i))
	}
	switch f[0] {
	case "PSC":
		if r == nil {
			return tree.PromoteSingleChild
		}
		return r.PromoteSingleChild()
	case "PGC":
		if r == nil {
			return tree.PromoteGrandChildren
		}
		return r.PromoteGrandChildren()
	case "RC":
		if r == nil {
			return tree.RemoveChild(n(1))
		}
		return r.RemoveChild(n(1))
	case "RCS":
		if r == nil {
			return tree.RemoveChildren(nums...)
		}
		return r.RemoveChildren(nums...)
	case "PCV":
		if r == nil {
			return tree.PromoteChildValue(n(1))
		}
		return r.PromoteChildValue(n(1))
	case "RWC":
		if r == nil {
			return tree.ReplaceWithChild(n(1))
		}
		return r.ReplaceWithChild(n(1))
	case "PCO":
		if r == nil {
			return tree.PromoteChildrenOf(n(1))
		}
		return r.PromoteChildrenOf(n(1))
	case "PC":
		if r == nil {
			return tree.PromoteChild(n(1))
		}
		return r.PromoteChild(n(1))
	case "RA":
		if r == nil {
			return tree.RemoveAll(f[1:]...)
		}
		return r.RemoveAll(f[1:]...)
	case "IF": // IF idx kind then-idx else-idx
		kind, idx := "", n(1)
		if len(f) > 2 {
			kind = f[2]
		}
		lib := tree.ChildIs(idx, kind)
		cond := func(x *tree.PN) bool { cb(); return lib(x) }
		return r.If(cond, tree.PromoteChild(n(3)), tree.RemoveChild(n(4)))
	case "HOOK":
		return tree.Chain(r, func(*tree.PN) { cb() })
	case "CAT": // client reduction: value becomes the children's values
		return tree.Chain(r, func(x *tree.PN) {
			cb()
			v := x.Value()
			for i, c := range x.C {
				if i < 8 && c != nil {
					v += c.Value()
				}
			}
			if len(v) > 200 {
				v = v[:200]
			}
			ln, col := x.Pos()
			x.Lexeme = lexeme.New(x.Kind()).Set(v).At(ln, col)
		})
	case "EDIT": // client reduction: edits the copy's lexeme in place
		return tree.Chain(r, func(x *tree.PN) {
			cb()
			if l, ok := x.Lexeme.(*lexeme.Lexeme); ok && len(l.V) < 200 {
				ln, col := l.Pos()
				l.Set(l.Value()+"'").At(ln, col+1)
			}
		})
	case "KIND": // client reduction: rename the node
		return tree.Chain(r, func(x *tree.PN) {
			cb()
			x.Lexeme = lexeme.New(stringsymbol.Symbol(f[1])).Set(x.Value()).At(x.Pos())
		})
	}
	return r
}

func renderPanic(r interface{}) string {
	if e, ok := r.(error); ok {
		return "panic: " + e.Error()
	}
	if s, ok := r.(string); ok {
		return "panic: " + s
	}
	return fmt.Sprintf("panic: %T", r)
}

var reCache = map[string]*regexp.Regexp{}

// config applies a configuration call.
func (w *World) config(op *Op) (res string) {
	defer func() {
		if r := recover(); r != nil {
			res = renderPanic(r)
		}
	}()
	if op.C >= len(w.comps) || w.comps[op.C] == nil {
		return "no component"
	}
	v := w.comps[op.C].V
	switch op.K {
	case "add":
		if l, ok := v.(*simplelexer.Lexer); ok {
			re, err := regexp.Compile(op.T)
			if err != nil {
				return "bad regexp"
			}
			var k parlex.Symbol = stringsymbol.Symbol(op.S)
			if op.N&2 != 0 {
				k = cbSym(op.S)
			}
			return errStr(l.Add(k, re, op.N&1 != 0))
		}
	case "instart":
		switch l := v.(type) {
		case *simplelexer.Lexer:
			l.InsertStart(op.S, op.T)
		case *stacklexer.StackLexer:
			l.InsertStart(op.S, op.T)
		}
	case "inend":
		switch l := v.(type) {
		case *simplelexer.Lexer:
			l.InsertEnd(op.S, op.T)
		case *stacklexer.StackLexer:
			l.InsertEnd(op.S, op.T)
		}
	case "bylen":
		switch l := v.(type) {
		case *simplelexer.Lexer:
			l.ByLength()
		case *stacklexer.StackLexer:
			l.ByLength()
		}
	case "byprio":
		switch l := v.(type) {
		case *simplelexer.Lexer:
			l.ByPriority()
		case *stacklexer.StackLexer:
			l.ByPriority()
		}
	case "errname":
		switch l := v.(type) {
		case *simplelexer.Lexer:
			l.Error = op.S
		case *stacklexer.StackLexer:
			l.Error = op.S
		}
	case "gadd":
		if g, ok := v.(*grammar.Grammar); ok {
			var p parlex.Production = mkStrProd(op.Strs)
			if op.N == 1 && len(op.Strs) == 0 {
				p = nil
			}
			if op.N == 2 {
				p = cbProd(op.Strs)
			}
			g.Add(stringsymbol.Symbol(op.S), p)
		}
	case "radd":
		if r := w.reducer(op.C); r != nil {
			r.Add(op.S, mkChain(op.T))
		}
	}
	return "ok"
}
