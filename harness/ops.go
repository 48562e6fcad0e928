package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/adamcolton/parlex"
	"github.com/adamcolton/parlex/analyze"
	"github.com/adamcolton/parlex/examples/parlexjson"
	"github.com/adamcolton/parlex/examples/parlexmath"
	"github.com/adamcolton/parlex/examples/scalc"
	"github.com/adamcolton/parlex/grammar"
	"github.com/adamcolton/parlex/grammar/regexgram"
	"github.com/adamcolton/parlex/lexeme"
	"github.com/adamcolton/parlex/lexer/simplelexer"
	"github.com/adamcolton/parlex/lexer/stacklexer"
	"github.com/adamcolton/parlex/parser/packrat"
	"github.com/adamcolton/parlex/parser/topdown"
	"github.com/adamcolton/parlex/symbol/setsymbol"
	"github.com/adamcolton/parlex/symbol/stringsymbol"
	"github.com/adamcolton/parlex/tree"
	"github.com/adamcolton/parlex/tree/reducer"
	sim "github.com/adamcolton/parlex/zzsim"
)

// exec makes one call. It returns the rendered result and the returned object
// (nil if there is nothing to hold on to). in is the resolved input.
func (w *World) exec(op *Op, in interface{}) (string, interface{}) {
	lexs, _ := in.([]parlex.Lexeme)
	node, _ := in.(parlex.ParseNode)
	noNode := isNilNode(node)
	switch op.K {
	case "lex", "lexstr", "lexlist", "lexerrs":
		l := w.lexer(op.C)
		if l == nil {
			return "no lexer", nil
		}
		ls := l.Lex(raw(op.S))
		switch op.K {
		case "lexstr":
			return parlex.LexemeString(ls...) + " // " + eachString(ls), nil
		case "lexlist":
			return parlex.LexemeList(ls), nil
		case "lexerrs":
			e := parlex.LexErrors(ls)
			return renderObj(e), e
		}
		return renderLexemes(ls), ls
	case "lstr":
		if l, ok := w.lexer(op.C).(*simplelexer.Lexer); ok {
			return l.String(), nil
		}
		return "no lexer", nil
	case "parse":
		p := w.parser(op.C)
		if p == nil {
			return "no parser", nil
		}
		t := p.Parse(lexs)
		return renderTree(t), t
	case "reduce", "rawred", "can":
		r := w.reducer(op.C)
		if r == nil {
			return "no reducer", nil
		}
		switch op.K {
		case "rawred":
			if noNode {
				return "no input", nil
			}
			t := r.RawReduce(node)
			return renderTree(t), t
		case "can":
			if noNode {
				return "no input", nil
			}
			return fmt.Sprint(r.Can(node)), nil
		}
		if noNode {
			node = nil
		}
		t := r.Reduce(node)
		return renderTree(t), t
	case "rkeys":
		return renderReducer(w.reducer(op.C)), nil
	case "clone":
		if noNode {
			return "no input", nil
		}
		t := tree.Clone(node)
		return renderTree(t), t
	case "tstr":
		if p, ok := node.(*tree.PN); ok && p != nil {
			return p.String(), nil
		}
		return "no input", nil
	case "size":
		if p, ok := node.(*tree.PN); ok && p != nil {
			return fmt.Sprint(p.Size()), nil
		}
		return "no input", nil
	case "childat":
		if p, ok := node.(*tree.PN); ok && p != nil {
			return fmt.Sprint(p.ChildAt(op.N, op.Strs...), p.ChildIs(op.N, op.S), p.Children()), nil
		}
		return "no input", nil
	case "run", "run2":
		if op.C >= len(w.comps) || w.comps[op.C] == nil {
			return "no runner", nil
		}
		r, ok := w.comps[op.C].V.(*parlex.Runner)
		if !ok {
			return "no runner", nil
		}
		var t parlex.ParseNode
		var err error
		if op.K == "run2" {
			d := w.defs[op.C]
			t, err = parlex.Run(raw(op.S), w.lexer(d.C[0]), w.parser(d.C[1]), w.reducers(d.C[2:])...)
		} else {
			t, err = r.Run(raw(op.S))
		}
		return renderTree(t) + " " + renderErr(err), t
	case "prods":
		g := w.grammar(op.C)
		if g == nil {
			return "no grammar", nil
		}
		ps := g.Productions(w.symbol(op))
		if ps == nil {
			return "no productions", nil
		}
		var out []parlex.Production
		for i := 0; i < ps.Productions(); i++ {
			out = append(out, ps.Production(i))
		}
		res := renderProds(ps)
		if s, ok := ps.(fmt.Stringer); ok && op.T != "" {
			res += " // " + s.String()
		}
		return res, out
	case "cast":
		g := w.grammar(op.C)
		if g == nil {
			return "no grammar", nil
		}
		set := setsymbol.New()
		if op.T == "load" {
			set.LoadGrammar(g)
		}
		s := w.symbol(op)
		ps := g.Productions(s)
		if ps == nil {
			return fmt.Sprint("no productions ", set.Has(op.S), set.HasSymbol(s) != nil, set.Size(), stringsymbol.CastSymbol(s)), nil
		}
		sp := set.CastProductions(ps)
		res := renderProds(sp) + " // " + sp.String()
		for _, p := range stringsymbol.CastProductions(ps) {
			res += " // " + p.String()
		}
		return fmt.Sprint(res, " ", set.Has(op.S), set.HasSymbol(s) != nil, set.Size(), stringsymbol.CastSymbol(s)), nil
	case "lxs":
		if lexs == nil {
			return "no input", nil
		}
		cp := make([]parlex.Lexeme, len(lexs))
		for i, l := range lexs {
			cp[i] = lexeme.Copy(l)
		}
		return renderLexemes(cp) + " // " + parlex.LexemeString(lexs...) + " // " + parlex.LexemeList(lexs) + " // " + renderObj(parlex.LexErrors(lexs)) + " // " + eachString(lexs), cp
	case "walk":
		if p, ok := node.(*tree.PN); ok && p != nil {
			var b strings.Builder
			walkNode(&b, p, op.T == "up")
			return b.String(), nil
		}
		return "no input", nil
	case "nts":
		g := w.grammar(op.C)
		if g == nil {
			return "no grammar", nil
		}
		s := g.NonTerminals()
		return renderSyms(s), s
	case "gstr":
		if g, ok := w.grammar(op.C).(*grammar.Grammar); ok && g != nil {
			return g.String(), nil
		}
		return "no grammar", nil
	case "gwalk":
		g := w.grammar(op.C)
		if g == nil {
			return "no grammar", nil
		}
		return renderGrammar(g), nil
	case "islr":
		g := w.grammar(op.C)
		if g == nil {
			return "no grammar", nil
		}
		return fmt.Sprint(parlex.IsLeftRecursive(g)), nil
	case "rmlr":
		g := w.grammar(op.C)
		if g == nil {
			return "no grammar", nil
		}
		x := grammar.RemoveLeftRecursion(g)
		return renderGrammar(x) + " // " + x.String(), x
	case "ana":
		g := w.grammar(op.C)
		if g == nil {
			return "no grammar", nil
		}
		return renderAna(analyze.Analyze(g), op.Strs), nil
	case "aq":
		a, ok := w.grammar(op.C).(*analyze.Analytics)
		if !ok || a == nil {
			return "no analysis", nil
		}
		s := w.symbol(op)
		switch op.H {
		case 0:
			return fmt.Sprint(a.Contains(s)), nil
		case 1:
			return fmt.Sprint(a.NonTerminal(s)), nil
		case 2:
			return fmt.Sprint(a.HasFirst(s, stringsymbol.Symbol(op.T))), nil
		case 3:
			return fmt.Sprint(a.HasNilInFirst(s)), nil
		}
		return renderAna(a, op.Strs), nil
	case "bslex":
		l, err := simplelexer.New(op.Strs...)
		if err != nil {
			return errStr(err), nil
		}
		return l.String() + " // " + renderLexemes(l.Lex(raw(op.S))), nil
	case "bstlex":
		if op.N == 1 {
			return renderLexemes(stacklexer.Must(op.Strs...).Lex(raw(op.S))), nil
		}
		l, err := stacklexer.New(op.Strs...)
		if err != nil {
			return errStr(err), nil
		}
		return renderLexemes(l.Lex(raw(op.S))), nil
	case "bgram":
		g, err := grammar.New(op.S)
		if err != nil {
			return errStr(err), nil
		}
		return renderGrammar(g) + " // " + g.String(), g
	case "bregex":
		g, r, err := regexgram.New(op.S)
		if err != nil {
			return errStr(err), nil
		}
		res := g.String() + " // " + renderReducer(r)
		if lexs != nil {
			t := packrat.New(g).Parse(lexs)
			res += " // " + renderTree(t)
			if !isNilNode(t) {
				res += " // " + renderTree(r.Reduce(t))
			}
		}
		return res, &pair{g, r}
	case "bdsl":
		r, err := reducer.Parse(op.S)
		if err != nil {
			return errStr(err), nil
		}
		res := renderReducer(r)
		if !noNode {
			res += " // " + renderTree(r.Reduce(node))
		}
		return res, r
	case "bmerge":
		a, b := w.reducer(op.C), w.reducer(op.N)
		r := tree.Merge(a, b)
		res := renderReducer(r)
		if !noNode {
			res += " // " + renderTree(r.Reduce(node))
		}
		return res, r
	case "btree":
		t, err := tree.New(op.S)
		if err != nil {
			return errStr(err), nil
		}
		return renderTree(t) + " // " + t.String(), t
	case "btopdown":
		g := w.grammar(op.C)
		if g == nil {
			return "no grammar", nil
		}
		p, err := topdown.New(g)
		if err != nil {
			return errStr(err), nil
		}
		t := p.Parse(lexs)
		return renderTree(t), t
	case "bpackrat":
		g := w.grammar(op.C)
		if g == nil {
			return "no grammar", nil
		}
		p, err := packrat.Constructor(g)
		if err != nil {
			return errStr(err), nil
		}
		t := p.Parse(lexs)
		return renderTree(t), t
	case "json":
		s, err := parlexjson.Format(op.S)
		return fmt.Sprintf("%q %s", s, renderErr(err)), nil
	case "math":
		f, err := parlexmath.Eval(op.S)
		return fmt.Sprint(f) + " " + renderErr(err), nil
	case "scalc":
		var out []string
		st := scalc.Eval(op.S)
		for _, f := range st {
			out = append(out, f.String(), fmt.Sprint(f.V, f.P))
		}
		return fmt.Sprintf("%v %v", st == nil, out), nil
	case "scalcp":
		t := scalc.Parse(op.S)
		return renderTree(t), t
	case "symset":
		return symset(op)
	}
	return "unknown operation " + op.K, nil
}

// eachString prints lexemes one by one.
func eachString(ls []parlex.Lexeme) string {
	var out []string
	for _, l := range ls {
		if s, ok := l.(*lexeme.Lexeme); ok {
			out = append(out, s.String())
		} else if s, ok := l.(fmt.Stringer); ok {
			out = append(out, s.String())
		}
	}
	return strings.Join(out, " | ")
}

// walkNode visits a tree through the interface.
func walkNode(b *strings.Builder, n parlex.ParseNode, up bool) {
	l, c := n.Pos()
	fmt.Fprintf(b, "%s %q %d %d {", n.Kind().String(), n.Value(), l, c)
	for i := 0; i < n.Children(); i++ {
		x := n.Child(i)
		if isNilNode(x) {
			b.WriteString("nil ")
			continue
		}
		if p := x.Parent(); up {
			fmt.Fprint(b, p == n, " ")
		}
		walkNode(b, x, up)
	}
	b.WriteString("}")
}

func (w *World) symbol(op *Op) parlex.Symbol {
	switch op.N {
	case 1:
		return cbSym(op.S)
	case 2: // a symbol the grammar itself handed out, if it has one
		if g := w.grammar(op.C); g != nil {
			for _, nt := range g.NonTerminals() {
				if nt.String() == op.S {
					return nt
				}
			}
		}
	case 3: // a symbol of another set
		s := setsymbol.New()
		s.Str("zz")
		return s.Str(op.S)
	}
	return stringsymbol.Symbol(op.S)
}

func renderErr(err error) string {
	if err == nil {
		return "no error"
	}
	if l, ok := err.(parlex.LexError); ok {
		b := &strings.Builder{}
		renderLexeme(b, l)
		return "lex error " + b.String()
	}
	return fmt.Sprintf("error %T %s", err, err.Error())
}

// symset exercises a symbol set of the call's own: productions made from it
// are extended one after the other and must not run into each other.
func symset(op *Op) (string, interface{}) {
	r := sim.NewRng(uint64(op.N))
	set := setsymbol.New()
	var prods []parlex.Production
	names := strings.Fields(op.S)
	if len(names) == 0 {
		return "", nil
	}
	pick := func() parlex.Symbol {
		n := names[r.N(len(names))]
		if r.P(1, 2) {
			return set.Str(n)
		}
		return stringsymbol.Symbol(n)
	}
	var model [][]string
	ps := set.Productions()
	var held []*setsymbol.Production
	var hmodel [][]string
	for i := 0; i < 3+r.N(8); i++ {
		var syms []parlex.Symbol
		var m []string
		for j := r.N(6); j > 0; j-- {
			s := pick()
			syms = append(syms, s)
			m = append(m, s.String())
		}
		p := set.Production(syms...)
		for j := r.N(4); j > 0; j-- {
			s := pick()
			p.AddSymbols(s)
			m = append(m, s.String())
		}
		ps.AddProductions(p)
		model = append(model, m)
		if r.P(1, 2) {
			q, ok := ps.Production(r.N(ps.Productions())).(*setsymbol.Production)
			if ok {
				held = append(held, q)
				hmodel = append(hmodel, strings.Fields(strings.Trim(renderProd(q), "<>")))
			}
		}
		if len(held) > 0 && r.P(2, 3) {
			k := r.N(len(held))
			s := pick()
			held[k].AddSymbols(s)
			hmodel[k] = append(append([]string{}, hmodel[k]...), s.String())
		}
	}
	for i, m := range model {
		prods = append(prods, ps.Production(i))
		if got, want := renderProd(ps.Production(i)), "<"+strings.Join(m, " ")+">"; got != want {
			return fmt.Sprintf("production %d became %s, was %s", i, got, want), nil
		}
	}
	for i, q := range held {
		if got, want := renderProd(q), "<"+strings.Join(hmodel[i], " ")+">"; got != want {
			return fmt.Sprintf("extended production %d became %s, was %s", i, got, want), nil
		}
	}
	return "ok", nil
}

// needsPkgs lists the packages with hidden state an operation reaches, beyond
// the core.
func opPkgs(op *Op, add func(string)) {
	switch op.K {
	case "bregex":
		add("regexgram")
	case "bdsl":
		add("regexgram")
		add("tree/reducer")
	case "json":
		add("regexgram")
		add("tree/reducer")
		add("parlexjson")
	case "math":
		add("parlexmath")
	case "scalc", "scalcp":
		add("scalc")
	}
	if op.F != nil && op.F.Sub != nil {
		opPkgs(op.F.Sub, add)
	}
}

func defPkgs(d *Def, add func(string)) {
	switch d.K {
	case "regram":
		add("regexgram")
	case "dsl":
		add("regexgram")
		add("tree/reducer")
	}
}

// edit changes a result in place through the public operations.
func edit(o interface{}, seed uint64, known []string) (desc string) {
	r := sim.NewRng(seed)
	defer func() {
		if x := recover(); x != nil {
			desc += " " + renderPanic(x)
		}
	}()
	sym := func() parlex.Symbol {
		if len(known) == 0 {
			return stringsymbol.Symbol("edited")
		}
		return stringsymbol.Symbol(known[r.N(len(known))])
	}
	switch x := o.(type) {
	case []parlex.Lexeme:
		if len(x) == 0 {
			return "nothing"
		}
		for k := 1 + r.N(4); k > 0; k-- {
			i := r.N(len(x))
			switch r.N(5) {
			case 4:
				// another one like one of the list
				if j := r.N(len(x)); x[j] != nil && x[j].Kind() != nil {
					x[i] = lexeme.String(x[j].Kind().String()).Set("other")
				}
			case 0:
				x[i] = lexeme.String("edited").Set("edited")
			case 1:
				j := r.N(len(x))
				x[i], x[j] = x[j], x[i]
			case 2:
				if l, ok := x[i].(*lexeme.Lexeme); ok {
					l.Set("edited").At(7, 7)
				}
			case 3:
				if l, ok := x[i].(*lexeme.Lexeme); ok {
					l.K = stringsymbol.Symbol("edited")
				}
			}
		}
		if cap(x) > len(x) {
			y := append(x, lexeme.String("edited"))
			_ = y
		}
		return "lexemes"
	case []parlex.LexError:
		for i := range x {
			x[i] = nil
		}
		return "errors"
	case []parlex.Symbol:
		for i := range x {
			if r.P(1, 2) {
				x[i] = stringsymbol.Symbol("edited")
			}
		}
		if len(x) > 1 {
			x[0], x[len(x)-1] = x[len(x)-1], x[0]
		}
		y := append(x, stringsymbol.Symbol("edited"))
		_ = y
		return "symbols"
	case []parlex.Production:
		// only symbols the production's grammar knows: a new one would be
		// registered with the grammar, which is a change to the grammar
		known = nil
		for _, p := range x {
			if p != nil {
				known = append(known, strings.Fields(strings.Trim(renderProd(p), "<>"))...)
			}
		}
		if len(known) == 0 {
			return "nothing"
		}
		for k := 1 + r.N(3); k > 0 && len(x) > 0; k-- {
			if p, ok := x[r.N(len(x))].(*setsymbol.Production); ok && p != nil {
				p.AddSymbols(sym())
				if r.P(1, 2) {
					p.AddSymbols(sym(), sym())
				}
			}
		}
		return "productions"
	case tree.Reducer:
		ks := make([]string, 0, len(x))
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			if r.P(1, 2) {
				x.Add(k, tree.RemoveChild(0))
			}
		}
		x.Add("E", tree.PromoteChild(0))
		if len(ks) > 0 {
			delete(x, ks[r.N(len(ks))])
		}
		return "reducer"
	case *grammar.Grammar:
		if x != nil {
			for k := 1 + r.N(3); k > 0; k-- {
				x.Add(sym(), mkStrProd([]string{"edited", "E"}))
			}
		}
		return "grammar"
	case *pair:
		return edit(x.a, seed, known) + edit(x.b, seed+1, known)
	case *tree.PN:
		return editTree(r, x)
	}
	return "nothing"
}

func editTree(r *sim.Rng, root *tree.PN) (desc string) {
	if root == nil {
		return "nothing"
	}
	for k := 1 + r.N(5); k > 0; k-- {
		n := root
		for d := r.N(6); d > 0 && len(n.C) > 0; d-- {
			if c := n.C[r.N(len(n.C))]; c != nil {
				n = c
			}
		}
		if r.P(1, 3) {
			// any node, however deep
			all := []*tree.PN{root}
			for j := 0; j < len(all) && len(all) < 3000; j++ {
				for _, c := range all[j].C {
					if c != nil {
						all = append(all, c)
					}
				}
			}
			n = all[r.N(len(all))]
			for r.P(1, 2) && len(n.C) > 0 && n.C[0] != nil {
				n = n.C[0]
			}
		}
		i := r.N(5) - 2
		if r.P(1, 6) && len(n.C) > 0 {
			i = r.N(len(n.C))
		}
		switch r.N(13) {
		case 0:
			n.RemoveChild(i)
		case 1:
			n.RemoveChildren(i, i+1)
		case 2:
			n.PromoteChild(i)
		case 3:
			n.PromoteChildrenOf(i)
		case 4:
			n.PromoteChildValue(i)
		case 5:
			n.PromoteGrandChildren()
		case 6:
			n.PromoteSingleChild()
		case 7:
			n.ReplaceWithChild(i)
		case 8:
			if len(n.C) > 0 && n.C[0] != nil {
				n.RemoveAll(n.C[0].Kind().String())
			}
		case 9:
			if l, ok := n.Lexeme.(*lexeme.Lexeme); ok {
				l.Set("edited").At(9, 9)
			}
		case 10:
			n.Lexeme = lexeme.String("edited").Set("e")
		case 11:
			if len(n.C) > 1 {
				n.C[0], n.C[len(n.C)-1] = n.C[len(n.C)-1], n.C[0]
			}
		case 12:
			n.C = append(n.C, &tree.PN{Lexeme: lexeme.String("edited")})
		}
	}
	return "tree"
}
