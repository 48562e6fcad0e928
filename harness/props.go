package main

import (
	"fmt"
	"strings"

	sim "github.com/adamcolton/parlex/zzsim"
)

// kit is a set of components of one language.
type kit struct {
	f       *Fam
	defs    []Def
	lexers  []int
	grams   []int
	parsers []int
	anas    []int
	reds    []int
	runners []int
	rgram   []int // grammars whose symbols the generator does not know
	syms    []string
}

func (k *kit) add(d Def) int {
	k.defs = append(k.defs, d)
	return len(k.defs) - 1
}

func (k *kit) addLexer(r rng) {
	if k.f.Stack != nil {
		k.lexers = append(k.lexers, k.add(Def{K: "stlex", S: k.f.Stack}))
	} else {
		k.lexers = append(k.lexers, k.add(Def{K: "slex", S: k.f.Lex}))
	}
}

// addGrammar adds one grammar; cbOK allows client-supplied ones.
func (k *kit) addGrammar(r rng, cbOK, cbOnly bool) int {
	kind := pick(r, []string{"gram", "gram", "gram", "gadded", "strgram", "rlr", "regram"})
	if cbOK && r.P(1, 3) || cbOnly {
		kind = "cbgram"
	}
	f := k.f
	switch kind {
	case "rlr":
		base := k.add(Def{K: "gram", S: []string{f.Gram}})
		k.grams = append(k.grams, base)
		g := k.add(Def{K: "rlr", C: []int{base}})
		k.grams = append(k.grams, g)
		return g
	case "regram":
		txt := f.Regex
		if txt == "" {
			g := k.add(Def{K: "gram", S: []string{f.Gram}})
			k.grams = append(k.grams, g)
			return g
		}
		g := k.add(Def{K: "regram", S: []string{txt}})
		k.grams = append(k.grams, g)
		k.reds = append(k.reds, g)
		return g
	}
	g := k.add(Def{K: kind, S: []string{f.Gram}})
	k.grams = append(k.grams, g)
	return g
}

func (k *kit) addParser(r rng, g int) int {
	kind := "packrat"
	if (!k.f.NoTD || k.defs[g].K == "rlr") && r.P(1, 2) {
		kind = "topdown"
	}
	p := k.add(Def{K: kind, C: []int{g}})
	k.parsers = append(k.parsers, p)
	return p
}

func (k *kit) addReducer(r rng, dsl bool) int {
	f := k.f
	var d Def
	switch {
	case r.P(1, 30):
		d = Def{K: "comb"} // no rules
	case dsl && r.P(1, 30):
		d = Def{K: "dsl", S: []string{""}}
	case dsl && len(f.Dsl) > 0 && r.P(1, 3):
		d = Def{K: "dsl", S: []string{pick(r, f.Dsl)}}
	case len(k.reds) > 1 && r.P(1, 4):
		d = Def{K: "merge", C: []int{pick(r, k.reds), pick(r, k.reds)}}
	case len(f.Comb) > 0:
		d = Def{K: "comb", S: pick(r, f.Comb)}
	default:
		d = Def{K: "comb", S: []string{"E HOOK|PSC", "A CAT|RC 0"}}
	}
	i := k.add(d)
	k.reds = append(k.reds, i)
	return i
}

func (k *kit) symbols() []string {
	if k.syms == nil {
		k.f.init()
		if k.f.cfg != nil {
			k.syms = append(append([]string{}, k.f.cfg.Order...), k.f.terms...)
		}
		k.syms = append(k.syms, "nowhere", "E'", "Error")
	}
	return k.syms
}

// ---- operations

func (k *kit) opLex(r rng, texts []string) Op {
	kind := pick(r, []string{"lex", "lex", "lex", "lex", "lexerrs", "lexstr", "lexlist", "lstr"})
	c := pick(r, k.lexers)
	if kind == "lstr" && k.defs[c].K != "slex" {
		kind = "lex"
	}
	o := Op{K: kind, C: c}
	if kind != "lstr" {
		o.S = pick(r, texts)
	}
	return o
}

func (k *kit) opParse(r rng, ks []string, ins []Input, cbOK bool) Op {
	o := Op{K: "parse", C: pick(r, k.parsers)}
	if r.P(1, 12) {
		o = Op{K: "lxs"}
	}
	k.setToks(r, &o, ks, ins, cbOK)
	return o
}

func (k *kit) setToks(r rng, o *Op, ks []string, ins []Input, cbOK bool) {
	var shared []int
	for i := range ins {
		if ins[i].Tree == nil {
			shared = append(shared, i+1)
		}
	}
	if len(shared) > 0 && r.P(1, 2) {
		o.I = pick(r, shared)
		return
	}
	if r.P(1, 3) {
		ks = k.f.kinds(r, size(r))
	}
	o.In = &Input{Toks: k.f.toks(r, ks), Cb: cbOK && r.P(1, 3)}
	if o.In.Toks == nil {
		o.In.Toks = []Tok{}
	}
}

func (k *kit) setTree(r rng, o *Op, ins []Input, cbOK bool) {
	var shared []int
	for i := range ins {
		if ins[i].Tree != nil {
			shared = append(shared, i+1)
		}
	}
	if len(shared) > 0 && r.P(1, 2) {
		o.I = pick(r, shared)
		return
	}
	o.In = &Input{Tree: k.f.tree(r, size(r)), Cb: cbOK && r.P(1, 3)}
}

func (k *kit) opGram(r rng) Op {
	g := pick(r, k.grams)
	if len(k.parsers) > 0 && r.P(1, 10) {
		g = pick(r, k.parsers) // a parser is its grammar as well
	}
	if len(k.anas) > 0 && r.P(1, 4) {
		o := Op{K: "aq", C: pick(r, k.anas), S: pick(r, k.symbols()), N: r.N(4), H: r.N(5)}
		if o.H == 2 {
			o.T = pick(r, k.symbols())
		}
		if o.H == 4 {
			o.Strs = k.symbols()
			o.S = ""
		}
		return o
	}
	switch r.N(9) {
	case 0, 1, 2:
		x := Op{K: "prods", C: g, S: pick(r, k.symbols()), N: r.N(4)}
		switch r.N(5) {
		case 0:
			x.T = "print"
		case 1:
			x.K, x.T = "cast", pick(r, []string{"", "load"})
		}
		return x
	case 3:
		return Op{K: "nts", C: g}
	case 4:
		return Op{K: "gstr", C: g}
	case 5:
		return Op{K: "islr", C: g}
	case 6:
		return Op{K: "rmlr", C: g}
	case 7:
		return Op{K: "ana", C: g, Strs: k.symbols()}
	}
	return Op{K: "gwalk", C: g}
}

func (k *kit) opTree(r rng, ins []Input, cbOK bool) Op {
	o := Op{K: pick(r, []string{"reduce", "reduce", "reduce", "rawred", "can", "clone", "tstr", "size", "childat", "bmerge", "rkeys", "walk"})}
	switch o.K {
	case "reduce", "rawred", "can", "rkeys":
		o.C = pick(r, k.reds)
	case "bmerge":
		o.C, o.N = pick(r, k.reds), pick(r, k.reds)
	case "walk":
		o.T = "up" // the trees clients make are consistent; results need not be
	case "childat":
		o.N, o.S, o.Strs = r.N(5)-2, pick(r, k.symbols()), []string{pick(r, k.symbols()), pick(r, k.symbols())}
	}
	if o.K != "rkeys" {
		k.setTree(r, &o, ins, cbOK && o.K != "tstr" && o.K != "size" && o.K != "childat" && o.K != "walk")
	}
	return o
}

func (k *kit) opRun(r rng, texts []string) Op {
	return Op{K: pick(r, []string{"run", "run", "run", "run2"}), C: pick(r, k.runners), S: pick(r, texts)}
}

func opEntry(r rng) Op {
	switch r.N(8) {
	case 0, 1:
		return Op{K: "json", S: jsonText(r)}
	case 2, 3, 4:
		return Op{K: "math", S: mathText(r)}
	case 5, 6:
		return Op{K: "scalc", S: scalcText(r)}
	}
	return Op{K: "scalcp", S: scalcText(r)}
}

func opBuild(r rng, heavy bool) Op {
	q := sim.NewRng(uint64(5000 + r.N(40)))
	n := 4
	if heavy {
		n = 8
	}
	if r.P(1, 3) {
		// texts of its own
		q = sim.NewRng(uint64(6000 + r.N(5000)))
		switch q.N(n) {
		case 0:
			f := randLex(q)
			return Op{K: "bslex", Strs: f.Lex, S: f.text(q, 5)}
		case 1:
			f := randStack(q)
			return Op{K: "bstlex", Strs: f.Stack, S: f.text(q, 8), N: q.N(2)}
		case 2:
			return Op{K: "bgram", S: randFam(q).Gram}
		case 4:
			return Op{K: "bregex", S: randRegex(q)}
		case 5:
			f := randFam(q)
			return Op{K: "bdsl", S: pick(q, f.Dsl), In: &Input{Tree: f.tree(q, 6)}}
		}
		return Op{K: "btree", S: treeText(q)}
	}
	switch r.N(n) {
	case 0:
		f := pick(q, []*Fam{mathFam, kwFam, listFam, nilFam})
		return Op{K: "bslex", Strs: f.Lex, S: f.init().text(q, 5)}
	case 1:
		f := pick(q, stackFams)
		return Op{K: "bstlex", Strs: f.Stack, S: f.text(q, 6)}
	case 2:
		return Op{K: "bgram", S: pick(q, gramTexts)}
	case 3:
		return Op{K: "btree", S: pick(q, treeTexts)}
	case 4, 5:
		return Op{K: "bregex", S: pick(q, regexTexts)}
	}
	return Op{K: "bdsl", S: pick(q, dslTexts), In: &Input{Tree: probeTree}}
}

// ---------------------------------------------------------------- generators

func sched(r rng, est uint64) Sched {
	s := Sched{Seed: r.U64()}
	switch r.N(9) {
	case 0, 1:
		s.Mode, s.Num, s.Den = "rand", 1, pick(r, []int{2, 3, 8})
	case 2, 3:
		s.Mode, s.Num, s.Den = "rand", 1, pick(r, []int{20, 60, 200, 800})
	case 4, 5:
		s.Mode, s.Num, s.Den = "hot", 1, pick(r, []int{10, 50, 300, 2000})
	default:
		s.Mode, s.D, s.Est = "pct", 1+r.N(5), est+10
	}
	if r.P(1, 5) {
		s.Slow = 20 + r.N(150)
	}
	return s
}

// trim drops calls until the run is affordable.
func trim(o *Oracle, sp *Spec) {
	if prof == (profile{}) {
		return
	}
	const most = 12000000
	var n uint64
	keep := func(ops []Op) []Op {
		for i := range ops {
			if configOps[ops[i].K] || ops[i].K == "edit" || ops[i].H > 0 && ops[i].K != "aq" {
				continue
			}
			n += o.Solo(sp.Defs, sp.Setup, sp.Inputs, &ops[i]).Steps * uint64(max(1, ops[i].Rep))
			if n > most {
				return ops[:i]
			}
		}
		return ops
	}
	for i := range sp.Tasks {
		sp.Tasks[i] = keep(sp.Tasks[i])
	}
	sp.Warm = keep(sp.Warm)
}

// soloEst sums what the calls cost alone.
func soloEst(o *Oracle, sp *Spec) uint64 {
	var n uint64
	for _, t := range sp.Tasks {
		for i := range t {
			if !configOps[t[i].K] && t[i].K != "edit" && t[i].H == 0 {
				n += o.Solo(sp.Defs, sp.Setup, sp.Inputs, &t[i]).Steps
			}
		}
	}
	return n
}

func (k *kit) lexSetup(r rng) []Op {
	var out []Op
	for _, l := range k.lexers {
		for _, c := range []Op{
			{K: "instart", C: l, S: "BEGIN", T: "b"}, {K: "inend", C: l, S: "END", T: "e"},
			{K: "byprio", C: l}, {K: "errname", C: l, S: pick(r, []string{"Oops", "word", "number", "Bad"})},
			{K: "add", C: l, S: "extra", T: `%+`}, {K: "add", C: l, S: "extra2", T: `~\s*`, N: 3},
		} {
			if r.P(1, 6) && (c.K != "add" || k.defs[l].K == "slex") {
				out = append(out, c)
			}
		}
	}
	return out
}

// setup configures the components once they are built.
func (k *kit) setup(r rng) []Op {
	var out []Op
	if len(k.lexers) > 0 {
		out = k.lexSetup(r)
		if r.P(1, 3) {
			out = nil
		}
		if r.P(1, 5) {
			for j := 1 + r.N(3); j > 0; j-- {
				if c, ok := k.randConfig(r); ok {
					out = append(out, c)
				}
			}
		}
	}
	return out
}

// warm is a history that goes before the concurrent part.
func warm(r rng, o *Oracle, mk func() Op) []Op {
	var out []Op
	for i := 0; i < prof.warm; i++ {
		x := mk()
		if x.H > 0 && x.K != "aq" {
			continue
		}
		out = append(out, x)
	}
	return out
}

// often repeats one of some calls, a cheap and plain one, more times than fit in
// sixteen bits.
func often(r rng, o *Oracle, sp *Spec, ops []Op) {
	for try := 0; try < 12 && len(ops) > 0; try++ {
		x := &ops[r.N(len(ops))]
		if x.F != nil || x.H > 0 || x.Rep > 1 || configOps[x.K] || x.K == "edit" || x.K == "aq" || x.K == "around" {
			continue
		}
		y := clone(*x)
		if textOps[y.K] && len(y.S) > 2 {
			rs := []rune(y.S)
			y.S = string(rs[:1+r.N(3)%len(rs)])
		} else if y.In != nil && len(y.In.Toks) > 2 {
			y.In.Toks = y.In.Toks[:1+r.N(2)]
		}
		if e := o.Solo(sp.Defs, sp.Setup, sp.Inputs, &y); !e.Overrun && !e.NoBuild && e.Steps < 180 {
			*x = y
			x.Rep = 65400 + r.N(800)
			return
		}
	}
}

// nest makes the call from inside itself, d deep.
func nest(r rng, o *Oracle, sp *Spec, x Op, d int) Op {
	e := o.Solo(sp.Defs, sp.Setup, sp.Inputs, &x)
	if e.Overrun || e.Cbs == 0 {
		return x
	}
	if e.Steps > 4000 {
		d = 6
	} else if e.Steps < 400 && r.P(1, 10) {
		d = 1000 + r.N(200)
	} else if e.Steps < 1500 && r.P(1, 6) {
		d = 100 + r.N(200)
	}
	out := clone(x)
	for ; d > 0; d-- {
		sub := out
		out = clone(x)
		out.F = &Fault{At: 1 + r.N(e.Cbs), Kind: "reenter", Sub: &sub}
	}
	return out
}

// smallish keeps concurrent runs affordable.
func smallish(r rng) int {
	n := size(r)
	if n > 30 && !prof.big && r.P(3, 4) {
		n = 1 + r.N(10)
	}
	return n
}

func genC01(r rng, o *Oracle) *Spec {
	f := anyLexFam(r).init()
	k := &kit{f: f}
	for n := 1 + r.N(2); n > 0; n-- {
		k.addLexer(r)
	}
	k.addTwins(r)
	sp := &Spec{Fam: f.Name, Setup: k.lexSetup(r)}
	texts := f.texts(r, 4, smallish(r))
	sp.Warm = warm(r, o, func() Op { return k.opLex(r, f.texts(r, 1, smallish(r))) })
	for c := clients(r, 2, 4); c > 0; c-- {
		var ops []Op
		for j := calls(r, 1, 4); j > 0; j-- {
			ops = append(ops, k.opLex(r, texts))
		}
		sp.Tasks = append(sp.Tasks, ops)
	}
	for j := 0; j < 2; j++ {
		sp.Post = append(sp.Post, k.opLex(r, texts))
	}
	sp.Defs = k.defs
	return sp
}

func genC02(r rng, o *Oracle) *Spec {
	f := anyGramFam(r)
	k := &kit{f: f}
	for n := 1 + r.N(2); n > 0; n-- {
		g := k.addGrammar(r, true, false)
		for p := 1 + r.N(2); p > 0; p-- {
			k.addParser(r, g)
		}
		if r.P(1, 2) {
			a := k.add(Def{K: "ana", C: []int{g}})
			k.anas = append(k.anas, a)
			if r.P(1, 2) {
				k.grams = append(k.grams, a)
				k.addParser(r, a)
			}
		}
	}
	k.addTwins(r)
	sp := &Spec{Fam: f.Name, Defs: k.defs}
	if r.P(1, 6) {
		for n := 1 + r.N(3); n > 0; n-- {
			x := Op{K: "gadd", C: pick(r, k.grams), S: pick(r, k.symbols()), N: r.N(3)}
			for j := r.N(4); j > 0; j-- {
				x.Strs = append(x.Strs, pick(r, k.symbols()))
			}
			sp.Setup = append(sp.Setup, x)
		}
	}
	ks := f.kinds(r, smallish(r))
	for n := r.N(3); n > 0; n-- {
		sp.Inputs = append(sp.Inputs, Input{Toks: f.toks(r, ks), Cb: r.P(1, 4)})
	}
	mk := func() Op {
		if r.P(1, 2) {
			return k.opParse(r, ks, sp.Inputs, true)
		}
		if r.P(1, 6) {
			x := Op{K: pick(r, []string{"btopdown", "bpackrat"}), C: pick(r, k.grams)}
			k.setToks(r, &x, ks, sp.Inputs, true)
			return x
		}
		return k.opGram(r)
	}
	sp.Warm = warm(r, o, mk)
	for c := clients(r, 2, 3); c > 0; c-- {
		var ops []Op
		for j := calls(r, 1, 3); j > 0; j-- {
			ops = append(ops, mk())
		}
		sp.Tasks = append(sp.Tasks, ops)
	}
	for j := 0; j < 2; j++ {
		sp.Post = append(sp.Post, mk())
	}
	return sp
}

func genC03(r rng, o *Oracle) *Spec {
	f := anyGramFam(r)
	k := &kit{f: f}
	if f.Regex != "" && r.P(1, 3) {
		g := k.add(Def{K: "regram", S: []string{f.Regex}})
		k.reds = append(k.reds, g)
	}
	for n := 1 + r.N(3); n > 0; n-- {
		k.addReducer(r, true)
	}
	k.addTwins(r)
	sp := &Spec{Fam: f.Name, Defs: k.defs}
	if r.P(1, 6) {
		for n := 1 + r.N(3); n > 0; n-- {
			sp.Setup = append(sp.Setup, Op{K: "radd", C: pick(r, k.reds), S: pick(r, k.symbols()), T: pick(r, raddTexts)})
		}
	}
	for n := 1 + r.N(2); n > 0; n-- {
		sp.Inputs = append(sp.Inputs, Input{Tree: f.tree(r, smallish(r)+2), Cb: r.P(1, 5)})
	}
	sp.Warm = warm(r, o, func() Op { return k.opTree(r, sp.Inputs, true) })
	for c := clients(r, 2, 4); c > 0; c-- {
		var ops []Op
		for j := calls(r, 1, 4); j > 0; j-- {
			x := k.opTree(r, sp.Inputs, true)
			if len(ops) > 0 && r.P(1, 5) {
				x.I, x.In, x.H, x.T = 0, nil, 1+r.N(len(ops)), ""
			}
			ops = append(ops, x)
		}
		sp.Tasks = append(sp.Tasks, ops)
	}
	for j := 0; j < 2; j++ {
		sp.Post = append(sp.Post, k.opTree(r, sp.Inputs, true))
	}
	return sp
}

// runnerKit is a whole pipeline with cheap inputs.
func runnerKit(r rng, dsl, cbs bool) *kit {
	f := anyGramFam(r)
	k := &kit{f: f}
	k.addLexer(r)
	g := k.addGrammar(r, cbs, false)
	k.addParser(r, g)
	for n := r.N(3); n > 0; n-- {
		k.addReducer(r, dsl)
	}
	k.addTwins(r)
	for n := 1 + r.N(2); n > 0; n-- {
		l, p := pick(r, k.lexers), pick(r, k.parsers)
		if cbs && r.P(1, 3) {
			l = k.add(Def{K: "cblex", C: []int{l}})
		}
		if cbs && r.P(1, 3) {
			p = k.add(Def{K: "cbpar", C: []int{p}})
		}
		c := []int{l, p}
		for j := r.N(4); j > 0 && len(k.reds) > 0; j-- {
			if r.P(1, 6) {
				c = append(c, -1)
			} else {
				x := pick(r, k.reds)
				if cbs && r.P(1, 3) {
					x = k.add(Def{K: "cbred", C: []int{x}})
				}
				c = append(c, x)
			}
		}
		k.runners = append(k.runners, k.add(Def{K: "runner", C: c}))
	}
	return k
}

func genC04(r rng, o *Oracle) *Spec {
	mode := r.N(4)
	sp := &Spec{}
	var mk func() Op
	switch mode {
	case 0: // one runner
		k := runnerKit(r, r.P(1, 4), true)
		sp.Fam, sp.Defs, sp.Setup = k.f.Name, k.defs, k.setup(r)
		texts := k.f.texts(r, 4, smallish(r))
		mk = func() Op { return k.opRun(r, texts) }
	case 1: // entry points of one package
		sp.Fam = "entry"
		w := r.N(3)
		mk = func() Op {
			switch w {
			case 0:
				return Op{K: "json", S: jsonText(r)}
			case 1:
				return Op{K: "math", S: mathText(r)}
			}
			return Op{K: pick(r, []string{"scalc", "scalcp"}), S: scalcText(r)}
		}
	case 2: // builders
		sp.Fam = "builders"
		heavy := r.P(2, 3)
		w := 0
		if heavy {
			w = r.N(3)
		}
		trees := !heavy && r.P(1, 4)
		mk = func() Op {
			if trees {
				return Op{K: "btree", S: treeText(r)}
			}
			if heavy && w > 0 && r.P(2, 3) {
				if w == 1 {
					return Op{K: "bregex", S: pick(r, regexTexts)}
				}
				return Op{K: "bdsl", S: pick(r, dslTexts), In: &Input{Tree: probeTree}}
			}
			return opBuild(r, heavy)
		}
	default: // everything at once
		sp.Fam = "mixed"
		mk = func() Op {
			if r.P(1, 2) {
				return opEntry(r)
			}
			return opBuild(r, r.P(1, 2))
		}
	}
	sp.Warm = warm(r, o, mk)
	for c := clients(r, 2, 3); c > 0; c-- {
		var ops []Op
		for j := calls(r, 1, 3); j > 0; j-- {
			ops = append(ops, mk())
		}
		sp.Tasks = append(sp.Tasks, ops)
	}
	sp.Post = []Op{mk(), mk()}
	return sp
}

// genC05: build under several map orders, then probe under the canonical one.
func genC05(r rng, o *Oracle) *Spec {
	sp := &Spec{}
	k := &kit{}
	var probes []Op
	switch r.N(8) {
	case 0, 1:
		f := anyLexFam(r).init()
		if r.P(1, 2) {
			f = anyStack(r)
		}
		k.f = f
		k.addLexer(r)
		if r.P(1, 2) {
			k.addLexer(r)
		}
		texts := f.texts(r, 3, size(r))
		for j := 0; j < 5; j++ {
			probes = append(probes, k.opLex(r, texts))
		}
	case 2:
		f := randStack(r)
		k.f = f
		k.addLexer(r)
		k.addLexer(r)
		texts := f.texts(r, 3, size(r))
		for j := 0; j < 5; j++ {
			probes = append(probes, k.opLex(r, texts))
		}
	case 3, 4:
		f := anyGramFam(r)
		k.f = f
		g := k.addGrammar(r, false, false)
		k.addParser(r, g)
		a := k.add(Def{K: "ana", C: []int{g}})
		k.anas = append(k.anas, a)
		ks := f.kinds(r, smallish(r))
		for j := 0; j < 3; j++ {
			probes = append(probes, k.opGram(r), k.opParse(r, ks, nil, false))
		}
	case 5:
		f := anyGramFam(r)
		k.f = f
		for j := 0; j < 3; j++ {
			k.addReducer(r, true)
		}
		if len(k.reds) > 1 {
			k.reds = append(k.reds, k.add(Def{K: "merge", C: []int{k.reds[0], k.reds[1]}}))
		}
		for j := 0; j < 5; j++ {
			probes = append(probes, k.opTree(r, nil, false))
		}
	case 6:
		f := &Fam{Name: "regex", Vals: map[string]func(rng) string{}}
		txt := randRegex(r)
		if r.P(1, 3) {
			txt = pick(r, regexTexts)
		}
		k.f = f
		g := k.add(Def{K: "regram", S: []string{txt}})
		p := k.add(Def{K: "packrat", C: []int{g}})
		k.grams, k.reds, k.parsers = []int{g}, []int{g}, []int{p}
		probes = append(probes, Op{K: "gstr", C: g}, Op{K: "gwalk", C: g}, Op{K: "rkeys", C: g})
		for j := 0; j < 3; j++ {
			var ts []Tok
			for n := r.N(6); n > 0; n-- {
				ts = append(ts, Tok{K: pick(r, []string{"a", "b", "c", "d", "x"}), V: digits(1)(r)})
			}
			if ts == nil {
				ts = []Tok{}
			}
			probes = append(probes, Op{K: "parse", C: p, In: &Input{Toks: ts}})
		}
	default: // the hidden components behind the entry points, the constructors
		k.f = mathFam
		for j := 0; j < 3; j++ {
			probes = append(probes, opEntry(r), opBuild(r, true))
		}
	}
	if n := len(k.defs); n > 0 && r.P(1, 2) {
		// built again and again in one process
		m := 1 + r.N(3)
		if r.P(1, 8) {
			m = 4 + r.N(12)
		}
		for j := 0; j < m; j++ {
			for _, d := range k.defs[:n] {
				d = clone(d)
				for x := range d.C {
					if d.C[x] >= 0 {
						d.C[x] += n * (j + 1)
					}
				}
				k.defs = append(k.defs, d)
			}
		}
		for i := range probes {
			if usesComp(probes[i].K) {
				x := n * r.N(m+1)
				probes[i].C += x
				if probes[i].K == "bmerge" {
					probes[i].N += x
				}
			}
		}
	} else if n == 0 && r.P(1, 3) {
		for j := 2 + r.N(6); j > 0; j-- {
			probes = append(probes, clone(pick(r, probes)))
		}
	}
	sp.Fam, sp.Defs = k.f.Name, k.defs
	sp.Tasks = [][]Op{probes}
	sp.Build = []uint64{1, 2 + r.U64()%1000000, 2 + r.U64()%1000000}
	if r.P(1, 2) {
		sp.RtSeed = 1 + r.U64()%1000000
	}
	// calls that build do so under the shuffled order as well
	for _, p := range probes {
		if len(p.K) > 0 && p.K[0] == 'b' {
			sp.MapOrd = 2 + r.U64()%1000000
		}
	}
	return sp
}

// genC06: build under the canonical order, then call under shuffled ones.
func genC06(r rng, o *Oracle) *Spec {
	sp := &Spec{}
	k := runnerKit(r, r.P(1, 4), true)
	g := k.grams[len(k.grams)-1]
	if r.P(1, 3) {
		a := k.add(Def{K: "ana", C: []int{g}})
		k.anas = append(k.anas, a)
	}
	if len(k.reds) == 0 {
		k.addReducer(r, false)
	}
	f := k.f
	ks := f.kinds(r, size(r))
	texts := f.texts(r, 3, size(r))
	var ops []Op
	for n := 2 + r.N(4); n > 0; n-- {
		var x Op
		switch r.N(8) {
		case 0:
			x = k.opLex(r, texts)
		case 1, 2, 3:
			x = k.opParse(r, ks, nil, true)
		case 4:
			x = k.opTree(r, nil, true)
		case 5:
			x = k.opGram(r)
		case 6:
			x = k.opRun(r, texts)
		case 7:
			if r.P(1, 4) {
				x = opEntry(r)
			} else {
				x = k.opParse(r, ks, nil, true)
			}
		}
		x.Rep = 1 + r.N(3)
		if r.P(1, 40) {
			x.Rep = 1 + min(150, int(150000/(o.Solo(k.defs, nil, nil, &x).Steps+1)))
		}
		ops = append(ops, x)
	}
	sp.Fam, sp.Defs, sp.Setup = f.Name, k.defs, k.setup(r)
	sp.Tasks = [][]Op{ops}
	sp.MapOrd = 1 + r.U64()%1000000
	if r.P(1, 2) {
		sp.RtSeed = 1 + r.U64()%1000000
	}
	return sp
}

// genC07: one long history with configuration changes, failures and panics.
func genC07(r rng, o *Oracle) *Spec {
	sp := &Spec{}
	f := anyGramFam(r)
	k := &kit{f: f}
	if r.P(1, 4) {
		k.f = anyLexFam(r).init()
	}
	k.addLexer(r)
	if r.P(1, 3) {
		k.addLexer(r)
	}
	first := k.f
	k.f = f
	full := r.P(2, 3)
	cbs := r.P(1, 3)
	if full {
		if f.Lex != nil {
			k.lexers = append(k.lexers, k.add(Def{K: "slex", S: f.Lex}))
		}
		g := k.addGrammar(r, cbs, false)
		k.addParser(r, g)
		k.addParser(r, g)
		for n := 1 + r.N(2); n > 0; n-- {
			k.addReducer(r, r.P(1, 4))
		}
		if r.P(1, 2) {
			k.anas = append(k.anas, k.add(Def{K: "ana", C: []int{g}}))
		}
		c := []int{k.lexers[len(k.lexers)-1], k.parsers[0]}
		for j := r.N(3); j > 0; j-- {
			c = append(c, pick(r, k.reds))
		}
		k.runners = append(k.runners, k.add(Def{K: "runner", C: c}))
	}
	k.addTwins(r)
	lf := k.f
	if k.defs[k.lexers[0]].K == "stlex" {
		lf = first
	}
	sz := smallish(r)
	ltexts := append(lf.texts(r, 3, sz), f.texts(r, 2, sz)...)
	texts := f.texts(r, 4, sz)
	ks := f.kinds(r, sz)
	n := 3 + r.N(14)
	reps := false
	if r.P(1, 12) {
		n = 40 + r.N(160)
	} else if r.P(1, 8) {
		reps = true
	}
	if prof.warm > 0 || prof.crowd {
		n = 150 + r.N(450)
	}
	var ops []Op
	entry := r.P(1, 8)
	var pool []Op
	mk := func() Op {
		if !full {
			return k.opLex(r, ltexts)
		}
		switch r.N(8) {
		case 0, 1:
			return k.opLex(r, append(ltexts, texts...))
		case 2, 3:
			return k.opParse(r, ks, nil, cbs)
		case 4:
			return k.opTree(r, nil, cbs)
		case 5:
			return k.opGram(r)
		case 6:
			if entry {
				if r.P(1, 2) {
					return opBuild(r, true)
				}
				return opEntry(r)
			}
		}
		return k.opRun(r, texts)
	}
	for i := 0; i < 4+r.N(6); i++ {
		pool = append(pool, mk())
	}
	nconf := 0
	ext := f.init()
	edits := full && r.P(1, 4)
	if edits {
		// the same list and tree are used again and again, and edited in place
		// by their owner in between
		l := k.lexers[len(k.lexers)-1]
		ops = append(ops, Op{K: "lex", C: l, S: pick(r, texts)},
			Op{K: "parse", C: pick(r, k.parsers), H: 1},
			Op{K: pick(r, []string{"reduce", "rawred", "clone"}), C: pick(r, k.reds), H: 2})
	}
	for i := 0; i < n; i++ {
		if edits && r.P(1, 3) {
			h := 1 + r.N(3)
			x := Op{K: "parse", C: pick(r, k.parsers), H: h}
			if h > 1 {
				x = Op{K: pick(r, []string{"reduce", "rawred", "clone", "tstr", "size", "can", "walk"}), C: pick(r, k.reds), H: h}
			}
			if r.P(1, 2) {
				ops = append(ops, x)
			}
			if r.P(3, 4) {
				ops = append(ops, Op{K: "edit", H: h, N: r.N(1 << 20)})
			}
			ops = append(ops, x)
			continue
		}
		if r.P(1, 5) && nconf < 6 {
			if c, ok := k.randConfig(r); ok {
				if c.K == "gadd" && r.P(1, 2) {
					// something that matters: a terminal, somewhere
					c.S, c.Strs = pick(r, f.cfg.Order), nil
					for j := 1 + r.N(2); j > 0 && len(f.terms) > 0; j-- {
						c.Strs = append(c.Strs, pick(r, f.terms))
					}
				}
				var q []Op
				if r.P(1, 2) {
					q = k.around(r, c, append(ltexts, texts...))
				}
				ops = append(append(append(ops, q...), c), clone(q)...)
				nconf++
				if c.K == "gadd" && len(k.parsers) > 0 && len(c.Strs) > 0 && r.P(1, 2) {
					// and sentences that need it
					x := *ext
					x.Gram, x.cfg, x.terms = x.Gram+"\n"+c.S+" -> "+strings.Join(c.Strs, " "), nil, nil
					ext = x.init()
					for j := 0; j < 2; j++ {
						y := Op{K: "parse", C: pick(r, k.parsers), In: &Input{Toks: ext.toks(r, ext.kinds(r, sz))}}
						if y.In.Toks == nil {
							y.In.Toks = []Tok{}
						}
						ops = append(ops, y)
						pool = append(pool, y)
					}
				}
				continue
			}
		}
		x := clone(pick(r, pool))
		if r.P(1, 6) || prof.warm > 0 && r.P(1, 2) {
			x = mk()
		}
		if cbs && r.P(1, 6) {
			x.F = &Fault{Kind: "panic", At: 1 + r.N(12)}
		}
		if reps && r.P(1, 4) {
			x.Rep = 20 + r.N(300)
			x.F = nil
		}
		ops = append(ops, x)
	}
	ops = append(ops, clone(pick(r, pool)), clone(pick(r, pool)))
	if reps {
		// keep repeated calls cheap
		for i := range ops {
			if ops[i].Rep > 0 {
				e := o.Solo(k.defs, nil, nil, &ops[i])
				if e.Overrun || e.Steps*uint64(ops[i].Rep) > 1500000 {
					ops[i].Rep = 1 + int(1500000/(e.Steps+1))
				}
			}
		}
	}
	sp.Fam, sp.Defs = f.Name, k.defs
	sp.Tasks = [][]Op{ops}
	if r.P(1, 3) {
		sp.RtSeed = 1 + r.U64()%1000000
	}
	return sp
}

var raddTexts = []string{"PSC", "PC 0", "CAT", "RC 0", "RC -1|CAT", "EDIT", "PSC|EDIT", "HOOK"}

// around are calls that a change of configuration should affect; made just
// before and just after it.
func (k *kit) around(r rng, c Op, texts []string) []Op {
	switch c.K {
	case "gadd":
		q := Op{K: "prods", C: c.C, S: c.S, N: r.N(4)}
		if r.P(1, 3) {
			q = Op{K: pick(r, []string{"nts", "gstr", "islr", "gwalk"}), C: c.C}
		} else if len(c.Strs) > 0 && r.P(1, 4) {
			q.S = pick(r, c.Strs)
		}
		return []Op{q}
	case "radd":
		t := k.f.tree(r, 3)
		if r.P(1, 2) {
			t.K = c.S
		}
		return []Op{{K: pick(r, []string{"can", "reduce", "rawred", "rkeys"}), C: c.C, In: &Input{Tree: t}}}
	}
	return []Op{{K: pick(r, []string{"lex", "lex", "lexerrs"}), C: c.C, S: pick(r, texts)}}
}

func (k *kit) randConfig(r rng) (Op, bool) {
	switch r.N(10) {
	case 0, 1, 2, 3:
		l := pick(r, k.lexers)
		switch r.N(6) {
		case 0:
			return Op{K: "instart", C: l, S: pick(r, []string{"BEGIN", "", "nl"}), T: "b"}, true
		case 1:
			return Op{K: "inend", C: l, S: pick(r, []string{"END", "", "nl"}), T: "e"}, true
		case 2:
			return Op{K: "byprio", C: l}, true
		case 3:
			return Op{K: "bylen", C: l}, true
		case 4:
			return Op{K: "errname", C: l, S: pick(r, []string{"Oops", "word", "number", "Bad", "Error", "extra1", "a"})}, true
		}
		if k.defs[l].K == "slex" {
			return Op{K: "add", C: l, S: pick(r, []string{"extra1", "extra2", "Error", "Oops", "Bad", "BEGIN"}), T: pick(r, []string{`%+`, `~\s*`, `@@`, `#`, `é`, `[A-Z]+`, `1\d*`}), N: r.N(4)}, true
		}
	case 4, 5, 6:
		off := r.N(len(k.grams) + 1)
		for i := range k.grams {
			g := k.grams[(i+off)%len(k.grams)]
			if k.defs[g].K == "gram" || k.defs[g].K == "gadded" || k.defs[g].K == "regram" {
				nt := pick(r, append(append([]string{}, k.f.cfg.Order...), "New", "nowhere"))
				if len(k.f.terms) > 0 && r.P(1, 3) {
					nt = pick(r, k.f.terms)
				}
				var p []string
				for j := r.N(3); j > 0; j-- {
					p = append(p, pick(r, k.symbols()))
				}
				return Op{K: "gadd", C: g, S: nt, Strs: p, N: r.N(3)}, true
			}
		}
	case 7, 8:
		if len(k.reds) > 0 {
			return Op{K: "radd", C: pick(r, k.reds), S: pick(r, k.symbols()), T: pick(r, raddTexts)}, true
		}
	}
	return Op{}, false
}

// cbKit is a pipeline in which client code is called a lot.
func cbKit(r rng) *kit {
	f := anyGramFam(r)
	k := &kit{f: f}
	k.addLexer(r)
	g := k.addGrammar(r, true, r.P(2, 3))
	k.addParser(r, g)
	if r.P(1, 2) {
		g2 := k.addGrammar(r, true, false)
		k.addParser(r, g2)
	}
	for n := 1 + r.N(2); n > 0; n-- {
		k.reds = append(k.reds, k.add(Def{K: "comb", S: pick(r, f.Comb)}))
	}
	if len(k.reds) > 1 {
		k.reds = append(k.reds, k.add(Def{K: "merge", C: []int{k.reds[0], k.reds[1]}}))
	}
	l, p := k.lexers[0], k.parsers[0]
	if r.P(1, 2) {
		l = k.add(Def{K: "cblex", C: []int{l}})
	}
	if r.P(1, 2) {
		p = k.add(Def{K: "cbpar", C: []int{p}})
	}
	c := []int{l, p}
	for j := 1 + r.N(2); j > 0; j-- {
		x := pick(r, k.reds)
		if r.P(1, 3) {
			x = k.add(Def{K: "cbred", C: []int{x}})
		}
		c = append(c, x)
	}
	k.runners = append(k.runners, k.add(Def{K: "runner", C: c}))
	if r.P(1, 4) {
		k.anas = append(k.anas, k.add(Def{K: "ana", C: []int{g}}))
	}
	return k
}

func (k *kit) opCb(r rng, ks, texts []string, ins []Input) Op {
	switch r.N(7) {
	case 0, 1:
		return k.opRun(r, texts)
	case 2, 3:
		x := k.opParse(r, ks, ins, true)
		if x.In != nil && r.P(1, 2) {
			x.In.Cb = true
		}
		return x
	case 4, 5:
		x := k.opTree(r, ins, true)
		if x.K == "rkeys" || x.K == "tstr" || x.K == "size" || x.K == "childat" || x.K == "walk" {
			x.K, x.C = "reduce", pick(r, k.reds)
			k.setTree(r, &x, ins, true)
		}
		return x
	}
	return k.opGram(r)
}

// withFault puts a fault into the call, at one of the callbacks it makes.
func withFault(r rng, o *Oracle, sp *Spec, op Op, kind string, sub *Op) Op {
	e := o.Solo(sp.Defs, sp.Setup, sp.Inputs, &op)
	if e.Overrun || e.Cbs == 0 {
		return op
	}
	at := 1 + r.N(e.Cbs)
	if r.P(1, 6) {
		at = 1
	} else if r.P(1, 6) {
		at = e.Cbs
	}
	op.F = &Fault{At: at, Kind: kind, Sub: sub}
	return op
}

func genC09(r rng, o *Oracle) *Spec {
	k := cbKit(r)
	f := k.f
	sp := &Spec{Fam: f.Name, Defs: k.defs, Setup: k.setup(r)}
	sz := smallish(r)
	ks, texts := f.kinds(r, sz), f.texts(r, 4, sz)
	if r.P(1, 2) {
		sp.Inputs = append(sp.Inputs, Input{Toks: f.toks(r, ks)})
	}
	if r.P(1, 2) {
		sp.Inputs = append(sp.Inputs, Input{Tree: f.tree(r, sz+2)})
	}
	sp.Warm = warm(r, o, func() Op {
		return withFault(r, o, sp, k.opCb(r, ks, texts, sp.Inputs), "panic", nil)
	})
	nc := clients(r, 1, 3)
	for c := 0; c < nc; c++ {
		var ops []Op
		for j := calls(r, 1, 4); j > 0; j-- {
			x := k.opCb(r, ks, texts, sp.Inputs)
			if r.P(3, 5) {
				x = withFault(r, o, sp, x, "panic", nil)
				if x.F != nil && r.P(1, 60) {
					// panics over and over
					x.Rep = 1 + min(100, int(200000/(o.Solo(sp.Defs, nil, sp.Inputs, &x).Steps+1)))
				}
				if r.P(1, 8) {
					// a callback that makes a call of its own, whose panic it contains
					in := withFault(r, o, sp, k.opCb(r, ks, texts, sp.Inputs), "panic", nil)
					x = k.opCb(r, ks, texts, sp.Inputs)
					x = withFault(r, o, sp, x, "reenter", &in)
				}
			}
			ops = append(ops, x)
		}
		sp.Tasks = append(sp.Tasks, ops)
	}
	for j := 0; j < 3; j++ {
		if r.P(1, 2) {
			t := pick(r, sp.Tasks)
			x := clone(pick(r, t))
			x.F = nil
			sp.Post = append(sp.Post, x)
		} else {
			sp.Post = append(sp.Post, k.opCb(r, ks, texts, sp.Inputs))
		}
	}
	return sp
}

func genC10(r rng, o *Oracle) *Spec {
	k := cbKit(r)
	f := k.f
	sp := &Spec{Fam: f.Name, Defs: k.defs, Setup: k.setup(r)}
	sz := smallish(r)
	ks, texts := f.kinds(r, sz), f.texts(r, 4, sz)
	if r.P(1, 2) {
		sp.Inputs = append(sp.Inputs, Input{Toks: f.toks(r, ks)})
	}
	if r.P(1, 2) {
		sp.Inputs = append(sp.Inputs, Input{Tree: f.tree(r, sz+2)})
	}
	mk := func() Op {
		if r.P(1, 8) {
			return k.opLex(r, texts)
		}
		return k.opCb(r, ks, texts, sp.Inputs)
	}
	sp.Warm = warm(r, o, mk)
	nc := clients(r, 2, 3)
	if nc < 6 && r.P(1, 4) {
		nc = 1
	}
	one := mk() // a crowd often makes one and the same call
	same := prof.crowd && r.P(1, 2)
	for c := 0; c < nc; c++ {
		var ops []Op
		for j := calls(r, 1, 3); j > 0; j-- {
			x := mk()
			if same && r.P(5, 6) {
				x = clone(one)
			}
			if prof.deep && r.P(1, 2) {
				x = nest(r, o, sp, x, 5+r.N(90))
			} else if prof.crowd && c < nc-1 && r.P(4, 5) {
				x = withFault(r, o, sp, x, "stall", nil)
			} else if r.P(1, 2) {
				switch r.N(5) {
				case 0, 1, 2:
					x = withFault(r, o, sp, x, "stall", nil)
				case 3:
					x = withFault(r, o, sp, x, "slow", nil)
				}
			} else if r.P(2, 3) {
				// re-entrant, up to four deep
				sub := mk()
				if r.P(1, 2) {
					sub = clone(x)
				}
				for d := r.N(3); d > 0; d-- {
					in := sub
					nx := mk()
					if r.P(1, 2) {
						nx = clone(x)
						nx.F = nil
					}
					sub = withFault(r, o, sp, nx, "reenter", &in)
				}
				x = withFault(r, o, sp, x, "reenter", &sub)
			}
			ops = append(ops, x)
		}
		sp.Tasks = append(sp.Tasks, ops)
	}
	sp.Post = []Op{mk(), mk()}
	return sp
}

func genC11(r rng, o *Oracle) *Spec {
	k := runnerKit(r, r.P(1, 6), true)
	f := k.f
	if r.P(1, 3) {
		k.anas = append(k.anas, k.add(Def{K: "ana", C: []int{pick(r, k.grams)}}))
	}
	if len(k.reds) == 0 {
		k.addReducer(r, false)
	}
	if r.P(1, 3) {
		sfam := anyStack(r)
		k.lexers = append(k.lexers, k.add(Def{K: "stlex", S: sfam.Stack}))
	}
	sp := &Spec{Fam: f.Name, Defs: k.defs, Setup: k.setup(r)}
	sz := smallish(r)
	ks, texts := f.kinds(r, sz), f.texts(r, 3, sz)
	if r.P(1, 2) {
		sp.Inputs = append(sp.Inputs, Input{Toks: f.toks(r, ks)})
	}
	if r.P(1, 2) {
		sp.Inputs = append(sp.Inputs, Input{Tree: f.tree(r, sz+2)})
	}
	heavy := r.P(1, 6)
	mk := func() Op {
		switch r.N(12) {
		case 0, 1:
			return k.opLex(r, texts)
		case 2, 3:
			return k.opParse(r, ks, sp.Inputs, false)
		case 4, 5:
			return k.opTree(r, sp.Inputs, false)
		case 6, 7, 8:
			return k.opGram(r)
		case 9:
			return Op{K: "symset", S: "a b c d e f", N: r.N(1 << 20)}
		case 10:
			if heavy {
				return opBuild(r, true)
			}
			return Op{K: "bgram", S: pick(r, gramTexts)}
		}
		return k.opRun(r, texts)
	}
	if r.P(1, 2) {
		// a few calls over and over: aliasing shows between equal calls
		base := mk
		if r.P(1, 3) {
			base = func() Op {
				return Op{K: "prods", C: pick(r, k.grams), S: pick(r, f.init().cfg.Order), N: r.N(3)}
			}
		}
		var pool []Op
		for j := 1 + r.N(3); j > 0; j-- {
			pool = append(pool, base())
		}
		mk = func() Op { return clone(pick(r, pool)) }
	}
	sp.Warm = warm(r, o, mk)
	nc := clients(r, 1, 3)
	for c := 0; c < nc; c++ {
		var ops []Op
		heldN := 0
		for j := 2 + r.N(7); j > 0; j-- {
			if heldN > 0 && r.P(2, 5) {
				ops = append(ops, Op{K: "edit", H: 1 + r.N(heldN), N: r.N(1 << 20)})
				continue
			}
			x := mk()
			if heldN > 0 && r.P(1, 3) {
				// use an earlier result as the input
				h := 1 + r.N(heldN)
				switch r.N(3) {
				case 0:
					x = Op{K: "parse", C: pick(r, k.parsers), H: h}
				case 1:
					x = Op{K: pick(r, []string{"reduce", "rawred"}), C: pick(r, k.reds), H: h}
				case 2:
					x = Op{K: "clone", H: h}
				}
			} else if len(ops) > 0 && r.P(1, 3) {
				// the same call again
				y := clone(pick(r, ops))
				if y.K != "edit" {
					x = y
				}
			}
			ops = append(ops, x)
			heldN++
		}
		sp.Tasks = append(sp.Tasks, ops)
	}
	for j := 0; j < 3; j++ {
		y := clone(pick(r, pick(r, sp.Tasks)))
		if y.K == "edit" || y.H > 0 {
			y = mk()
		}
		sp.Post = append(sp.Post, y)
	}
	return sp
}

// treeText is a random tree in writing, now and then a broken one.
func treeText(r rng) string {
	var out strings.Builder
	budget := 1 + r.N(25)
	deep := r.P(1, 2)
	var ex func(d int)
	ex = func(d int) {
		budget--
		out.WriteString(strings.Repeat("\t", d) + pick(r, []string{"E", "A", "B", "List", "x'", "t0"}))
		if r.P(1, 3) {
			out.WriteString(pick(r, []string{": \"v\"", ": \"\"", ": \"a\\\"b\"", ": \"1 2\"", ": \"{\""}))
		}
		if budget > 0 && d < 14 && (deep && r.P(5, 6) || r.P(2, 3)) {
			out.WriteString(" {\n")
			for n := 1 + r.N(3); n > 0 && budget > 0; n-- {
				ex(d + 1)
			}
			out.WriteString(strings.Repeat("\t", d) + "}")
		}
		out.WriteString("\n")
	}
	ex(0)
	s := out.String()
	if r.P(1, 12) {
		i := r.N(len(s))
		s = s[:i] + pick(r, []string{"", "}", "{", "\"", "}\n}"}) + s[i+1:]
	}
	return s
}

// randStack is a random stack lexer.
func randStack(r rng) *Fam {
	n := 2 + r.N(5)
	names := []string{"Main", "Alpha", "Beta", "Gamma", "Delta", "Omega"}[:n]
	kinds := []string{"a", "b", "c", "n", "w", "p", "q"}
	most := 5
	wide := r.P(1, 4)
	if wide {
		most = 16
	}
	res := map[string][]string{"a": {"a", "a+", "[ab]"}, "b": {"b", "b+", "[bc]+"}, "c": {"c"}, "n": {`\d`, `\d+`}, "w": {`[a-c]+`, `[a-z]+`}, "p": {`\+`}, "q": {`\?`, `!`}}
	txt := ""
	for i, nm := range names {
		txt += "== " + nm + " ==\n"
		for j := 1 + r.N(most); j > 0; j-- {
			if i+1 < n && r.P(1, 4) {
				// inherit from a later one: no cycles
				txt += "  " + names[i+1+r.N(n-i-1)] + "\n"
				continue
			}
			k := pick(r, kinds)
			re := pick(r, res[k])
			if wide {
				k += fmt.Sprint(r.N(9))
			}
			txt += fmt.Sprintf("  %s /%s/", k, re)
			switch r.N(6) {
			case 0:
				txt += " " + pick(r, names)
			case 1:
				if i > 0 {
					txt += " ^"
				}
			}
			if r.P(1, 8) {
				txt += " -"
			}
			txt += "\n"
		}
		if r.P(2, 3) {
			txt += "  sp /\\s+/ -\n"
		}
	}
	defs := []string{txt}
	return &Fam{Name: "randstack", Stack: defs, Text: func(r rng, n int) string {
		s := ""
		for i := 0; i < n; i++ {
			s += pick(r, []string{"a", "b", "c", "ab", "bc", "1", "22", "+", "?", "!", " ", " ", "z", "\n"})
		}
		return s
	}}
}

// randRegex is a random regular-expression grammar.
func randRegex(r rng) string {
	syms := []string{"a", "b", "c", "d", "x", "S", "T"}
	var item func(d int) string
	item = func(d int) string {
		s := pick(r, syms[:5])
		if d < 2 && r.P(1, 3) {
			s = "(" + item(d+1)
			for j := r.N(2); j > 0; j-- {
				s += pick(r, []string{" ", " | "}) + item(d+1)
			}
			s += ")"
		}
		return s + pick(r, []string{"", "", "?", "*"})
	}
	out := ""
	for i := 0; i < 1+r.N(3); i++ {
		out += []string{"S", "T", "U"}[i] + " ->"
		for j := 1 + r.N(3); j > 0; j-- {
			out += " " + item(0)
			if r.P(1, 5) && j > 1 {
				out += " |"
			}
		}
		out += "\n"
	}
	return out
}

var gens = map[string]func(rng, *Oracle) *Spec{
	"C01": genC01, "C02": genC02, "C03": genC03, "C04": genC04, "C05": genC05, "C06": genC06,
	"C07": genC07, "C09": genC09, "C10": genC10, "C11": genC11,
}

// generate makes the run with the given seed.
func generate(prop string, seed uint64, o *Oracle) *Spec {
	r := sim.NewRng(seed)
	drawProfile(r)
	o.Cap = soloCap
	var cp uint64
	if prof.big || prof.defs {
		cp = 8 * soloCap
		o.Cap = cp
	}
	if prop == "C08" {
		sp := genC08(r, o)
		sp.Prop, sp.Seed = prop, seed
		return sp
	}
	if prop == "C12" {
		sp := genC12(r, o)
		sp.Prop, sp.Seed = prop, seed
		return sp
	}
	sp := gens[prop](r, o)
	sp.Prop, sp.Seed, sp.Cap = prop, seed, cp
	sp.Sched = Sched{Mode: "none"}
	relate(r, sp)
	trim(o, sp)
	if prof.warm > 0 && r.P(1, 25) {
		often(r, o, sp, sp.Warm)
	} else if prop == "C07" && r.P(1, 600) {
		often(r, o, sp, sp.Tasks[0])
	}
	if len(sp.Tasks) > 1 {
		sp.Sched = sched(r, soloEst(o, sp))
		if r.P(1, 2) {
			sp.RtSeed = 1 + r.U64()%1000000
		}
		if r.P(1, 5) {
			sp.MapOrd = 1 + r.U64()%1000000
		}
	} else if sp.RtSeed != 0 {
		// goroutines the code starts itself are scheduled too
		sp.Sched = sched(r, 20000)
	}
	return sp
}
