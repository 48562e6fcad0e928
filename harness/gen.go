package main

import (
	"fmt"
	"strings"
	"unicode/utf8"

	sim "github.com/adamcolton/parlex/zzsim"
)

type rng = *sim.Rng

// prof says how a run differs in scale from the usual small one. It is drawn
// first by generate and read by the generators.
type profile struct {
	crowd bool // many clients, one small call each
	warm  int  // calls before the clients start
	big   bool // long inputs, large trees
	defs  bool // large definitions
	deep  bool // deep nesting of calls
	steep bool // trees and sentences of many levels
	long  bool // long words
}

var prof profile

func drawProfile(r rng) {
	prof = profile{}
	switch r.N(48) {
	case 0:
		prof.crowd = true
	case 1:
		prof.warm = 10 + r.N(60)
		if r.P(1, 4) {
			prof.warm = 100 + r.N(400)
		}
	case 2:
		prof.big = true
	case 3:
		prof.defs = true
	case 4:
		prof.crowd, prof.warm = true, 5+r.N(30)
	case 5:
		prof.deep = true
	case 6:
		prof.steep = true
	case 7:
		prof.long = true
	}
}

// clients draws the number of clients.
func clients(r rng, min, spread int) int {
	n := min + r.N(spread)
	if prof.crowd {
		n = 6 + r.N(8)
		if r.P(1, 3) {
			n = 14 + r.N(28)
		}
	}
	if prof.big && n > 3 {
		n = 3
	}
	return n
}

// calls draws the number of calls of a client.
func calls(r rng, min, spread int) int {
	n := min + r.N(spread)
	if prof.crowd || prof.big {
		n = 1 + r.N(2)
	}
	return n
}

func pick[T any](r rng, xs []T) T { return xs[r.N(len(xs))] }

// Fam is a language: definitions and a way to write inputs.
type Fam struct {
	Name  string
	Lex   []string // simple lexer definitions
	Stack []string // or stack lexer definitions
	Gram  string   // plain grammar, the generator's view
	Regex string   // the same as a regular-expression grammar
	NoTD  bool     // left recursive
	Dsl   []string
	Comb  [][]string
	Vals  map[string]func(r rng) string
	Sep   string
	Text  func(r rng, n int) string // free text, when there is no grammar
	Push  []string                  // text that makes a stack lexer go deeper each time
	cfg   *CFG
	terms []string
}

func digits(n int) func(r rng) string {
	return func(r rng) string {
		s := ""
		n := n
		if prof.long && r.P(1, 2) {
			n += 8 + r.N(30)
		}
		for i := 0; i < n; i++ {
			s += string(rune('0' + r.N(10)))
		}
		return s
	}
}
func word(r rng) string {
	n := 1 + r.N(4)
	if r.P(1, 120) {
		n = 40 + r.N(300)
	}
	if prof.long {
		n = 8 + r.N(30)
	}
	s := ""
	for i := 0; i < n; i++ {
		s += string(rune('a' + r.N(26)))
	}
	return s
}
func lit(s string) func(rng) string { return func(rng) string { return s } }
func oneOf(ss ...string) func(rng) string {
	return func(r rng) string { return pick(r, ss) }
}

var mathFam = &Fam{
	Name: "math",
	Lex: []string{`
  space  /\s+/ -
  number /\d*\.?\d+/
  op1 /[\*\/]/
  op2 /[\+\-]/
  ( /\(/
  ) /\)/
`},
	Gram: `
  E -> E op2 E
    -> E op1 E
    -> number
    -> op2 number
    -> P
  P -> ( E )
`,
	NoTD: true,
	Dsl:  []string{"E PromoteSingleChild()\nP ReplaceWithChild(1)", "P ReplaceWithChild(1).PromoteSingleChild()\nE If(ChildIs(0, \"P\"), PromoteChild(0), Nil)"},
	Comb: [][]string{
		{"E IF 1 op2 1 7|HOOK", "P RWC 1|CAT"},
		{"E HOOK|PSC", "P RCS 0 -1|CAT|PSC"},
		{"E CAT|PCO 0", "P HOOK|RA ( )", "number EDIT|HOOK"},
	},
	Vals: map[string]func(r rng) string{"number": digits(2), "op1": oneOf("*", "/"), "op2": oneOf("+", "-"), "(": lit("("), ")": lit(")")},
}

var jsonFam = &Fam{
	Name: "json",
	Lex: []string{`
		space  /\s+/ -
		number /\d*\.?\d+/
		string /(\"([^\"\\]|(\\.))*\")/
		bool   /(true)|(false)/
		null
		comma  /,/
		lcb    /\{/
		rcb    /\}/
		lb     /\[/
		rb     /\]/
		colon  /:/
`},
	Gram: `
 Value -> string
       -> number
       -> bool
       -> null
       -> Array
       -> Object
 Array -> lb Value MoreVals rb
       -> lb rb
 MoreVals -> comma Value MoreVals
          ->
 Object -> lcb KeyVal MoreKVs rcb
        -> lcb rcb
 MoreKVs -> comma KeyVal MoreKVs
         ->
 KeyVal -> string colon Value
`,
	Regex: `
 		Value       -> string | number | bool | null | Array | Object
 		Array       -> lb ( Value MoreVals* )? rb
 		MoreVals    -> comma Value
 		Object      -> lcb ( KeyVal MoreKeyVals* )? rcb
 		MoreKeyVals -> comma KeyVal
 		KeyVal      -> string colon Value
`,
	Dsl: []string{`
		Value PromoteSingleChild()
		Object      RemoveChildren(0, -1)
		Array       RemoveChildren(0, -1)
		KeyVal      PromoteChildValue(0).RemoveChild(0)
		MoreVals    ReplaceWithChild(1)
`, "Array RemoveAll(\"lb\", \"rb\", \"comma\").PromoteGrandChildren()\nValue PromoteChild(0)"},
	Comb: [][]string{
		{"Value PSC", "Object RCS 0 -1|HOOK", "Array RCS -1 0", "KeyVal PCV 0|RC 0|CAT", "MoreVals RWC 1", "string EDIT"},
		{"Array HOOK|RA lb rb comma|PGC", "MoreVals PC 1", "Value PC 0|HOOK"},
	},
	Vals: map[string]func(r rng) string{
		"number": digits(3), "string": func(r rng) string { return `"` + word(r) + `"` }, "bool": oneOf("true", "false"), "null": lit("null"),
		"comma": lit(","), "lcb": lit("{"), "rcb": lit("}"), "lb": lit("["), "rb": lit("]"), "colon": lit(":"),
	},
}

var listFam = &Fam{
	Name: "list",
	Lex: []string{`
  lp /\(/
  rp /\)/
  if
  int /\d+/
  word /[a-z]+/
  ws /\s+/ -
`},
	Gram: `
  S    -> Form S
       ->
  Form -> lp Items rp
       -> Atom
  Items -> Form Items
        ->
  Atom -> int
       -> word
       -> if
`,
	Regex: `
  S    -> Form*
  Form -> lp Form* rp | Atom
  Atom -> int | word | if
`,
	Dsl:  []string{"Atom PromoteSingleChild()\nForm RemoveAll(\"lp\", \"rp\")", "Items PromoteChildrenOf(-1)\nS PromoteChildrenOf(1)\nAtom ReplaceWithChild(0)"},
	Comb: [][]string{{"Atom PC 0", "Form RCS 0 2|PSC|HOOK", "Items PCO -1", "S PCO 1"}, {"Form HOOK|RA lp rp|CAT", "Atom KIND atom|EDIT", "word EDIT", "int HOOK|EDIT", "Items IF 0 Form 0 1"}},
	Vals: map[string]func(r rng) string{"int": digits(2), "word": word, "if": lit("if"), "lp": lit("("), "rp": lit(")")},
}

var nilFam = &Fam{
	Name: "nilgap",
	Lex:  []string{"a /a\\d*/\nb /b\\d*/\nc /c\\d*/\nd /d\\d*/\n_ /\\s+/ -"},
	Gram: `
  S -> A B C
    -> A d
  A -> a A
    ->
  B -> b
    -> A c
    ->
  C -> c C b
    ->
`,
	Dsl:  []string{"S RemoveAll(\"C\")\nA PromoteChildValue(0)\nB PromoteSingleChild()"},
	Comb: [][]string{{"A PCO 1|HOOK", "S CAT|PGC"}, {"C HOOK|RC 0|RC -1", "B PSC", "A RWC 0"}},
	Vals: map[string]func(r rng) string{"a": func(r rng) string { return "a" + digits(1)(r) }, "b": func(r rng) string { return "b" + digits(1)(r) }, "c": func(r rng) string { return "c" + digits(1)(r) }, "d": func(r rng) string { return "d" + digits(1)(r) }},
}

var ambFam = &Fam{
	Name: "ambiguous",
	Lex:  []string{"a /a\\d*/\nplus /\\+/\nstar /\\*/\nws /\\s+/ -"},
	Gram: `
  S -> S plus S
    -> S star S
    -> S S
    -> T
    -> a
  T -> a T
    -> a
    -> U a
  U -> T
    -> a
`,
	NoTD: true,
	Dsl:  []string{"S PromoteSingleChild()\nT PromoteChild(-1)\nU PromoteSingleChild()"},
	Comb: [][]string{{"S PSC|HOOK", "T PC -1", "U CAT|RWC 0"}, {"T CAT", "S CAT|RA plus star"}},
	Vals: map[string]func(r rng) string{"a": func(r rng) string { return "a" + digits(1)(r) }, "plus": lit("+"), "star": lit("*")},
}

var lrFam = &Fam{
	Name: "leftrec",
	Lex:  []string{"x /x\\d*/\ny /y\\d*/\nz /z\\d*/\nws /\\s+/ -"},
	Gram: `
  S -> A x
    -> y
  A -> S z
    -> B
    -> A x
  B -> y
    -> S B z
    ->
`,
	NoTD: true,
	Dsl:  []string{"A PromoteSingleChild()\nB RemoveChild(0)"},
	Comb: [][]string{{"A PSC|HOOK", "B CAT", "S CAT|RC -1"}, {"S IF 0 A 0 1|HOOK", "A PCO 0"}},
	Vals: map[string]func(r rng) string{"x": func(r rng) string { return "x" + digits(1)(r) }, "y": func(r rng) string { return "y" + digits(1)(r) }, "z": func(r rng) string { return "z" + digits(1)(r) }},
}

var kwFam = &Fam{
	Name: "keywords",
	Lex: []string{`
  if
  ifelse
  in
  int
  num   /\d+/
  hex   /0x[0-9a-f]+/
  id    /[a-z_][a-z0-9_]*/
  str   /"[^"\n]*"/
`, `
  cmt   /#[^\n]*/ -
  nl    /\n/
  sp    /[ \t]+/ -
  eq    /=/
  eqeq  /==/
`},
	Gram: `
  P -> L nl P
    -> L
  L -> id eq V
    -> if V L
    ->
  V -> id
    -> num
    -> hex
    -> str
    -> V eqeq V
`,
	NoTD: true,
	Dsl:  []string{"P RemoveAll(\"nl\")\nV PromoteSingleChild()"},
	Comb: [][]string{{"P RA nl|PCO -1", "V PSC|HOOK", "L EDIT|CAT"}},
	Vals: map[string]func(r rng) string{"if": lit("if"), "id": func(r rng) string { return pick(r, []string{"iff", "intx", "x", "ifels", "i"}) + digits(1)(r) }, "num": digits(2), "hex": func(r rng) string { return "0x" + digits(2)(r) }, "str": func(r rng) string { return `"` + word(r) + `"` }, "eq": lit("="), "eqeq": lit("=="), "nl": lit("\n")},
}

var stackFams = []*Fam{
	{
		Name: "stack-inner",
		Push: []string{"START foo STOP ", "START "},
		Stack: []string{`
    == main ==
      START innerLexer
      outerword  /\w+/
      shared
    == innerLexer ==
      STOP ^
      innerword  /\w+/
      foo /This will mask shared foo/
      shared
    == shared ==
      foo
      space /\s+/ -
      nl /\n/ -
`},
		Text: func(r rng, n int) string {
			s := ""
			for i := 0; i < n; i++ {
				s += pick(r, []string{"START", "STOP", "foo", word(r), word(r), "\n", "#", "foo\nbar"}) + pick(r, []string{" ", " ", "  ", "\n"})
			}
			return s
		},
	},
	{
		Name: "stack-string",
		Push: []string{"{", "{ ", "{\"a${"},
		Stack: []string{`
    == Main ==
      quote /"/ Str
      lb /\{/ Block
      num /(\d+)\.(\d+)/ (1|,|2)
      Common
    == Str ==
      end /"/ ^
      esc /\\(.)/ (1)
      interp /\$\{/ Block
      chars /[^"\\\$]+/
    == Block ==
      rb /\}/ ^
      quote /"/ Str
      lb /\{/ Block
      out /!!/ ^^
      Common
    == Common ==
      id /[a-z]+/
      int /\d+/
      ws /\s+/ -
`},
		Text: func(r rng, n int) string {
			s := ""
			for i := 0; i < n; i++ {
				s += pick(r, []string{"\"", "{", "}", "${", "\\n", "12.5", "7", word(r), " ", " ", "!!", "\n", "@", "\" "})
			}
			return s
		},
	},
	{
		Name: "stack-levels",
		Stack: []string{`
    == Main ==
      level1 Level1
      bar
      Shared
    == Level1 ==
      level2 Level2
      badBar /bar/
      Shared
    == Level2 ==
      exit ^^
      badBar2 /bar/
      Shared
    == Shared ==
      space /\s+/ -
      num /\d+/
`, `
    == Extra ==
      num2 /\d\d/
      Shared
`},
		Text: func(r rng, n int) string {
			s := ""
			for i := 0; i < n; i++ {
				s += pick(r, []string{"level1", "level2", "exit", "bar", "12", "99", "?", "bar"}) + pick(r, []string{" ", "  "})
			}
			return s
		},
	},
	{
		Name: "stack-inherit",
		Stack: []string{`
    == Start ==
      go Deep
      A
      B
      w /[a-z]+/
    == A ==
      one /\d/
      C
      x /[a-m]+/
    == B ==
      two /\d\d/
      C
      y /[g-z]+/
    == C ==
      sp /\s+/ -
      dot /\./
    == Deep ==
      up /up/ ^
      B
      A
      any /[^\s]/
`},
		Text: func(r rng, n int) string {
			s := ""
			for i := 0; i < n; i++ {
				s += pick(r, []string{"go", "up", "1", "22", ".", "abc", "xyz", "gmk", "!"}) + pick(r, []string{" ", " ", "", "\n"})
			}
			return s
		},
	},
}

var gramFams = []*Fam{mathFam, jsonFam, listFam, nilFam, ambFam, lrFam, kwFam}

func (f *Fam) init() *Fam {
	if f.Gram != "" && f.cfg == nil {
		f.cfg = parseCFG(f.Gram)
		seen := map[string]bool{}
		for _, nt := range f.cfg.Order {
			for _, p := range f.cfg.Prods[nt] {
				for _, s := range p {
					if _, ok := f.cfg.Prods[s]; !ok && !seen[s] {
						seen[s] = true
						f.terms = append(f.terms, s)
					}
				}
			}
		}
	}
	return f
}

// randFam makes a random grammar with a lexer for it.
func randFam(r rng) *Fam {
	nNT := 1 + r.N(5)
	nT := 1 + r.N(5)
	if r.P(1, 8) {
		nNT, nT = 8+r.N(30), 6+r.N(14)
	}
	if prof.defs {
		nNT, nT = 20+r.N(120), 20+r.N(120)
		if r.P(1, 3) {
			nNT, nT = 100+r.N(260), 40+r.N(260)
		}
	}
	nt := func(i int) string { return fmt.Sprintf("N%d", i) }
	tn := func(i int) string { return fmt.Sprintf("t%d", i) }
	named := func(s string) string { return s }
	if r.P(1, 6) {
		ns, ts := likeNames("AB", max(nNT, 2)), likeNames("ab", max(nT, 2))
		nt = func(i int) string { return ns[i] }
		tn = func(i int) string { return ts[i] }
		named = strings.NewReplacer("N1", ns[1], "t0", ts[0], "t1", ts[1]).Replace
	}
	var g strings.Builder
	lrOK := r.P(1, 2)
	long, many := r.P(1, 12), r.P(1, 12)
	for i := 0; i < nNT; i++ {
		np := 1 + r.N(4)
		if many && r.P(1, 3) {
			np = 5 + r.N(30)
		}
		for k := 0; k < np; k++ {
			ln := r.N(4)
			if long && r.P(1, 3) {
				ln = 4 + r.N(14)
			}
			if k == np-1 && ln > 1 {
				ln = r.N(2)
			}
			fmt.Fprintf(&g, "  ")
			if k == 0 {
				g.WriteString(nt(i) + " ->")
			} else {
				g.WriteString("->")
			}
			for j := 0; j < ln; j++ {
				if r.P(1, 2) {
					x := r.N(nNT)
					if !lrOK && (j == 0 || r.P(1, 2)) {
						// only later non-terminals in front
						x = i + 1 + r.N(3)
						if x >= nNT {
							g.WriteString(" " + tn(r.N(nT)))
							continue
						}
					}
					g.WriteString(" " + nt(x))
				} else {
					g.WriteString(" " + tn(r.N(nT)))
				}
			}
			g.WriteString("\n")
		}
	}
	var l strings.Builder
	f := &Fam{Name: "random", Vals: map[string]func(rng) string{}}
	for i := 0; i < nT; i++ {
		c := string(rune('a' + i%26))
		if nT > 26 {
			c = fmt.Sprintf("q%d_", i)
		}
		if i%3 == 2 {
			fmt.Fprintf(&l, "%s /%s+\\d*/\n", tn(i), c)
		} else {
			fmt.Fprintf(&l, "%s /%s\\d*/\n", tn(i), c)
		}
		f.Vals[tn(i)] = func(r rng) string { return c + digits(1)(r) }
	}
	l.WriteString("ws /\\s+/ -\n")
	if r.P(1, 3) {
		l.WriteString("other /[A-Z]+/\n")
	}
	f.Lex = []string{l.String()}
	f.Gram = g.String()
	f.NoTD = lrOK
	ops := []string{"PSC", "PGC", "RC 0", "RC -1", "RCS 0 -1", "PCV 0", "RWC 0", "PCO 0", "PCO -1", "PC 0", "PC -1", "HOOK", "CAT", "EDIT", "IF 0 N1 0 1", "RA t0 t1"}
	dops := []string{"PromoteSingleChild()", "PromoteGrandChildren()", "RemoveChild(0)", "RemoveChild(-1)", "RemoveChildren(0, -1)", "PromoteChildValue(0)", "ReplaceWithChild(0)", "PromoteChildrenOf(0)", "PromoteChild(-1)", "RemoveAll(\"t0\", \"t1\")", "If(ChildIs(0, \"N1\"), PromoteChild(0), Nil)"}
	for k := 0; k < 2; k++ {
		var rules []string
		var dsl strings.Builder
		for i := 0; i < nNT && (i < 8 || prof.defs); i++ {
			if r.P(2, 3) {
				var segs, ds []string
				for j := 1 + r.N(3); j > 0; j-- {
					segs = append(segs, named(pick(r, ops)))
					ds = append(ds, named(pick(r, dops)))
				}
				rules = append(rules, nt(i)+" "+strings.Join(segs, "|"))
				name := nt(i)
				if r.P(1, 8) {
					name = nt(r.N(i + 1)) // a second rule for a symbol
				}
				dsl.WriteString(name + " " + strings.Join(ds, ".") + "\n")
			}
		}
		if r.P(1, 2) { // a rule for leaves
			rules = append(rules, tn(0)+" "+named(pick(r, []string{"EDIT", "HOOK|EDIT", "CAT", "KIND N1"})), named("t1 ")+pick(r, []string{"EDIT", "HOOK"}))
		}
		if len(rules) == 0 {
			rules = []string{nt(0) + " HOOK"}
		}
		f.Comb = append(f.Comb, rules)
		if dsl.Len() > 0 {
			f.Dsl = append(f.Dsl, dsl.String())
		}
	}
	if len(f.Dsl) == 0 {
		f.Dsl = []string{nt(0) + " PromoteSingleChild()"}
	}
	return f.init()
}

// randLex is a lexer with overlapping rules, and text for it.
func randLex(r rng) *Fam {
	res := []string{`[a-c]+`, `a`, `ab`, `abc?`, `b+`, `[a-z]+`, `\d`, `\d\d`, `\d+`, `0x\d+`, `\s`, `\s+`, `[ab]\d`, `(a|b)*c`, `\.`, `"[^"]*"`, `x*`, `é+`, `[^a-z0-9\s]`}
	n := 1 + r.N(8)
	if r.P(1, 10) {
		n = 20 + r.N(60)
	}
	if prof.defs {
		n = 60 + r.N(260)
	}
	var b strings.Builder
	f := &Fam{Name: "randlex"}
	for i := 0; i < n; i++ {
		re := pick(r, res)
		if i >= len(res) || r.P(1, 6) {
			re = fmt.Sprintf("k%d", r.N(n))
		}
		d := ""
		if r.P(1, 5) {
			d = " -"
		}
		if re[0] == 'k' && r.P(1, 2) {
			fmt.Fprintf(&b, "kw%d%s\n", i, d)
		} else {
			fmt.Fprintf(&b, "r%d /%s/%s\n", i, re, d)
		}
	}
	f.Lex = []string{b.String()}
	f.Text = func(r rng, n int) string {
		s := ""
		for i := 0; i < n; i++ {
			w := pick(r, []string{"a", "b", "c", "ab", "abc", "1", "22", "0x1", " ", " ", "\n", "\"q\"", ".", "xx", "é", "#", "k1", "kw2", "Z"})
			if prof.long && r.P(1, 2) {
				w = strings.Repeat(w, 6+r.N(20))
			}
			s += w
			if r.P(1, 40) {
				s += pick(r, oddities)
			}
		}
		return s
	}
	return f
}

func anyStack(r rng) *Fam {
	if r.P(1, 3) || prof.defs {
		if r.P(1, 3) {
			return randStack(r)
		}
		return nestStack(r)
	}
	return pick(r, stackFams)
}

// nestStack is a stack lexer of several lexers that push one another, share
// rules and leave by one or more levels, and text for it. Only lexers that are
// always pushed leave, and no further than they are deep.
func nestStack(r rng) *Fam {
	n := 2 + r.N(4)
	if prof.defs {
		n = 5 + r.N(25)
	}
	f := &Fam{Name: "neststack"}
	res := []string{`[a-c]+`, `a`, `ab`, `b+`, `[a-z]+`, `\d`, `\d\d`, `\d+`, `[ab]\d`, `\.`, `"[^"]*"`, `é+`, `[^a-z0-9\s\(\)\[\]<>]`, `(\d)(\d)`, `([a-z])([a-z]*)`}
	open := []string{"(", "[", "<"}
	esc := map[string]string{"(": `\(`, "[": `\[`, "<": `<`}
	shut := []string{")", "]", ">"}
	var b strings.Builder
	share := r.N(3)
	for i := 0; i < n; i++ {
		fmt.Fprintf(&b, "== L%d ==\n", i)
		for j, o := range open {
			if i == 0 || r.P(2, 3) {
				fmt.Fprintf(&b, "o%d_%d /%s/ L%d\n", i, j, esc[o], 1+r.N(n-1))
			}
		}
		if i > 0 {
			c := pick(r, shut)
			fmt.Fprintf(&b, "c%d /\\%s/ ^%s\n", i, c, pick(r, []string{"", "", "", " -"}))
			if r.P(1, 3) {
				fmt.Fprintf(&b, "cc%d /!!/ ^^\n", i)
			}
		}
		for j := 1 + r.N(5); j > 0; j-- {
			re := pick(r, res)
			kind := fmt.Sprintf("r%d", r.N(8+n))
			switch {
			case strings.Count(re, "(") == 2 && r.P(2, 3):
				fmt.Fprintf(&b, "%s /%s/ (%s)\n", kind, re, pick(r, []string{"1", "2", "2|1", "1|-|2", "x|2"}))
			case r.P(1, 4):
				fmt.Fprintf(&b, "%s /%s/ -\n", kind, re)
			default:
				fmt.Fprintf(&b, "%s /%s/\n", kind, re)
			}
		}
		for j := 0; j < share; j++ {
			if r.P(1, 2) {
				fmt.Fprintf(&b, "S%d\n", j)
			}
		}
		fmt.Fprintf(&b, "ws /\\s+/ -\n")
	}
	for j := 0; j < share; j++ {
		fmt.Fprintf(&b, "== S%d ==\nw%d /%s/\nnum /\\d+/\n", j, j, pick(r, res))
		if j > 0 && r.P(1, 2) {
			fmt.Fprintf(&b, "S%d\n", j-1)
		}
	}
	f.Stack = []string{b.String()}
	f.Push = []string{"(", "[ ", "<", "([<"}
	f.Text = func(r rng, n int) string {
		s := ""
		for i := 0; i < n; i++ {
			s += pick(r, []string{"a", "ab", "abc", "1", "22", "(", "(", "[", "[", "<", ")", "]", ">", "(a)", "!!", " ", " ", "\n", ".", "\"q\"", "é", "#", "xy", "a1"})
			if r.P(1, 40) {
				s += pick(r, oddities)
			}
		}
		return s
	}
	return f
}

// derive writes a sentence of the grammar.
func (f *Fam) derive(r rng, size int) []string {
	f.init()
	var out []string
	budget, calls := size, 0
	soft, hard := 12, 60
	if prof.steep {
		soft = 20 + r.N(40)
		budget += 30
	}
	if prof.big {
		soft, hard = 12+r.N(size+1), size+200
	}
	var ex func(s string, d int)
	ex = func(s string, d int) {
		ps, ok := f.cfg.Prods[s]
		if !ok {
			out = append(out, s)
			budget--
			return
		}
		calls++
		if d > hard || len(out) > size*3+8 || calls > 5000 {
			return
		}
		p := pick(r, ps)
		if budget <= 0 || d > soft {
			// shortest way out
			best := ps[0]
			bs := 1 << 30
			for _, q := range ps {
				sc := 0
				for _, x := range q {
					if _, nt := f.cfg.Prods[x]; nt {
						sc += 4
						if x == s {
							sc += 20
						}
					} else {
						sc++
					}
				}
				if sc < bs || (sc == bs && r.P(1, 2)) {
					best, bs = q, sc
				}
			}
			p = best
		}
		for _, x := range p {
			ex(x, d+1)
		}
	}
	ex(f.cfg.Order[0], 0)
	return out
}

// kinds gives a list of token kinds: a sentence, or something near one.
func (f *Fam) kinds(r rng, size int) []string {
	f.init()
	var ks []string
	for try := 0; try < 3; try++ {
		ks = f.derive(r, size)
		if len(ks) > 0 {
			break
		}
	}
	if len(ks) > 3*size+10 {
		ks = ks[:3*size+10]
	}
	if r.P(1, 5) && len(ks) > 0 {
		ks = append([]string(nil), ks...)
		switch r.N(4) {
		case 0:
			i := r.N(len(ks))
			ks = append(ks[:i], ks[i+1:]...)
		case 1:
			i, j := r.N(len(ks)), r.N(len(ks))
			ks[i], ks[j] = ks[j], ks[i]
		case 2:
			if len(f.terms) > 0 {
				ks[r.N(len(ks))] = pick(r, f.terms)
			}
		case 3:
			if len(f.terms) > 0 {
				ks = append(ks, pick(r, f.terms))
			}
		}
	}
	return ks
}

func (f *Fam) val(r rng, k string) string {
	if v := f.Vals[k]; v != nil {
		return v(r)
	}
	return k
}

func (f *Fam) toks(r rng, ks []string) []Tok {
	out := make([]Tok, len(ks))
	col := 1
	line := r.N(2)
	for i, k := range ks {
		v := f.val(r, k)
		out[i] = Tok{k, v, line, col}
		col += len(v) + 1
		if r.P(1, 9) {
			line++
			col = 1
		}
	}
	if r.P(1, 25) && len(out) > 0 {
		out[r.N(len(out))].K = "unknown"
	}
	return out
}

// text writes an input string.
func (f *Fam) text(r rng, size int) string {
	if prof.big && r.P(3, 4) {
		size = size * (1 + r.N(8))
	}
	if f.Text != nil {
		s := f.Text(r, size)
		if prof.steep && len(f.Push) > 0 {
			n := 20 + r.N(150)
			if r.P(1, 12) {
				n = 1000 + r.N(300)
			}
			p := strings.Repeat(pick(r, f.Push), n)
			if r.P(1, 2) {
				s = s + p + f.Text(r, size)
			} else {
				s = p + s
			}
		}
		return s
	}
	ks := f.kinds(r, size)
	if prof.big && r.P(1, 2) {
		// as long as asked for, sentence or not
		for n := 0; len(ks) < size && n < 200; n++ {
			ks = append(ks, f.kinds(r, 30)...)
		}
	}
	return f.join(r, ks)
}

func (f *Fam) join(r rng, ks []string) string {
	var b strings.Builder
	bad := r.P(1, 6)
	for i, k := range ks {
		if i > 0 {
			b.WriteString(pick(r, []string{" ", " ", " ", "  ", "\n"}))
		}
		b.WriteString(f.val(r, k))
		if bad && r.P(1, 4) {
			b.WriteString(pick(r, oddities))
		}
	}
	return b.String()
}

// oddities are bits of text that no rule is written for. The characters from
// U+E080 to U+E0FF stand for the bytes 0x80 to 0xFF on their own (see raw).
var oddities = []string{"#", "@@", "é", "~ ~", "\t%", "#", "@@", "~", "\x00", "\r\n", "\uE0FF", "\uE0C3", "\uE0E6\uE097", "日本", "😀", "\ufeff", "\u2028", "\u00a0"}

// raw gives the bytes that a text of a spec stands for.
func raw(s string) string {
	i := strings.IndexFunc(s, escaped)
	if i < 0 {
		return s
	}
	var b strings.Builder
	for _, c := range s {
		if escaped(c) {
			b.WriteByte(byte(c - 0xE000))
		} else {
			b.WriteRune(c)
		}
	}
	return b.String()
}

func escaped(c rune) bool { return c >= 0xE080 && c <= 0xE0FF }

// written is the other way round.
func written(s string) string {
	if utf8.ValidString(s) {
		return s
	}
	var b strings.Builder
	for len(s) > 0 {
		c, n := utf8.DecodeRuneInString(s)
		if c == utf8.RuneError && n == 1 {
			c = 0xE000 + rune(s[0])
		}
		b.WriteRune(c)
		s = s[n:]
	}
	return b.String()
}

// texts are inputs that resemble each other: same kinds with other values,
// same length, prefixes, repeats.
func (f *Fam) texts(r rng, n, size int) []string {
	var out []string
	var base []string
	if f.Text == nil {
		base = f.kinds(r, size)
	}
	for i := 0; i < n; i++ {
		switch {
		case i > 0 && r.P(1, 4):
			out = append(out, pick(r, out))
		case f.Text == nil && r.P(1, 2):
			out = append(out, f.join(r, base))
		case i > 0 && r.P(1, 6):
			s := pick(r, out)
			rs := []rune(s)
			out = append(out, string(rs[:r.N(len(rs)+1)]))
		default:
			out = append(out, f.text(r, size))
		}
	}
	return out
}

// tree writes a tree for reducers: a derivation or a random one, sometimes with
// a node of many leaves.
func (f *Fam) tree(r rng, size int) *Node {
	n := f.tree1(r, size)
	if r.P(1, 10) && !prof.crowd {
		at := n
		for r.P(2, 3) && len(at.C) > 0 {
			at = pick(r, at.C)
		}
		few := []string{"comma", "A", "x"}
		if f.cfg != nil {
			at.K, at.V = pick(r, f.cfg.Order), ""
			if len(f.terms) > 0 {
				few = []string{pick(r, f.terms), pick(r, f.terms), pick(r, f.terms), f.terms[0]}
			}
		}
		at.C = nil
		for k := 6 + r.N(30); k > 0; k-- {
			at.C = append(at.C, &Node{K: pick(r, few), V: word(r), L: r.N(4), P: r.N(30)})
		}
	}
	return n
}

func (f *Fam) tree1(r rng, size int) *Node {
	f.init()
	if f.cfg == nil {
		return randTree(r, nil, size)
	}
	if r.P(1, 3) {
		var ks []string
		ks = append(ks, f.cfg.Order...)
		ks = append(ks, f.terms...)
		return randTree(r, ks, size)
	}
	cnt := 0
	soft := 14
	if prof.steep {
		soft = 20 + r.N(50)
		size += 40
	}
	if prof.big {
		soft = 14 + r.N(300)
	}
	var ex func(s string, d int) *Node
	ex = func(s string, d int) *Node {
		cnt++
		ps, ok := f.cfg.Prods[s]
		n := &Node{K: s, L: r.N(4), P: r.N(30)}
		if !ok {
			n.V = f.val(r, s)
			return n
		}
		if d > soft || cnt > size*2 {
			return n
		}
		for _, x := range pick(r, ps) {
			n.C = append(n.C, ex(x, d+1))
		}
		return n
	}
	return ex(f.cfg.Order[0], 0)
}

func randTree(r rng, kinds []string, size int) *Node {
	if len(kinds) == 0 {
		kinds = []string{"E", "A", "B", "lp", "rp", "comma", "List", "Value"}
	}
	cnt := 0
	var mk func(d int) *Node
	mk = func(d int) *Node {
		cnt++
		n := &Node{K: pick(r, kinds), V: word(r), L: r.N(4), P: r.N(30)}
		if r.P(1, 20) {
			n.V = pick(r, []string{"", "\"", "a\"b", "line\nbreak", "\\", "é", "{", "}", ":", "'", "\uE0FF", " "})
		}
		if d < 7 {
			for k := r.N(4); k > 0 && cnt < size*2; k-- {
				n.C = append(n.C, mk(d+1))
			}
		}
		return n
	}
	n := mk(0)
	if prof.steep && r.P(2, 3) {
		deep := 15 + r.N(50)
		if r.P(1, 12) {
			deep = 100 + r.N(400)
		} else if r.P(1, 60) {
			deep = 1000 + r.N(300)
		}
		for k := deep; k > 0; k-- {
			n = &Node{K: pick(r, kinds), V: word(r), C: []*Node{n}}
			if r.P(1, 5) {
				n.C = append(n.C, &Node{K: pick(r, kinds), V: word(r)})
			}
			if r.P(1, 5) {
				n.C = append([]*Node{{K: pick(r, kinds)}}, n.C...)
			}
		}
		return n
	}
	if prof.big {
		if r.P(1, 2) { // wide
			for len(n.C) < size*4 {
				n.C = append(n.C, mk(6))
			}
		} else { // deep
			for k := size; k > 0; k-- {
				n = &Node{K: pick(r, kinds), V: word(r), C: []*Node{n}}
				if r.P(1, 3) {
					n.C = append(n.C, mk(7))
				}
			}
		}
		return n
	}
	for len(n.C) == 0 && size > 1 && cnt < 4 {
		n.C = append(n.C, mk(1), mk(1))
	}
	return n
}

// size picks an input size: mostly small, sometimes long.
func size(r rng) int {
	if prof.crowd || prof.deep {
		return 1 + r.N(5)
	}
	if prof.big && r.P(1, 2) {
		return 60 + r.N(300)
	}
	if prof.defs && r.P(1, 2) {
		return 5 + r.N(60)
	}
	switch r.N(20) {
	case 0:
		return 40 + r.N(60)
	case 1, 2:
		return 0 + r.N(3)
	case 3, 4, 5:
		return 12 + r.N(16)
	}
	return 1 + r.N(9)
}

func anyLexFam(r rng) *Fam {
	if prof.defs {
		if r.P(1, 2) {
			return randLex(r)
		}
		return randFam(r)
	}
	switch r.N(8) {
	case 0, 1, 2:
		return anyStack(r)
	case 3, 4:
		return randLex(r)
	case 5:
		return randFam(r)
	}
	return pick(r, gramFams).init()
}

func anyGramFam(r rng) *Fam {
	if prof.defs || r.P(2, 5) {
		return randFam(r)
	}
	return pick(r, gramFams).init()
}

// entry point inputs come from a limited pool so that the fresh-process
// answers can be remembered
func jsonText(r rng) string {
	q := sim.NewRng(uint64(7000 + r.N(60)))
	if q.P(1, 5) {
		return pick(q, []string{"", "{", "[1,2", "nul", "[1 2]", "{\"a\":}", "#", "[true,false,null]", "{\"a\":1,\"a\":2}"})
	}
	return jsonFam.join(q, jsonFam.init().derive(q, 3+q.N(8)))
}
func mathText(r rng) string {
	q := sim.NewRng(uint64(8000 + r.N(60)))
	if q.P(1, 6) {
		return pick(q, []string{"", "1+", "(1", "a", "1 2", "2*#", "--1", "1/0"})
	}
	ks := mathFam.init().derive(q, 2+q.N(6))
	if len(ks) > 11 {
		ks = []string{"number", "op1", "number"}
	}
	return mathFam.join(q, ks)
}
func scalcText(r rng) string {
	q := sim.NewRng(uint64(9000 + r.N(60)))
	return scalcLine(q)
}

var scalcPool = []string{"1", "2 3", "1 2 +", "5 --", "1.25", "3 abs", "1 2 3 sum", "1 2 swap", "4 5 drop", "2 8 ^", "7 2 %", "1 2 cmpr", "1 2 3 avg", "9 clear", "2 3 max", "1 2 3 ?", "+", "1 +", "x", "10 3 /", "( 1 2 ) sum", "-4 abs", "1 2 3 len", "3 1 min", "6.50 2 *", "1 1 =", "2 1 >", "0 1 <", "8 last", "5 6 first", ""}

func scalcLine(q rng) string { return pick(q, scalcPool) }

var regexTexts = []string{
	"List -> Value MoreValues*\nValue -> int|word\nMoreValues -> comma Value",
	"S -> (a b)* c? | d\nT -> (a|b) c*",
	"rule -> prod1? prod2* (A B)* \nA -> x | y z",
	"E -> (a | b | c)* d\nF -> (a (b c)? )* d?",
	"S -> x* y*\nx -> a b?\ny -> (c d)*",
	"Bad ->",
	"S -> a |",
	"->",
	"S -> ((a b)? c)*",
	"A -> B* C*\nB -> (x y)*\nC -> (z)* | (x y)*",
}

var dslTexts = []string{
	"E PromoteSingleChild()\nP ReplaceWithChild(1)",
	"A RemoveAll(\"comma\", \"lp\")\nB PromoteChildrenOf(-1).RemoveChild(0)",
	"E If(ChildIs(0, \"lp\"), RemoveChildren(0, -1), PromoteChild(0))",
	"List PromoteGrandChildren() Value PromoteChildValue(0)",
	"E PromoteChild(1)\nE PromoteChild(0)",
	"E Bogus()",
	"E RemoveChild(",
	"",
	"A RemoveChildren(0, 2, -1).PromoteSingleChild()\nS RemoveAll(\"A\")",
	"E If(ChildIs(-1, \"rp\"), If(ChildIs(0, \"lp\"), RemoveChildren(0, -1), Nil), Nil)",
}

var gramTexts = []string{
	"E -> E op E\n-> n",
	"S -> A B\nA -> a A\n->\nB -> b",
	"S",
	"S -> ",
	"-> x",
	"S -> a\nT -> b\nS -> c",
	"Exp -> Exp plus Exp\n    -> Exp times Exp\n    -> num\nNum -> int",
	"A -> B C\nB -> A x\n-> y\nC -> B\n-> z\n",
}

var treeTexts = []string{
	"E {\n\tA: \"x\"\n\tB {\n\t\tC: \"y\"\n\t}\n}",
	"E",
	"E: \"a\\\"b\"",
	"E {\n A\n B: \"1\" {\n  C\n }\n D\n}",
	"E {{",
	"S {\n\tE: \"line\\nbreak\"\n}",
}
