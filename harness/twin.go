package main

import "strings"

// Twins: inputs and definitions that resemble one another - equal length, equal
// beginning or end, the same parts in another order - as results kept under an
// incomplete key would confuse them.

func twinText(r rng, s string) string {
	rs := []rune(s)
	if len(rs) < 2 {
		return s
	}
	for n := 1 + r.N(2); n > 0 && len(rs) > 0; n-- {
		i, j := r.N(len(rs)), r.N(len(rs))
		switch r.N(9) {
		case 6: // the other case
			if c := rs[i]; c >= 'a' && c <= 'z' {
				rs[i] = c - 32
			} else if c >= 'A' && c <= 'Z' {
				rs[i] = c + 32
			}
		case 7: // more or less space, at the ends or between
			sp := []rune(pick(r, []string{" ", "\n", "\t", "\r", "\x00"}))
			switch r.N(4) {
			case 0:
				rs = append(sp, rs...)
			case 1:
				rs = append(rs, sp...)
			case 2:
				rs = []rune(strings.TrimSpace(string(rs)))
			case 3:
				for k := 0; k < len(rs); k++ {
					x := (i + k) % len(rs)
					if rs[x] == ' ' {
						rs = append(append(append([]rune{}, rs[:x]...), ' ', ' '), rs[x+1:]...)
						break
					}
				}
			}
		case 8: // a copy of a part, or of all, behind
			rs = append(rs, rs[i:]...)
		case 0:
			rs[i], rs[j] = rs[j], rs[i]
		case 1: // a space becomes a line break, or the other way round
			for k := 0; k < len(rs); k++ {
				x := (i + k) % len(rs)
				if rs[x] == ' ' {
					rs[x] = '\n'
					break
				}
				if rs[x] == '\n' {
					rs[x] = ' '
					break
				}
			}
		case 2:
			rs[i] = rs[j]
		case 3:
			i = len(rs) - 1 - r.N(min(3, len(rs)))
			rs[i] = rs[j]
		case 4: // another digit or letter
			switch c := rs[i]; {
			case c >= '0' && c <= '9':
				rs[i] = '0' + (c-'0'+1+rune(r.N(9)))%10
			case c >= 'a' && c < 'z':
				rs[i] = c + 1
			}
		case 5: // rotate
			i, j = min(i, j), max(i, j)
			rs = append(append(append([]rune{}, rs[i:j]...), rs[:i]...), rs[j:]...)
		}
	}
	return string(rs)
}

func twinToks(r rng, ts []Tok) []Tok {
	out := append([]Tok{}, ts...)
	if len(out) == 0 {
		return out
	}
	for n := 1 + r.N(2); n > 0; n-- {
		i, j := r.N(len(out)), r.N(len(out))
		switch r.N(6) {
		case 0:
			out[i].K, out[j].K = out[j].K, out[i].K
		case 1:
			out[i].V, out[j].V = out[j].V, out[i].V
		case 2:
			out[i].V = twinText(r, out[i].V+"0")
		case 3:
			out[i].L, out[i].C = out[i].L+r.N(3), out[i].C+r.N(3)
		case 4:
			out[len(out)-1].K = out[j].K
		case 5:
			out[i], out[j] = out[j], out[i]
		}
	}
	return out
}

func twinTree(r rng, t *Node) *Node {
	t = clone(t)
	var all []*Node
	var walk func(n *Node)
	walk = func(n *Node) {
		all = append(all, n)
		for _, c := range n.C {
			walk(c)
		}
	}
	walk(t)
	for n := 1 + r.N(2); n > 0; n-- {
		a, b := pick(r, all), pick(r, all)
		switch r.N(5) {
		case 0:
			a.V, b.V = b.V, a.V
		case 1:
			if a != t && b != t {
				a.K, b.K = b.K, a.K
			}
		case 2:
			a.L, a.P = a.L+r.N(3), a.P+r.N(3)
		case 3:
			if len(a.C) > 1 {
				i, j := r.N(len(a.C)), r.N(len(a.C))
				a.C[i], a.C[j] = a.C[j], a.C[i]
			}
		case 4:
			a.V = twinText(r, a.V+"0")
		}
	}
	return t
}

// twinLines moves, drops or repeats lines of a definition, or adds an empty one.
func twinLines(r rng, s string) string {
	ls := strings.Split(s, "\n")
	for n := 1 + r.N(2); n > 0; n-- {
		i, j := r.N(len(ls)), r.N(len(ls))
		switch r.N(6) {
		case 5:
			ls[i] = pick(r, []string{" " + ls[i], ls[i] + " ", strings.TrimSpace(ls[i])})
		case 0, 1, 2:
			ls[i], ls[j] = ls[j], ls[i]
		case 3:
			if len(ls) > 2 {
				ls = append(append([]string{}, ls[:i]...), ls[i+1:]...)
			}
		case 4:
			ls = append(ls, "")
		}
	}
	return strings.Join(ls, "\n")
}

var textOps = map[string]bool{"lex": true, "lexerrs": true, "lexstr": true, "lexlist": true, "run": true, "run2": true}
var buildOps = map[string]bool{"bslex": true, "bstlex": true, "bgram": true, "btree": true, "bregex": true, "bdsl": true}

// relate makes some inputs of a run twins of others.
func relate(r rng, sp *Spec) {
	if !r.P(1, 3) {
		return
	}
	var ops []*Op
	add := func(xs []Op) {
		for i := range xs {
			if xs[i].F == nil && (xs[i].H == 0 || xs[i].K == "aq") {
				ops = append(ops, &xs[i])
			}
		}
	}
	add(sp.Warm)
	for _, t := range sp.Tasks {
		add(t)
	}
	add(sp.Post)
	for i := range sp.Inputs {
		in, d := &sp.Inputs[i], &sp.Inputs[r.N(len(sp.Inputs))]
		switch {
		case d == in || !r.P(1, 2):
		case in.Tree != nil && d.Tree != nil:
			in.Tree = twinTree(r, d.Tree)
		case len(in.Toks) > 0 && len(d.Toks) > 0:
			in.Toks = twinToks(r, d.Toks)
		}
	}
	var texts, toks, trees []*Op
	builds := map[string][]*Op{}
	for _, o := range ops {
		switch {
		case textOps[o.K] && o.S != "":
			texts = append(texts, o)
		case buildOps[o.K]:
			builds[o.K] = append(builds[o.K], o)
		case o.In != nil && len(o.In.Toks) > 0:
			toks = append(toks, o)
		case o.In != nil && o.In.Tree != nil:
			trees = append(trees, o)
		}
	}
	for _, o := range ops {
		if !r.P(1, 3) {
			continue
		}
		switch {
		case textOps[o.K] && o.S != "":
			o.S = twinText(r, pick(r, texts).S)
		case buildOps[o.K]:
			d := pick(r, builds[o.K])
			if r.P(1, 2) || o.K == "bstlex" {
				d = o
			}
			if len(d.Strs) > 0 {
				o.Strs = append([]string{}, d.Strs...)
				i := r.N(len(o.Strs))
				o.Strs[i] = twinLines(r, o.Strs[i])
				if o.K != "bstlex" {
					o.S = d.S
				}
			} else if o.K != "bstlex" && o.K != "bslex" {
				o.S = twinLines(r, d.S)
				if o.K == "btree" && r.P(1, 2) {
					o.S = twinText(r, d.S)
				}
			}
		case o.In != nil && len(o.In.Toks) > 0:
			o.In = &Input{Toks: twinToks(r, pick(r, toks).In.Toks), Cb: o.In.Cb}
		case o.In != nil && o.In.Tree != nil:
			o.In = &Input{Tree: twinTree(r, pick(r, trees).In.Tree), Cb: o.In.Cb}
		}
	}
}

// addTwins adds a component that resembles one there is.
func (k *kit) addTwins(r rng) {
	if !r.P(1, 5) {
		return
	}
	d := clone(k.defs[r.N(len(k.defs))])
	if len(d.S) == 0 {
		return
	}
	switch d.K {
	case "slex", "gram", "gadded", "strgram", "cbgram", "dsl":
		i := r.N(len(d.S))
		d.S[i] = twinLines(r, d.S[i])
	case "comb":
		i, j := r.N(len(d.S)), r.N(len(d.S))
		d.S[i], d.S[j] = d.S[j], d.S[i]
	default:
		return
	}
	x := k.add(d)
	switch d.K {
	case "slex":
		k.lexers = append(k.lexers, x)
	case "dsl", "comb":
		k.reds = append(k.reds, x)
	default:
		k.grams = append(k.grams, x)
		if len(k.parsers) > 0 {
			k.parsers = append(k.parsers, k.add(Def{K: "packrat", C: []int{x}}))
		}
	}
}

// likeNames are names of which one may be two others put together.
func likeNames(letters string, n int) []string {
	out := []string{}
	for i := 0; len(out) < n; i++ {
		s := ""
		for j := i + 1; ; j = (j - 1) / len(letters) {
			s = string(letters[(j-1)%len(letters)]) + s
			if (j-1)/len(letters) == 0 {
				break
			}
		}
		out = append(out, s)
	}
	return out
}
