From e8a8e65b8a9e11ffc81316eb3952d3d3b79d7477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:48 +0000
Subject: [PATCH 1/5] fix: lexing with a simple lexer does not change the lexer

The first input that did not lex added the error kind to the lexer's symbol
set. That is a data race when two goroutines share the lexer, and it left a
hole in the rule table, so a rule added afterwards made the next Lex panic.
---
 lexer/simplelexer/lexer.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lexer/simplelexer/lexer.go b/lexer/simplelexer/lexer.go
index c019f86..62e5dac 100644
--- a/lexer/simplelexer/lexer.go
+++ b/lexer/simplelexer/lexer.go
@@ -5,6 +5,7 @@ import (
 	"github.com/adamcolton/parlex"
 	"github.com/adamcolton/parlex/lexeme"
 	"github.com/adamcolton/parlex/symbol/setsymbol"
+	"github.com/adamcolton/parlex/symbol/stringsymbol"
 	"regexp"
 	"strings"
 )
@@ -117,8 +118,8 @@ func (op *lexOp) checkError() {
 	}
 	op.errFlag = false
 	val := string(op.b[op.errStart:op.cur])
-	errKind := op.set.Str(op.Error)
-	lxm := lexeme.New(errKind).Set(val)
+	// the error kind is not added to the set: lexing must not change the lexer
+	lxm := lexeme.New(stringsymbol.Symbol(op.Error)).Set(val)
 	op.lxs = append(op.lxs, &errLexeme{lxm})
 }
 
-- 
2.43.0


From a884b1ca941cb1ad041d980e8586c1a365176a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:49 +0000
Subject: [PATCH 2/5] fix: lexing with a stack lexer does not change the lexer

Lex added the error kind to the lexer's symbol set, which is a data race when
two goroutines share the lexer. The set now gets it when the lexer is built;
an error kind assigned later that is not in the set is used as it is.
---
 lexer/stacklexer/construct.go |  1 +
 lexer/stacklexer/lex.go       | 16 +++++++++++++---
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/lexer/stacklexer/construct.go b/lexer/stacklexer/construct.go
index 0a9f503..c55795a 100644
--- a/lexer/stacklexer/construct.go
+++ b/lexer/stacklexer/construct.go
@@ -124,6 +124,7 @@ func New(definitions ...string) (*StackLexer, error) {
 	for _, sl := range l.lexers {
 		sl.parse(subLexerDefs, done, stack)
 	}
+	l.set.Str(l.Error)
 
 	return l, nil
 }
diff --git a/lexer/stacklexer/lex.go b/lexer/stacklexer/lex.go
index e8f34ab..8b3434a 100644
--- a/lexer/stacklexer/lex.go
+++ b/lexer/stacklexer/lex.go
@@ -3,7 +3,7 @@ package stacklexer
 import (
 	"github.com/adamcolton/parlex"
 	"github.com/adamcolton/parlex/lexeme"
-	"github.com/adamcolton/parlex/symbol/setsymbol"
+	"github.com/adamcolton/parlex/symbol/stringsymbol"
 	"strings"
 )
 
@@ -16,7 +16,7 @@ type lexOp struct {
 	err   struct {
 		flag  bool
 		start int
-		kind  *setsymbol.Symbol
+		kind  parlex.Symbol
 	}
 	cur   int
 	lines int
@@ -30,7 +30,7 @@ func (l *StackLexer) Lex(str string) []parlex.Lexeme {
 		lines:    1,
 		lxs:      make([]parlex.Lexeme, 0),
 	}
-	op.err.kind = l.set.Str(op.Error)
+	op.err.kind = l.errorKind()
 	if op.insert.startKind != "" {
 		op.lxs = append(op.lxs, lexeme.String(op.insert.startKind).Set(op.insert.startVal))
 	}
@@ -45,6 +45,16 @@ func (l *StackLexer) Lex(str string) []parlex.Lexeme {
 	return op.lxs
 }
 
+// errorKind returns the kind of error lexemes. It does not add it to the set:
+// lexing must not change the lexer.
+func (l *StackLexer) errorKind() parlex.Symbol {
+	kind := stringsymbol.Symbol(l.Error)
+	if known := l.set.HasSymbol(kind); known != nil {
+		return known
+	}
+	return kind
+}
+
 func (op *lexOp) lex() {
 	for {
 		lx, lxEnd, r := op.findNextMatch()
-- 
2.43.0


From 5a2044e355d4df34e081b2a9fb15e7b18ed2d3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:51 +0000
Subject: [PATCH 3/5] fix: asking a grammar for productions does not change it

Productions added a symbol it did not know to the grammar's symbol set, which
is a data race when two goroutines (two parsers, say) share the grammar.
---
 grammar/grammar.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/grammar/grammar.go b/grammar/grammar.go
index 9e739b1..21a15b3 100644
--- a/grammar/grammar.go
+++ b/grammar/grammar.go
@@ -120,8 +120,8 @@ func Empty() *Grammar {
 // not a non-terminal in the Grammar, nil is returned. It is part of the
 // parlex.Grammer interface.
 func (g *Grammar) Productions(symbol parlex.Symbol) parlex.Productions {
-	idx := g.set.Symbol(symbol).Idx()
-	if idx >= len(g.productions) {
+	idx := g.set.Idx(symbol)
+	if idx < 0 || idx >= len(g.productions) {
 		return nil
 	}
 	p := g.productions[idx]
-- 
2.43.0


From 039eeadf29c3d3d92247e89fb15b0b165a72f7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:07 +0000
Subject: [PATCH 4/5] fix: a stack lexer does not depend on map iteration order

New parsed the sub lexers in the order of a map. The order decides the index
of a kind, and with that the order in which inherited rules get their
priorities, so the same definition lexed the same text differently from run
to run.
---
 lexer/stacklexer/construct.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lexer/stacklexer/construct.go b/lexer/stacklexer/construct.go
index c55795a..237c682 100644
--- a/lexer/stacklexer/construct.go
+++ b/lexer/stacklexer/construct.go
@@ -91,6 +91,7 @@ func New(definitions ...string) (*StackLexer, error) {
 		compare: lengthThenPriority,
 	}
 	subLexerDefs := make(map[string]string)
+	var order []string
 	for _, definition := range definitions {
 		ms := subParserDef.FindAllStringSubmatchIndex(definition, -1)
 		cur := struct {
@@ -109,6 +110,9 @@ func New(definitions ...string) (*StackLexer, error) {
 				StackLexer: l,
 				name:       cur.name,
 			}
+			if _, found := l.lexers[cur.name]; !found {
+				order = append(order, cur.name)
+			}
 			l.lexers[cur.name] = sl
 			if l.start == nil {
 				l.start = sl
@@ -121,8 +125,9 @@ func New(definitions ...string) (*StackLexer, error) {
 
 	done := make(map[string]bool)
 	stack := make(map[string]bool)
-	for _, sl := range l.lexers {
-		sl.parse(subLexerDefs, done, stack)
+	// in the order of the definition: the order of a map changes from run to run
+	for _, name := range order {
+		l.lexers[name].parse(subLexerDefs, done, stack)
 	}
 	l.set.Str(l.Error)
 
-- 
2.43.0


From 703872b554dbbacc2cfb24e2a6ee54acd4bb91cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:11 +0000
Subject: [PATCH 5/5] fix: extending a production leaves other productions
 alone

The productions handed out by Productions.Production shared spare capacity, so
extending two of them, or one of them and the production they were made from,
overwrote the symbols of the first with those of the second.
---
 symbol/setsymbol/set.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/symbol/setsymbol/set.go b/symbol/setsymbol/set.go
index 856a9d9..81e0808 100644
--- a/symbol/setsymbol/set.go
+++ b/symbol/setsymbol/set.go
@@ -261,8 +261,11 @@ func (p *Productions) Productions() int {
 // Production returns the production at the given index
 func (p *Productions) Production(i int) parlex.Production {
 	if i < len(p.prods) {
+		symbs := p.prods[i]
 		return &Production{
-			symbs: p.prods[i],
+			// without spare capacity: adding symbols must not reach the
+			// memory of another production
+			symbs: symbs[:len(symbs):len(symbs)],
 			set:   p.set,
 		}
 	}
-- 
2.43.0

