#!/usr/bin/env python3
# Writes /verif/properties.jsonl (the file is committed; this is its source).
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

SEAM="none in /repo: the check instruments every memory access, map iteration, lock, channel and goroutine of the module at build time (go build -overlay)"

p("C01","Concurrent callers of one lexer never affect each other",
 "Any number of goroutines may lex with the same configured simple or stack lexer at once: every call returns exactly the lexemes (kind, value, position, error marks) that it would return on a private, freshly built lexer, whatever the interleaving. No such call makes an unsynchronised conflicting memory access (a data race), and the lexer behaves the same afterwards.",
 ["schedules","inputs","configurations"],"every interleaving of any number of Lex (and String) calls on shared simplelexer/stacklexer values, for every lexer definition, setting and input, including inputs that do not lex",
 "The tests only ever lex from one goroutine; a racy write to shared lexer state (such as interning the error kind on the first bad input) needs two callers and a particular interleaving to show.",
 ["lexer/simplelexer/lexer.go","lexer/simplelexer/construct.go","lexer/stacklexer/lex.go","lexer/stacklexer/construct.go","symbol/setsymbol/set.go","lexeme/lexeme.go"],
 [("per-call lexing state is private to the call","lexer/simplelexer/lexer.go Lex; lexer/stacklexer/lex.go Lex"),("the symbol set of a lexer is only read while lexing","symbol/setsymbol/set.go")],
 ["Lexer.Lex results","every shared memory access of a call"],
 [("lexer symbol set","names of the kinds of the lexer; shared by all calls","Lexer.set, StackLexer.set"),("rule tables","compiled rules by kind","Lexer.rules, subLexer.rules")],SEAM)

p("C02","Concurrent users of one grammar and its parsers never affect each other",
 "Any number of goroutines may parse with parsers over the same grammar, and query, print, analyse or transform that grammar or its analysis, at once: every call returns exactly the tree, rejection or answer it would return with a private, freshly built grammar and parser, whatever the interleaving. No such call makes a data race, and using a grammar (asking about symbols it does not contain included) does not change it.",
 ["schedules","inputs","configurations"],"every interleaving of Parse, Productions, NonTerminals, String, IsLeftRecursive, RemoveLeftRecursion, Analyze and analysis queries on shared values, for every grammar and input",
 "No test uses a grammar or parser from two goroutines; the memo tables and symbol sets that would be corrupted are only shared in concurrent use.",
 ["parser/packrat/packrat.go","parser/topdown/topdown.go","grammar/grammar.go","grammar/left_recursion.go","leftrecursion.go","analyze/analysis.go","symbol/setsymbol/set.go","helpers.go"],
 [("a fresh symbol set and memo table per parse","parser/packrat/packrat.go Parse; parser/topdown/topdown.go Parse"),("grammar lookups only read","grammar/grammar.go Productions, NonTerminals, String")],
 ["Parser.Parse results","Grammar and Analytics query results","every shared memory access of a call"],
 [("grammar tables","productions by symbol and order","Grammar.productions, Grammar.order, Grammar.set"),("memo","packrat/topdown memo of one parse","prOp, tdOp")],SEAM)

p("C03","Concurrent reductions share reducers and input trees safely",
 "Any number of goroutines may reduce with the same reducer (hand-written, parsed from text, merged, or produced by the regex grammar builder), clone, print or measure trees, on different input trees or on the same one: every call returns exactly the tree or answer it would return alone, whatever the interleaving. No such call makes a data race, and neither the reducer nor the input tree is modified by reducing.",
 ["schedules","inputs","programs"],"every interleaving of Reduce, RawReduce, Can, Merge, Clone, String and Size over shared reducers and shared input trees, for every reducer program and tree",
 "Every test reduces once, from one goroutine; state kept in a reducer or edits that reach the input tree only show when two reductions overlap.",
 ["tree/reducer.go","tree/node_reductions.go","tree/chain_reductions.go","tree/parsetree.go","tree/reducer/reducer.go","grammar/regexgram/regexgram.go"],
 [("reduction works on a copy of the input","tree/reducer.go RawReduce"),("reductions are closures over immutable arguments","tree/chain_reductions.go; grammar/regexgram/regexgram.go bludgeon")],
 ["Reduce results","the input tree after the call","every shared memory access of a call"],None,SEAM)

p("C04","Concurrent pipelines, builders and entry points never affect each other",
 "Any number of goroutines may run the same runner, and call the package-level entry points that build components or evaluate text (the grammar, regex-grammar, lexer, tree and reducer-text constructors and the example JSON formatter, calculator and stack calculator), at once: every call returns exactly the result, error or component it would return alone in a fresh process, whatever the interleaving. No such call makes a data race on the state hidden behind those entry points.",
 ["schedules","inputs","configurations"],"every interleaving of Run on shared runners, component constructors and the example entry points, for every input, malformed definitions included",
 "The entry points share hidden package-level lexers, grammars, parsers and reducers; tests call them one at a time.",
 ["parlex.go","grammar/regexgram/regexgram.go","tree/reducer/reducer.go","tree/reducer.go","grammar/grammar.go","lexer/simplelexer/construct.go","lexer/stacklexer/construct.go","tree/parsetree.go","examples/parlexjson/json.go","examples/parlexmath/math.go","examples/scalc/scalc.go"],
 [("hidden package-level components are immutable after initialisation","grammar/regexgram/regexgram.go lxr, grmr, prsr, rdcr, runner; tree/reducer/reducer.go lxr, grmr, prsr, rdcr, runner"),("every build or run works on its own state","grammar/regexgram/regexgram.go evalGrammar; parlex.go Run")],
 ["results and errors of the entry points","every shared memory access of a call"],
 [("package-level runners","shared by all callers of an entry point","regexgram.runner, reducer.runner, example runners")],SEAM)

p("C05","The same definition always builds the same component",
 "Building a lexer, grammar, reducer or regex grammar from the same definition text (or merging the same reducers) always gives a component that behaves identically on every input, whatever order the runtime iterates maps in and however often, or in whichever process, it is built. In particular rule priority, inheritance between sub-lexers, symbol order and error outcomes depend on the text alone.",
 ["schedules","configurations","inputs"],"every map iteration order and other runtime-random choice during construction, for every definition text, with every probe input afterwards",
 "Go randomises map iteration per loop, so an order-dependent builder gives different components from run to run; a test sees one order and passes or flakes.",
 ["lexer/stacklexer/construct.go","lexer/simplelexer/construct.go","grammar/grammar.go","grammar/regexgram/regexgram.go","tree/reducer.go","tree/reducer/reducer.go","symbol/setsymbol/set.go"],
 [("construction follows the order of the definition text","lexer/stacklexer/construct.go New; grammar/grammar.go New; grammar/regexgram/regexgram.go evalGrammar"),("merging is order-independent","tree/reducer.go Merge")],
 ["behaviour of the built component on probe inputs","its printed form"],None,"none in /repo: map iteration is put behind a seeded seam at build time")

p("C06","The same call always gives the same result",
 "Repeating the same lex, parse, reduction, grammar analysis or full run on equal components with equal input always gives the identical result, whatever order the runtime iterates maps in and whatever other runtime-random choices it makes. In particular an ambiguous grammar always resolves to the same parse tree, and which error is reported for a bad input never varies.",
 ["schedules","inputs","configurations"],"every map iteration order and other runtime-random choice during Lex, Parse, Reduce, Run, RemoveLeftRecursion and Analyze, for every component and input",
 "The parsers, analysers and reducers keep their work in maps; a result that depends on the order of a map varies from run to run in a way a test with one expected tree sees only sometimes.",
 ["parser/packrat/packrat.go","parser/topdown/topdown.go","lexer/simplelexer/lexer.go","lexer/stacklexer/lex.go","tree/reducer.go","grammar/left_recursion.go","leftrecursion.go","analyze/analysis.go","parlex.go"],
 [("work is driven by explicit stacks and slices, maps are only looked up","parser/packrat/packrat.go prOp; parser/topdown/topdown.go tdOp"),("ambiguity is settled by production priority","parser/packrat/packrat.go comparePriority, addToMemo")],
 ["results of the calls"],None,"none in /repo: map iteration, pools, clocks and random sources are put behind a seeded seam at build time")

p("C07","Earlier use leaves no trace in later results",
 "What a call on a lexer, grammar, parser, analysis, reducer or runner returns depends only on how those components were defined and configured: after any sequence of earlier calls on them or on any other component (successful, failing or panicking), each call returns exactly what freshly built components with the same definition and configuration return. Rules, productions, reductions and settings added or changed between calls take full effect for every later call and never break a component because of what it processed before.",
 ["histories","inputs","configurations"],"every history of uses, configuration changes and failed calls over any set of components, each use compared with a fresh component that saw only the configuration",
 "Tests use each component once or twice; a stale cache, a memo kept across calls, or a table that grows while being used needs a particular sequence of earlier calls.",
 ["lexer/simplelexer/lexer.go","lexer/simplelexer/construct.go","lexer/stacklexer/lex.go","lexer/stacklexer/construct.go","parser/packrat/packrat.go","parser/topdown/topdown.go","grammar/grammar.go","tree/reducer.go","grammar/regexgram/regexgram.go","tree/reducer/reducer.go","parlex.go"],
 [("all working state is created per call","Lex, Parse, Reduce, Run"),("using a component does not extend its symbol set","symbol/setsymbol/set.go; grammar/grammar.go Productions; lexer/simplelexer/lexer.go checkError")],
 ["results of every call of the history"],
 [("rule table","rules by kind index; must have no holes caused by lexing","simplelexer Lexer.rules")],SEAM)

p("C08","A run stops at the first failing stage and reports that failure",
 "A run hands its input to the lexer, the lexemes to the parser and the tree through every non-nil reducer in order, each invoked at most once and given exactly what the previous stage produced. Whatever stage fails (a nil lexeme list, error lexemes, no tree, a reducer giving nothing), no later stage is invoked and the caller gets no tree together with that stage's own error - for error lexemes the first of them - and a tree comes back only if every stage succeeded.",
 ["fault_sequences","histories","schedules"],"every combination and order of failures injected into the stages of a run, in any history of runs and with any number of concurrent runs on one runner",
 "The root package has no test of Run at all; the contract only matters when stages fail, in combinations.",
 ["parlex.go","helpers.go","errors.go","interfaces.go"],
 [("stage-by-stage checks","parlex.go Run"),("collection of error lexemes in order","helpers.go LexErrors")],
 ["calls received by the injected stages","returned tree and error"],None,None)

p("C09","A panicking callback harms nobody but its own call",
 "When user-supplied code called during a run (a reduction or condition, a grammar, lexeme, symbol or tree implementation, or a whole stage) panics at any point, the panic reaches the caller of that run unchanged. The input lexemes and trees are left exactly as they were, every concurrent and every later call on the same components returns what it would have returned without the panic.",
 ["crash_points","histories","schedules"],"every point at which a callback can panic, in every stage, with any concurrent and later calls on the same components",
 "No test makes a callback panic; half-updated shared state or a swallowed panic needs a panic at a particular point followed by further use.",
 ["tree/reducer.go","tree/chain_reductions.go","tree/node_reductions.go","parlex.go","parser/packrat/packrat.go","parser/topdown/topdown.go","analyze/analysis.go","symbol/setsymbol/set.go"],
 [("no shared state is modified during a call, so there is nothing to roll back","tree/reducer.go RawReduce; parser/packrat/packrat.go Parse; parser/topdown/topdown.go Parse"),("no recover in the library","whole module")],
 ["panic value seen by the caller","inputs after the panic","results of concurrent and later calls"],None,SEAM)

p("C10","A stalled or re-entrant callback never blocks other work",
 "A call that is stuck or slow inside user-supplied code (a reduction, condition, grammar, lexeme or tree implementation, or stage) never delays another call on the same components: every other call completes within its usual amount of work while the first is still stuck. Callbacks may use the same lexer, parser, reducer or runner re-entrantly, to any depth, and both the inner and the outer call complete with the results they would give on their own.",
 ["schedules","fault_sequences","histories"],"every placement of stalls and re-entrant calls inside callbacks, under every interleaving with other callers",
 "Tests never stall a callback or call back into the component that is calling; a lock held across user code or a per-component scratch buffer needs exactly that.",
 ["tree/reducer.go","tree/chain_reductions.go","parlex.go","parser/packrat/packrat.go","parser/topdown/topdown.go","lexer/simplelexer/lexer.go","lexer/stacklexer/lex.go"],
 [("no locks and no per-component working state","whole module")],
 ["completion of every call within a step budget while others are stalled","results of inner and outer calls"],None,SEAM)

p("C11","Results belong to the caller that got them",
 "A tree, lexeme list, symbol list, production, grammar or reducer returned by a lexing, parsing, reducing, running, building or query call is the caller's own: editing it in place through the public operations, even while other calls are in progress, never changes the result of any other call (earlier, concurrent or later), never changes the lexemes or tree the call was given, and never changes the component that produced it. Extending one production leaves every other production as it was. (Extending a production by a symbol its grammar does not know registers the symbol with that grammar, and counts as a change of the grammar.)",
 ["histories","schedules","inputs"],"every history of calls interleaved with edits of earlier results, by any number of callers",
 "Tests discard a result after looking at it; aliasing between two results, or between a result and an input or component, only shows when one of them is edited afterwards.",
 ["tree/reducer.go","tree/node_reductions.go","tree/parsetree.go","parser/packrat/packrat.go","parser/topdown/topdown.go","grammar/grammar.go","symbol/setsymbol/set.go","lexer/simplelexer/lexer.go","lexer/stacklexer/lex.go","grammar/regexgram/regexgram.go"],
 [("results are built from fresh nodes, lexemes and slices","tree/reducer.go RawReduce; tree/parsetree.go Clone; symbol/setsymbol/set.go LoadLexemes; grammar/grammar.go NonTerminals"),("production views do not share spare capacity","symbol/setsymbol/set.go Production, Productions")],
 ["all other results, inputs and components after each edit"],None,SEAM)

p("C12","The interactive calculator handles any input stream",
 "However its input stream is cut into reads, an interactive stack-calculator session evaluates every complete line exactly once and in order on the stack left by the lines before it, prints one prompt and one answer (the new stack, or the bad-input message with the stack unchanged) per line, and stops at the line 'exit'. Answers are written before the session waits for more input. When the input ends or fails the session ends within a bounded number of steps instead of running on, even if its output cannot be written.",
 ["fault_sequences","inputs","schedules"],"every fragmentation of the input into reads, every point of end-of-input or read error, every point from which output writes fail",
 "The session loop has no test at all; lost lines and endless loops need a pipe that delivers several lines in one read, or an end of input.",
 ["examples/scalc/scalc/main.go","examples/scalc/scalc.go"],
 [("one buffered reader per session, read errors end the session","examples/scalc/scalc/main.go interactive")],
 ["bytes written to standard output","termination of the session"],None,"none in /repo: standard input, output and exit are replaced by simulated ones at build time")

# ---- not decided by simulation: pure functions of their input -------------
p("C13","Parsers accept exactly the language of their grammar",
 "A parser returns a tree if and only if the lexemes derive from the start symbol (for the top-down parser: under its first-match rule), and the tree it returns is a derivation: its leaves are the lexemes in order and each inner node with its children is a production of the grammar.",
 ["inputs","programs"],"every grammar and every lexeme list","tests try a few grammars and inputs each",
 ["parser/packrat/packrat.go","parser/topdown/topdown.go"],[("packrat/top-down parsing","Parse")],["Parse results"])
p("C14","Lexers tokenise the whole input by their stated rule",
 "The lexemes (with discarded and error ones) tile the input from left to right, each chosen by length then priority or by priority then length as configured, with the line and column at which it starts.",
 ["inputs","configurations"],"every lexer definition and input string","tests try a few definitions and inputs each",
 ["lexer/simplelexer/lexer.go","lexer/stacklexer/lex.go"],[("match selection","findNextMatch")],["Lex results"])
p("C15","Printed grammars, lexers and trees define equal copies",
 "The printed form of a grammar, simple lexer or parse tree, given back to its constructor, yields an equal one.",
 ["inputs"],"every grammar, lexer and tree","tests round-trip one value each",
 ["grammar/grammar.go","lexer/simplelexer/construct.go","tree/parsetree.go"],[("String/New pairs","String, New")],["String and New"])
p("C16","Regex grammar operators mean what they say",
 "A grammar written with groups, ?, * and | accepts exactly the sequences those operators describe, and the reducer that comes with it flattens the helper symbols away.",
 ["inputs","programs"],"every regex grammar text and input","tests try a few operators",
 ["grammar/regexgram/regexgram.go"],[("operator expansion","evalSymbol, addRepeatAsProduction, bludgeon")],["New results"])
p("C17","Left recursion is detected exactly and removed without changing the language",
 "A grammar is reported left recursive if and only if some symbol can derive a sentential form starting with itself, and removing left recursion gives a grammar for the same language that is not left recursive.",
 ["inputs","programs"],"every grammar","tests try two grammars",
 ["leftrecursion.go","grammar/left_recursion.go"],[("recursion check and rewriting","IsLeftRecursive, RemoveLeftRecursion")],["IsLeftRecursive, RemoveLeftRecursion"])
p("C18","Grammar analysis answers are exact",
 "The analysis of a grammar reports precisely its symbols, the terminals each symbol can start with, and which symbols can start with nothing.",
 ["inputs","programs"],"every grammar","the test analyses two small grammars",
 ["analyze/analysis.go"],[("first-set computation","firsts")],["Analytics queries"])
p("C19","Tree edits and reducer texts do exactly what they are documented to do",
 "Every tree operation (remove, promote, replace, splice, by positive or negative index) changes the node exactly as documented and ignores indexes out of range, and a reducer parsed from text equals the same chain written in code.",
 ["inputs","programs"],"every tree, operation and reducer text","tests try one tree per operation",
 ["tree/node_reductions.go","tree/chain_reductions.go","tree/reducer/reducer.go"],[("tree edits","node_reductions.go"),("reducer text evaluation","evalReduction")],["edited trees"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
