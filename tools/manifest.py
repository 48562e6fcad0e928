#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
trust = (" Sampled, not exhaustive. Trusts the Go toolchain and standard library (regexp runs as is), the source rewriter "
         "and the simulated sync, atomic, time, rand and map-iteration packages; assumes sequential consistency between "
         "instrumented accesses, with races judged separately by happens-before.")
notes = {
 "C01": "Seeded schedules at every shared memory access of clients lexing on one lexer; results against private solo runs, data races by vector clocks.",
 "C02": "Seeded schedules of clients parsing, querying, printing, analysing and transforming one grammar; results against private solo runs, races by vector clocks, grammar re-observed after.",
 "C03": "Seeded schedules of clients reducing shared trees with shared reducers; results against private solo runs, races by vector clocks, trees and reducers re-observed after.",
 "C04": "Seeded schedules of clients running one runner and calling package-level entry points; results against solo runs in a reset process image, races by vector clocks.",
 "C05": "Each definition is built repeatedly under seeded map orders, with and without other builds before it, and observed on probe inputs; all builds must agree with the canonical one.",
 "C06": "The same calls repeated under seeded map orders, runtime random choices and schedules; every repetition must agree with the canonical one.",
 "C07": "Seeded histories of calls, failing calls and configuration changes; after each, results against fresh components given the same configuration only.",
 "C08": "Scripted and real stages with seeded failures at every stage; the recorded stage-call history is judged by a small executable reference model.",
 "C09": "Panics injected at seeded points inside client callbacks, alone and under concurrency; the panic must arrive unchanged, inputs stay bit-identical, all other and later calls agree with solo runs.",
 "C10": "Clients stalled for ever or re-entering inside callbacks; the others must finish within a bound derived from their solo step count, results against solo runs.",
 "C11": "Callers edit what they got in place, between and during other calls; all other results, inputs and components against solo runs.",
 "C12": "The real interactive session on simulated standard streams: seeded read splits, EOF and errors at any byte, failing writes; transcript against a reference calculator session, bounded steps to end.",
}
checks = [{
  "property": p,
  "quick_cmd": "./check.sh %s quick" % p,
  "thorough_cmd": "./check.sh %s thorough" % p,
  "evidence_file": "evidence/%s.json" % p,
  "technique": "deterministic simulation with fault injection",
  "level": "exploration",
  "level_note": notes[p] + trust,
} for p in sorted(notes)]
na = {
 "C13": "A pure function of grammar and lexemes: no schedule, clock, I/O, fault or randomness enters it. (That it stays so under concurrency, map order, history and faults is C02, C06, C07, C09.)",
 "C14": "A pure function of rules and text, with nothing for a simulator to decide. (Its stability under concurrency, map order and history is C01, C05-C07.)",
 "C15": "A pure round trip of one value; no nondeterminism or fault enters it.",
 "C16": "A pure function of the grammar text; only the language it denotes is in question. (Repeatability of the construction is C05.)",
 "C17": "A pure function of the grammar; no nondeterminism or fault enters it. (Its map-order independence is C06.)",
 "C18": "A pure function of the grammar; no nondeterminism or fault enters it. (Its map-order independence is C06, sharing is C02.)",
 "C19": "Pure edits of one caller-owned value; no nondeterminism or fault enters them. (Isolation of such edits is C11.)",
}
m = {"version": 1, "setup_cmd": "./build.sh",
 "hooks": {"guard": "none in /repo: hooks are inserted at build time into copies of its files, given to the compiler with go build -overlay",
           "enable": "/verif/build.sh (cmd/vsim rewrites every non-test file of the module into /verif/.work/b and builds the harness with -overlay and -modfile)",
           "source_commits": []},
 "checks": checks,
 "not_applicable": [{"property": k, "reason": v} for k, v in sorted(na.items())],
 "notes": "Replay a violation with: /verif/.work/harness replay -work /verif/.work FILE. Defects found and repaired: known-findings.txt."}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
open(root + "/MANIFEST.json", "a").write("\n")
