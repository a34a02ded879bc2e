#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of monitored properties."""
import json, os, subprocess, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
NOTE = {
 "C01": ("runtime monitor: IsValid vs. independent least-fixpoint recogniser", "Every answer of the real IsValid on directed and random grammars is compared with an independent membership oracle; trusts that oracle (harness/ref). Explores, does not prove."),
 "C02": ("runtime monitor: ParseForest/Parse/ParseBSR verdicts vs. independent recogniser", "As C01 for the three forest entry points; a watchdog turns non-termination into a violation."),
 "C03": ("runtime monitor: NumTrees/Ambiguous vs. independent exact derivation counter", "Counts compared exactly, infinite ones included; counted repetitions of nullable elements with bounds above 40 are left out."),
 "C04": ("runtime monitor: parse-tree checker over extracted trees", "Every tree is matched against the grammar by an independent checker; for infinitely ambiguous inputs only nesting and termination are checked."),
 "C05": ("runtime monitor: compile and run generated parsers, offline checker over recorded answers", "Generated sources go through the real compiler and run in their own process; recorded answers are checked against exact counts, the tree checker, ParseBSR and MaxElements bounds."),
 "C06": ("runtime monitor: compiled pattern vs. independent recogniser", "Patterns are compiled with regexp and matched on words, mutations and exhaustive short strings; refusals are checked against grammar analysis."),
 "C07": ("runtime monitor: every production checked by independent recogniser, crash/hang watchdog", "Processes are watched for stack overflow, hangs and memory; determinism is observed by repeated calls."),
 "C08": ("runtime monitor: every production checked by independent recogniser, crash/hang watchdog", "Tapes, random sources and budgets are varied; constructor verdicts are compared with an independent productivity analysis."),
 "C09": ("runtime monitor: every production checked by independent recogniser, crash/hang watchdog", "Graphs of random non-recursive grammars under all deflate options; empty languages are left out."),
 "C10": ("runtime monitor: NFA interpretation of the produced graph vs. independent recogniser", "The graph is read back through its public structure and interpreted; language equality is decided on exhaustive short strings, words and mutations."),
 "C11": ("runtime monitor: scanned words vs. independent trail enumeration and coverage accounting", "Readers run on small graphs; every scanned word is checked and coverage is recomputed from the graph."),
 "C12": ("runtime monitor: every near miss checked by independent recogniser, its label replayed on the original production", "Tapes and random sources over random grammars; determinism observed by repetition; labels of an unknown wording are not judged."),
 "C13": ("runtime monitor: ExpectedNext vs. exact byte follow sets", "Follow sets are computed from the grammar by an independent byte-level NFA."),
 "C14": ("runtime monitor: ParseABNF verdict vs. independent hand-written ABNF parser", "Directed, noisy, mutated and garbage texts."),
 "C15": ("runtime monitor: grammar read back and compared with independent parse of the text", "Structure compared element by element; numerals by value and base."),
 "C16": ("runtime monitor: printed text re-read by independent parser and by the library", "Round trip and fixpoint."),
 "C17": ("runtime monitor: error types vs. independent definition/semantic model", "Injected faults under all four option settings; when several faults are present any of their error types is accepted."),
 "C18": ("runtime monitor: dependency answers vs. independent graph reachability, repeated over map orders", "Each query is repeated so that different map iteration orders are observed."),
 "C19": ("runtime monitor: budget sweeps, size accounting, time/memory watchdog on huge bounds", "Budgets are swept around the exact need; huge repetition bounds run under a clock and memory watchdog."),
 "C20": ("race detector plus snapshot/compare monitor under concurrent stress", "The harness is built with -race; grammars are snapshotted before and after; concurrent answers are compared with sequential ones."),
 "C21": ("crash/hang monitor: every exported operation on hostile grammars and bytes", "Panics, stack overflows, hangs and memory exhaustion of the monitored process are violations."),
 "C22": ("runtime monitor: ParseError vs. independent exploration of every parse attempt", "Offset, line, column, found byte and expected terminals are compared exactly."),
 "C23": ("runtime monitor: answers across spellings and core-rule languages vs. RFC transcription", "All operations over random spellings; core rules on every code point below U+0300 and sampled ones above."),
 "C24": ("runtime monitor: the built commands run in scratch, output compared with library results", "pap and abnf-gen are built from the tree and run as processes; graphs are compared up to their arbitrary node identifiers."),
 "C25": ("runtime monitor: drawings read back and compared with the graph shown", "Flowcharts of random graphs under every deflation and of dependency graphs are parsed and compared node by node and edge by edge; blanks in labels are not compared."),
 "C26": ("runtime monitor: occurrences and lengths of produced words against the budgets set", "Occurrences are counted on grammar shapes whose words show them; lengths of graph words are bounded by the budget plus the furthest completion."),
 "C27": ("runtime monitor: fields and message of every error vs. the faults found by an independent model", "When several faults are present any of them may be blamed; letter case of names is not compared."),
 "C28": ("runtime monitor: words seen in adaptive draws vs. an independent list of likely words; differential check of one-byte tape edits", "Words an even choice would yield about once in 160 draws or more have to come within 30000 draws; for ranges of many characters whole stretches are counted. Locality is observed on words of delimited parts."),
}
impl = subprocess.run(["grep", "-rhoE", 'ID: "C[0-9]+"', os.path.join(here, "harness/cmd/vmon")], capture_output=True, text=True).stdout
impl = {x.split('"')[1] for x in impl.split("\n") if x}
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in impl:
        t, n = NOTE[i]
        m["checks"].append({"property": i, "quick_cmd": f"bash run.sh {i} quick", "thorough_cmd": f"bash run.sh {i} thorough",
            "technique": t, "level": "exploration", "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": "monitor not built yet"})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
