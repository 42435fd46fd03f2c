#!/usr/bin/env python3
"""Writes MANIFEST.json. Not used by any check."""
import json, os

T = {}
TXT = "Exhaustive within its bounds, on the real code: every sequence of tokens up to a length, every viable prefix further than that, every short string over classes of characters, every Unicode character in 22 places, every mix of list operands, swept lengths, widths and depths up to 10^6; in a checked and in a release build. Texts outside of these spaces are not covered. "
EXPR = "Exhaustive within its bounds, on the real code: every expression tree up to a size, every mix and width of list operands, nestings and caterpillars, widths and depths up to 10^6, with every assignment of narrow ones and structured assignments of wide ones; in a checked and in a release build. Other expressions are not covered. "
T["P01"] = ("bounded exhaustive model checking of the real parser against a push-down reference model", TXT + "Trusts the reference model of the grammar (mc/src/model.rs).")
T["P02"] = ("bounded exhaustive model checking of the real parser against a reference model of predicates", TXT + "All 1-edit neighbours of the known keys with all kinds of values, all values of up to 3 characters, all integers up to 66000 in 14 spellings. Trusts the reference model.")
T["P03"] = ("bounded exhaustive model checking of the real parser against a push-down reference model with errors", TXT + "Reason, span, text and printed form of every rejected text are compared. Trusts the reference model.")
T["P04"] = ("bounded exhaustive exploration of the real code for panics, divergence and stack exhaustion, with a watchdog", TXT + "Every public operation on a text must return; time is measured for 80 families of texts at 3 sizes, which is a bound on growth for these only.")
T["P05"] = ("bounded exhaustive model checking of the real lexer against a reference lexer and the tiling invariant", TXT)
T["P06"] = ("bounded exhaustive exploration of pairs of texts and respellings, comparing the real code with itself", "Exhaustive within its bounds, on the real code: all token sequences up to a length, each with whitespace of each kind at each gap, wrapped in each way, and with trailing commas at each place, compared with the plain spelling. Trusts the reference lexer to take texts apart. Longer texts are only covered in the families stated in the evidence.")
T["P07"] = ("bounded exhaustive model checking of the real evaluator against a reference semantics of trees", EXPR + "Trusts the reference model.")
T["P08"] = ("bounded exhaustive model checking of the real evaluator against Kleene semantics of trees", EXPR + "Trusts the reference model.")
T["P09"] = ("bounded exhaustive model checking of the real evaluator with a free logic which records each operation", EXPR + "Terms are compared modulo associativity, commutativity and neutral elements, as the statement allows.")
T["P10"] = ("exhaustive exploration of all triples and their neighbours on the real lookup", "Exhaustive over all builtins, all texts one edit away from each (any ASCII character, and some others), words of the sources as components, all prefixes and suffixes, all combinations of known components, all short texts. Other texts are not covered.")
T["P11"] = ("explicit-state check of the product of all builtins and all predicates and values against the snapshot of rustc", "Exhaustive over all builtins x all keys x all values used by any target, near misses and unused ones, through parse and eval of the real code. Trusts the snapshot of rustc 1.86.0 (data/golden.txt); tools/compare_rustc.py compares it with newer compilers.")
T["P12"] = ("exhaustive exploration of target descriptions over a product of field values, against a reference matcher", "Exhaustive over the product of field values of each kind (absent, empty, known, unknown, owned or static), all predicates and values, on the real code. Values outside of the alphabets are not covered.")
T["P13"] = ("exhaustive comparison of parsed and builtin targets over all predicates and values, on the real code", "Exhaustive over all builtins target-lexicon can parse x all keys x all values used by any target or by LLVM, near misses and empty. With the feature targets, in the checked build.")
T["P14"] = ("explicit-state exploration of the product of all components of target-lexicon triples, on the real code", "Exhaustive over all architectures x vendors x systems x environments target-lexicon knows (one representative per binary format) x all keys x values in use; each triple is checked for consistency with the tables per component. Values include near misses and words of the sources. Custom vendors and deployment targets are those of a list and of ranges of versions.")
T["P15"] = ("exhaustive exploration of construction histories of values and sets against a reference set", "Exhaustive within its bounds, on the real code: all sequences of elements up to a length over small alphabets in all ways to build, all pairs of texts of a space, all integers as atomic sizes. Other texts are not covered.")
T["P16"] = ("stateless exploration of histories, nestings and thread schedules of the real code under a controlled scheduler", "Exhaustive within its bounds, on the real code: all pairs and triples of operations, all nestings at each point where control passes to user code, all interleavings of 2 and 3 threads at these points, each compared with the operation alone in a fresh process. Within library code, threads are switched before each access to memory which several threads use, with all schedules of up to 2 preemptions of pairs of operations (as far as the time allows, stated in the evidence; there are no such accesses in the tree as it is), in sequentially consistent memory.")
T["P17"] = ("bounded exhaustive exploration of pairs of accepted texts on the real code", "Exhaustive within its bounds, on the real code: all pairs of the accepted token sequences up to a length, and of families of texts which differ in one place; re-parse and clone of each. Longer texts are only covered in the families stated in the evidence.")
T["P18"] = ("explicit-state exploration of compiler answers and update histories, running the real tool against a stand-in compiler", "Exhaustive within its bounds: products of options with and without values, orders of lines, all sets of families and atomics, each set of options after each other, short lists, versions, READMEs and histories of updates. The written list is compiled in place and read back. Values are letters, digits, - and _ only.")
T["P19"] = ("enumeration of faults at every call and step of the real tool, with all pairs of faults", "Exhaustive within its bounds: each kind of failure at each call of the compiler, all pairs, torn answers at each byte, unknown options at each place, missing or bad READMEs, README before and after the compiler, failing formatters. A power failure while files are written is not claimed.")
T["P20"] = ("exhaustive exploration of pairs of values and of how each comes about, on the real code", "Exhaustive within its bounds, on the real code: all pairs of some 3000 predicates (parsed alone, parsed among others, built from owned and from static text), of 1500 errors (parsed and built), of tokens, of functions and of errors of atomics; texts of 1-40 bytes (80) and some up to 4096 which differ in one place; each predicate counted in a text. Other texts are not covered.")
T["P21"] = ("exhaustive exploration of expressions, each for all targets, against the reference model over the options of each target, on the real code", "Exhaustive within its bounds, on the real code: all pairs of the options which rustc's targets set, in three formulas; all conjunctions of a target's options, with each of them changed to each other value; 24 predicates in all triples, in eight formulas; each kind of predicate with thousands of values; expressions from manifests; all trees of up to 8 nodes (9) and the lists, depths and features in combination of P07. Each of these for all 287 targets, as builtin, made by hand and parsed. What rustc 1.86.0 sets is a snapshot.")
checks = [dict(property=p, quick_cmd=f"./check.sh {p}", thorough_cmd=f"./check.sh {p} thorough", technique=t, level="model_checking", level_note=n) for p, (t, n) in T.items()]
m = dict(version=1, setup_cmd="./check.sh build", checks=checks, not_applicable=[], notes="No hooks: everything is checked through the public API of the crate, and the update tool as a program. Repaired defects and known findings: known_findings.txt. Design, bounds and results on planted bugs: DESIGN.md.")
json.dump(m, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
