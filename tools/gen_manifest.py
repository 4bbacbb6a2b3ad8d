#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
SETS = "model-based property testing: generated windows against an interval-list set model"
GRAPH = "stateful property testing: operation histories against a re-closed constraint network model"
TECH = {
 "C01": SETS + ", all operand kinds and operator forms, exhaustive small scope",
 "C02": "stateful property testing: operation histories on sets against the set model, canonical form checked after each step",
 "C03": "property testing: generated combinator expression trees against the set model, with iterator-protocol checks",
 "C04": SETS + ", permutations of the collected sequence (metamorphic)",
 "C05": SETS + ", exhaustive small scope",
 "C06": SETS + ", pairs and triples, hash agreement, exhaustive small scope",
 "C07": SETS + ", truncation sequences",
 "C08": SETS + ", constructors and queries",
 "C09": "property testing against exact 128-bit arithmetic, exhaustive corner pairs",
 "C10": SETS + ", Minkowski sums, differential between in-place and by-value forms",
 "C11": "property testing against exact wide arithmetic and the set model, all 14 factor types, in-place/by-value/left-factor differential",
 "C12": "property testing against exact 128-bit arithmetic, exhaustive small scope",
 "C13": "property testing against exact 128-bit arithmetic over all integer types",
 "C14": "round-trip and differential property testing with exact nanosecond arithmetic",
 "C15": "round-trip property testing: printed text read back by an independent parser",
 "C16": GRAPH + ", exhaustive small scope",
 "C17": GRAPH + " with inconsistent additions, exhaustive small scope",
 "C18": "metamorphic property testing: one constraint set delivered two ways",
 "C19": GRAPH + ", every lookup and iterator drained",
 "C20": GRAPH + " favouring structural operations",
 "C21": "stateful property testing: scheduler histories against arc-consistency closures and enumerated assignments, exhaustive small scope",
 "C22": "stateful property testing: scheduler histories with refusals against closures and enumerated assignments, exhaustive small scope",
 "C23": "stateful property testing: iterator call sequences against exact progressions",
 "C24": "round-trip property testing through a text, a tree and a compact binary format",
 "C25": "property testing: combinator trees over endless inputs, reads counted against the number the answer needs",
}
NOTE = {
 "graph": "Searches histories over a few dozen instants, placed among up to several hundred in the 'spread' and 'large' legs; trusts the from-scratch closure in the harness model (Floyd-Warshall on exact integers). Where implied durations leave the 64-bit range only soundness is claimed, not minimality.",
 "sched": "Searches histories over at most 7 instants (more in chains, or placed among hundreds, in some legs), at any scale and at the ends of the range; trusts the naive closure in the harness, itself cross-checked against enumeration of all assignments.",
 "num": "Searches the whole 64-bit range with bias to ends, zero, unit multiples and infinities; trusts 128-bit integer arithmetic in the harness.",
 "set": "Searches windows of up to a dozen parts (now and then some tens to 300) at every scale, biased to touching and nested bounds; trusts the interval-list model in the harness. Infinite time points are given as operands of | and & and as ends of ranges, not to the relations.",
}
CLS = {**{f"C{i:02}": "set" for i in range(1, 9)}, "C09": "num", "C10": "set", "C11": "set", "C12": "num", "C13": "num", "C14": "num", "C15": "num",
       **{f"C{i}": "graph" for i in range(16, 21)}, "C21": "sched", "C22": "sched", "C23": "num", "C24": "set", "C25": "set"}
EXTRA = {"C15": "Trusts chrono's own formatting as the reference of custom date formats.", "C14": "Trusts chrono and std for the values on their side."}
m = {"version": 1, "setup_cmd": "bash setup.sh",
 "checks": [{"property": i, "quick_cmd": f"VERIF_TIER=quick bash check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {i}",
   "evidence_file": f"evidence/{i}.json", "technique": TECH[i], "level": "exploration",
   "level_note": "Generated-input search, not proof: no counterexample among the cases counted in the evidence file. " + NOTE[CLS[i]] + (" " + EXTRA[i] if i in EXTRA else "")} for i in ids],
 "not_applicable": [],
 "notes": "One harness crate (/verif/harness, path dependency on /repo, feature serde) runs every leg; no hook is needed in /repo. Repaired defects are listed in KNOWN_FINDINGS.txt."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
