#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one check per property whose engine exists."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from check import ENGINES
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
TECH = {
 "C01": "type-guided random program generation, differential against a reference interpreter",
 "C02": "generated operand pairs against a 128-bit / IEEE reference",
 "C03": "metamorphic: generated expressions, constant versus opaque operands",
 "C04": "generated value pools: pairwise laws and exact comparison oracle",
 "C05": "stateful model-based testing against an insertion-ordered dictionary",
 "C06": "stateful model-based testing against sequences and records",
 "C07": "stateful model-based testing against byte strings",
 "C08": "generated programs and handle histories with forced collections, metamorphic and finaliser counting",
 "C09": "stateful model-based testing of scheduling histories",
 "C10": "random programs with defers and panics, differential against a reference interpreter",
 "C11": "grammar-based and mutation fuzzing with cleanliness oracle under sanitizers",
 "C12": "metamorphic program rewrites, load and determinism checks",
 "C13": "mutation fuzzing of bytecode modules against an independent well-formedness oracle; round trip",
 "C14": "generated API call sequences against a table-driven contract model",
 "C15": "stateful model-based testing of native call histories",
 "C16": "generated import graphs against a graph model",
 "C17": "metamorphic interleavings of histories on several instances, leak accounting",
 "C18": "fault injection at generated allocation points, recovery oracle",
 "C19": "generated literal spellings and layouts against independent decoders",
 "C20": "generated values: independent renderer and parse-back round trip",
 "C21": "generated copy sets and graphs against brute force; data-flow check of generated code",
 "C22": "model-based histories of the C++ interface, differential against the C interface; fault injection with ownership accounting",
 "C23": "print-parse round trip of generated syntax trees, lossless-token oracle on mutated text, self-consistency of IR and bytecode listings, metamorphic attachment requests",
 "C25": "generated values, operations and ways of writing them against a model of the type system; metamorphic agreement of all ways to call a method",
 "C26": "generated programs over few names against a reference implementation of the scopes and static rules; every executed use reports the declaration it read",
 "C24": "generated programs, files and command lines; differential of the runner against the library",
}
NOTE = {}
import importlib
try:
    NOTE = importlib.import_module("notes").NOTE
except ImportError: pass
checks = []
have = set()
for pid, (variant, src, *more) in ENGINES.items():
    if not os.path.exists(os.path.join(V, "engine", src)): continue
    have.add(pid)
    checks.append({"property": pid, "quick_cmd": "python3 tools/check.py %s" % pid,
        "thorough_cmd": "python3 tools/check.py %s --tier thorough" % pid,
        "technique": "property-based testing and fuzzing: " + TECH[pid], "level": "exploration",
        "level_note": NOTE.get(pid, "random search; see DESIGN.md for the generators, the oracle and their bounds")})
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
na = [{"property": p, "reason": "no check has been built for this property yet"} for p in props if p not in have]
m = {"version": 1, "setup_cmd": "python3 tools/check.py --prepare", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "TIRO_VERIF", "enable": "tools/build.py compiles /repo's sources with -DTIRO_VERIF", "source_commits": ["9edcc87"]},
     "notes": "Engines in engine/*.cpp link tiro's sources compiled from /repo's working tree (tools/build.py) with AddressSanitizer and UBSan."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")
