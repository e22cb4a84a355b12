#!/usr/bin/env python3
"""Writes MANIFEST.json; the claimed properties are those with a world."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
NA = {
    "C20": "The nullability combinators are pure functions of their arguments (map, zip on option-like values); nothing nondeterministic or fallible is involved.",
    "C21": "A property of trait resolution, decided by the compiler; there is no execution to simulate.",
}
CORE = "deterministic simulation with fault injection: seeded search over interleaved array histories under a simulated allocator, caller storage and producers, checked against a sequence model and an independent decoder of the raw buffers"
PARTS = "deterministic simulation with fault injection: seeded storage faults (torn, short, stale, misdirected, flipped writes) between decomposition and validated reassembly, checked against an independent reading of the parts"
READ = "deterministic simulation with fault injection: a seeded scheduler interleaves many readers and holders over shared storage, each checked against a cursor model"
FFI = "deterministic simulation with fault injection: a simulated foreign consumer and producer of the Arrow C Data Interface; seeded interleavings of export, move, read, release, drop and corruption, checked by an independent C-side decoder and an accounting allocator"
ROWS = "deterministic simulation with fault injection: seeded histories (panicking producers, refusing storage, truncation, unusual representations) over several list collections, rows compared across all of them against item-wise equality of the modelled values"
TECH = {"C19": ROWS, "C08": PARTS, "C10": READ, "C13": FFI, "C14": FFI, "C15": FFI, "C16": FFI, "C17": FFI, "C18": FFI}
DONE = set(sys.argv[1:]) if len(sys.argv) > 1 else {p["id"] for p in props} - set(NA)
NOTE = "Sampled executions, each decided by one seed and replayable; a clean run is evidence, not proof. Trusts the item model, the layout decoder and the simulated allocator; the code of narrow itself runs unmodified (no hooks)."
m = {
    "version": 1,
    "setup_cmd": "./build.sh",
    "checks": [
        {
            "property": p["id"],
            "quick_cmd": f"./check.sh {p['id']} quick",
            "thorough_cmd": f"./check.sh {p['id']} thorough",
            "technique": TECH.get(p["id"], CORE),
            "level": "exploration",
            "level_note": NOTE,
        }
        for p in props if p["id"] in DONE
    ],
    "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()]
    + [{"property": p["id"], "reason": "check not built yet"} for p in props if p["id"] not in DONE and p["id"] not in NA],
    "notes": "No hooks in /repo: every source of nondeterminism (allocator, caller storage, caller iterators, the foreign side of the C Data Interface, reader scheduling) is behind a seam the crate already has. Genuine defects found are repaired by fix: commits in /repo and listed in known_findings.txt.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
