#!/usr/bin/env python3
"""Source of MANIFEST.json."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
sys.dont_write_bytecode = True
import cfg
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TECH = {
    "C22": "AddressSanitizer, Miri and checked builds under hostile workloads",
    "C23": "allocator-call monitor around each operation",
    "C24": "ThreadSanitizer plus bitwise result-history monitor under concurrent load",
    "C25": "offline comparison of recorded result logs of two build configurations",
    "C26": "instrumented iterators with an online protocol monitor",
    "C27": "recording stand-in process with fault injection and offline log checker",
    "C28": "recorded call log re-evaluated offline by a reference implementation (SciPy)",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in cfg.PROPS:
        na.append({"property": i, "reason": "check not built yet"})
        continue
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py " + i,
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
        "technique": "runtime monitoring: " + TECH.get(i, "oracle monitor over generated hostile workloads, in an optimised and an overflow-/assertion-checked build"),
        "level": "exploration",
        "level_note": cfg.PROPS[i].get("note", "Sampled and small-exhaustive executions of the real code judged by an independent oracle; silent on inputs not generated."),
    })
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks", len(na), "not applicable")
