#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "gen"))
from profiles import PROPS
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTE = ("Seeded search: every simulated run of the machines of this property is compared record by record with an executable reference model, "
        "while clients, network, scheduler, sensors, allocator and failing callbacks are simulated from the seed. A quick run explores tens of "
        "thousands of runs; nothing is enumerated exhaustively. Trusts the reference model (sim/sim.cpp), the machine generator and clang 18%s.")
checks = []
for p in props:
    if p["id"] not in PROPS:
        continue
    asan = any(f.get("asan") for f in PROPS[p["id"]].flavours)
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 check.py %s" % p["id"],
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % p["id"],
        "technique": "deterministic simulation with fault injection, seeded search against a reference model",
        "level": "exploration",
        "level_note": NOTE % (" with AddressSanitizer" if asan else ""),
    })
na = [{"property": "C19", "reason": "Decided by the compiler before there is a program to run: no schedule, time, I/O or fault takes part, so there is nothing to simulate."}]
json.dump({"version": 1,
           "setup_cmd": "python3 check.py --selftest",
           "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the library's callbacks, operator new and the machines' own API are the seams. check.py --replay FILE reproduces a violation."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
