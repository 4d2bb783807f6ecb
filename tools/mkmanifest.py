#!/usr/bin/env python3
"""Generates MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
NA = {
 "C24": "Pure function of its argument string: no schedule, clock, I/O, storage or fault can affect it, so a simulated execution would be ordinary input generation. (Its memory side is covered by C13, C15 and C22.)",
 "C25": "Pure functions of their arguments (codecs, bit operations, primes, phonetic codes): nothing nondeterministic for a simulator to decide.",
}
claimed = os.environ.get("CLAIMED", "").split() or [p["id"] for p in props if p["id"] not in NA]
note = ("Seeded random search over whole simulated executions of the real, recompiled library; every report is replayed in a fresh process "
        "before it is printed. A clean run is evidence over the sampled executions, not proof. Trusted: the simulated kernel, stdio, heap and programs "
        "(checked against POSIX behaviour by construction, not verified), the reference models, and the C library's string and formatting functions.")
m = {"version": 1, "setup_cmd": "sim/build.sh",
     "checks": [{"property": p["id"], "quick_cmd": "./check.sh %s quick" % p["id"], "thorough_cmd": "./check.sh %s thorough" % p["id"],
                 "technique": "deterministic simulation with fault injection: seeded search over schedules, faults and histories of the real library in one simulated process world",
                 "level": "exploration", "level_note": note} for p in props if p["id"] in claimed],
     "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "No hooks in /repo: libc calls of the compiled library are redirected at link time (objcopy), so the sources are used unmodified."}
na2 = [p["id"] for p in props if p["id"] not in claimed and p["id"] not in NA]
for k in na2: m["not_applicable"].append({"property": k, "reason": "check under construction"})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
