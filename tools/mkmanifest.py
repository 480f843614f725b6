#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and tools/checks.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from checks import CHECKS
NA = {
    "C23": "a pure function of its input: tuple/type-level algorithms, containers of callables and iterators without "
           "any schedule, clock, I/O or fault in them; deterministic simulation has nothing to vary there",
    "C24": "needs libdispatch, the Windows thread pool, Emscripten or Qt: none of these platforms can be compiled or "
           "run in this sandbox, so no execution of that code can be simulated",
}
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({
            "property": i,
            "quick_cmd": "./check " + i + " quick",
            "thorough_cmd": "./check " + i + " thorough",
            "technique": "deterministic simulation with fault injection: seeded search over schedules, timing and "
                         "faults of the real code, against a reference model",
            "level": "exploration",
            "level_note": "Seeded sampling of simulated executions of the real library (every synchronisation, clock, "
                          "thread and allocation operation decided by the simulator). Evidence, not proof: trusts the "
                          "simulator's pthread/clock model, sequentially consistent interleavings plus happens-before "
                          "race detection. " + c.get("note", ""),
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "python3 tools/mkmanifest.py --check && ./check --selftest",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the seam is the compiler's -fsanitize=thread instrumentation, linked against sim/ "
              "instead of libtsan. See DESIGN.md."}
txt = json.dumps(m, indent=1) + "\n"
if "--check" in sys.argv:
    sys.exit(0 if open(V + "/MANIFEST.json").read() == txt else "MANIFEST.json is out of date")
open(V + "/MANIFEST.json", "w").write(txt)
