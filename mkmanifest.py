#!/usr/bin/env python3
import json, plan
props = [json.loads(l) for l in open("/verif/properties.jsonl") if l.strip()]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in plan.PROPS:
        s = plan.PROPS[i]
        checks.append({
            "property": i,
            "quick_cmd": "VERIF_TIER=quick python3 check.py %s" % i,
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % i,
            "technique": s.get("technique", "runtime monitoring: online reference-lexer oracle over generated, exhaustive small-alphabet and real-source workloads"),
            "level": "exploration",
            "level_note": s.get("level_note", "Held on every execution observed; the evidence file counts them. Trusts the monitors in harness/src and unicode-ident for XID classes."),
        })
    else:
        na.append({"property": i, "reason": "check under construction"})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: everything is observed through the public API, in the fallback, inside a compiler (procedural macro) and under sanitizers."}
open("/verif/MANIFEST.json", "w").write(json.dumps(m, indent=1) + "\n")
