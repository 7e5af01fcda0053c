#!/usr/bin/env python3
import json, os, sys
v = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, v)
import props as P
checks = []
for pid, p in P.PROPS.items():
    c = {"property": pid, "quick_cmd": "python3 check.py %s quick" % pid, "thorough_cmd": "python3 check.py %s thorough" % pid,
         "technique": p.get("technique", "contracts on the functions of /repo, extracted mechanically on every run, discharged by Verus; compiled code replayed on generated inputs"),
         "level": p["level"], "level_note": p["note"]}
    if p["level"] == "proof":
        c["theorems"] = [t for u in p["units"].values() for t in u.get("theorems", [])] or [f for u in p["units"].values() for f in u["fns"]]
    checks.append(c)
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks,
     "hooks": {"guard": "cfg(vx_verif)", "enable": "RUSTFLAGS='--cfg vx_verif'", "source_commits": P.HOOK_COMMITS},
     "not_applicable": [{"property": a, "reason": b} for a, b in P.NOT_APPLICABLE],
     "notes": "See DESIGN.md. Verdicts: a replayed failing input is a VIOLATION; a failed obligation without one is a VIOLATION ending in no-failing-input-found; a function the extractor or verifier cannot reach on the present tree is reported as bounded in the evidence and decided by replay alone."}
json.dump(m, open(os.path.join(v, "MANIFEST.json"), "w"), indent=1)
