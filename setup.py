#!/usr/bin/env python3
"""Builds the extractor and the replay harnesses once (every check also does so itself)."""
import os, sys
import check as C, props as P
os.makedirs(C.BUILD, exist_ok=True)
C.build_vx()
for k in sorted({p["replay"] for p in P.PROPS.values() if p.get("replay")}):
    ok, why = P.build_replay(k, C.REPO, C.BUILD, C.sh)
    print(k, "ok" if ok else why)
    if not ok:
        sys.exit(1)
