#!/usr/bin/env python3
"""replay.py FILE: re-runs a reported failing case on /repo's working tree (exit 1: it still fails)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from pyvc import env                                     # noqa: E402

env.setup()
from pyvc import concrete, engine, work                  # noqa: E402

r = json.load(open(sys.argv[1]))
if "source" not in r:
    print(json.dumps(r, indent=1))
    sys.exit(0)
work.load(False)
s = r["source"]
if s["kind"] == "model":
    st, fails, inputs = concrete.replay_model(r["unit"], s["model"])
    print(st, fails, inputs)
    sys.exit(1 if st == "failed" else 0)
out = concrete.search(r["unit"], s["seed"], 1, s["case"], every=s.get("every", 12))
print(json.dumps(out["failures"], indent=1))
sys.exit(1 if out["failures"] else 0)
