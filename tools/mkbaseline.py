#!/usr/bin/env python3
"""mkbaseline.py [UNIT|PROPERTY ...]: verifies the units on the unchanged tree and records, per unit, which
obligations are discharged, the callee contracts used and the time (baseline.json: used to order the jobs, to
find the units proving the callees, and to tell a refuted obligation from one that never went through)."""
import json, os, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from pyvc import env
env.setup()
from pyvc import engine
import contracts
contracts.load_all()
import check

p = os.path.join(HERE, "baseline.json")
base = json.load(open(p)) if os.path.exists(p) else {}
want = sys.argv[1:]
us = [u for u, c in engine.UNITS.items() if c.symbolic and (not want or u in want or set(want) & set(c.pids))]
jobs = [{"unit": u, "budget": 170.0, "only": o} for u in us for o in engine.jobs(u)]
tmp = tempfile.mkdtemp(prefix="pyvc-")
res, err = check.finish(check.run_worker("sym", jobs, tmp, 6, 240, "a"), 7200)
if res is None:
    sys.exit(err)
by = {}
for r in res:
    by.setdefault(r["unit"], []).append(r)
for u, rs in by.items():
    r = engine.merge_results(rs)
    if "crash" in r:
        print(u, r["crash"])
        base.pop(u, None)
        continue
    bad = {o[0] for o in r["obligations"] if o[2] != "discharged"}
    good = sorted({o[0] for o in r["obligations"]} - bad)
    ok = not bad and not r["unsupported"] and r["cover"]
    base[u] = {"wall": r["wall"], "discharged": good if ok else [], "stubs": r["stubs"], "proved": bool(ok),
               "open": sorted(bad)[:10], "why": sorted(set(r["unsupported"]))}
    print(u, "proved" if ok else "OPEN", r["wall"], sorted(bad)[:6], sorted(set(r["unsupported"]))[:3])
base = {u: base[u] for u in sorted(base) if u in engine.UNITS}
json.dump(base, open(p, "w"), indent=0)
print(sum(b["proved"] for b in base.values()), "of", len(base), "proved")
