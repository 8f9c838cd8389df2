#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered contracts."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from pyvc import env
env.setup()
from pyvc import engine
import contracts
contracts.load_all()
from notes import NOTES, NOT_APPLICABLE  # noqa

props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    pid = p["id"]
    us = [u for u in engine.UNITS.values() if pid in u.pids]
    if pid in NOT_APPLICABLE or not us:
        na.append({"property": pid, "reason": NOT_APPLICABLE.get(pid, "no contract within reach yet")})
        continue
    nsym = sum(1 for u in us if u.symbolic)
    checks.append({
        "property": pid,
        "quick_cmd": f"python3 check.py {pid} quick",
        "thorough_cmd": f"python3 check.py {pid} thorough",
        "evidence_file": f"evidence/{pid}.json",
        "technique": "contracts on the real functions, discharged by symbolic execution + SMT (pyvc: z3/cvc5)"
        if nsym else "contracts on the real functions, bounded evaluation (stand-in)",
        "level": "proof" if nsym else "exploration",
        "level_note": NOTES.get(pid, "") or f"{nsym} of {len(us)} contracts are verified for all inputs, the rest bounded; "
        "floats are treated as reals with a NaN flag; see DESIGN.md"})
m = {"version": 1, "setup_cmd": "python3 tools/setup_check.py", "checks": checks, "not_applicable": na,
     "notes": "Contracts in contracts/, verifier in pyvc/, decided by check.py; see DESIGN.md."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not applicable")
