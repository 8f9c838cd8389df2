#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property on /repo's working tree.

exit 0: held on everything explored; exit 1 with a VIOLATION line otherwise; exit 2: the check broke.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.environ.get("PYVC_OUT", HERE)        # where evidence and replay files go
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from pyvc import env                                     # noqa: E402

TRUSTED = [
    "z3 5.3.2 and cvc5 1.4.2 (an unsat answer is believed)",
    "pyvc: the source transformation (pyvc/loader.py), the symbolic execution and path enumeration, the fact "
    "instantiation and the reduction lemmas (pyvc/core.py, pyvc/prove.py)",
    "machine arithmetic treated as mathematical: floats are reals with a separate NaN flag, ints unbounded; "
    "rounding, overflow and infinities are not modelled; a quotient by zero is an unspecified real",
    "axioms for log, exp, sqrt, sin, cos (sign, monotonicity, inverse, square) instantiated on occurring terms",
    "CPython executes the bodies; pandas, scipy, matplotlib and the network behind the named contracts only",
]


def run_worker(mode, jobs, tmp, nproc, hard, tag):
    src, dst = os.path.join(tmp, f"{tag}_{mode}_in.json"), os.path.join(tmp, f"{tag}_{mode}_out.json")
    with open(src, "w") as f:
        json.dump({"jobs": jobs, "nproc": nproc, "hard": hard}, f)
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", PYTHONHASHSEED="0",
             OMP_NUM_THREADS="1", PYTHONPATH=HERE, HOME=tmp, MPLCONFIGDIR=os.path.join(tmp, "mpl"))
    err = open(os.path.join(tmp, f"{tag}_{mode}.err"), "w")
    p = subprocess.Popen([env.PYTHON, "-m", "pyvc.work", mode, src, dst], cwd=tmp, env=e,
                         stdout=err, stderr=err, start_new_session=True)
    return p, dst, err.name


def finish(w, limit):
    p, dst, err = w
    try:
        p.wait(limit)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.wait()
        return None, "worker exceeded its time"
    if p.returncode != 0 or not os.path.exists(dst):
        with open(err) as f:
            return None, f.read()[-1500:]
    with open(dst) as f:
        return json.load(f), ""


def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    env.setup()
    from pyvc import engine
    import contracts
    contracts.load_all()
    units = {u: c for u, c in engine.UNITS.items() if pid in c.pids}
    if not units:
        print(f"no contracts for {pid}")
        return 2
    deps = dep_units(units, engine)
    tmp = tempfile.mkdtemp(prefix="pyvc-")
    try:
        return decide(pid, tier, seed, units, deps, tmp, t0, engine)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def dep_units(units, engine):
    """units proving the callee contracts used (from the committed table, transitively)"""
    p = os.path.join(HERE, "baseline.json")
    base = json.load(open(p)) if os.path.exists(p) else {}
    todo, seen = list(units), set(units)
    while todo:
        u = todo.pop()
        for tgt, by in base.get(u, {}).get("stubs", []):
            for v in engine.STUBS.get(tgt, (None, by))[1]:
                if v not in seen and v in engine.UNITS:
                    seen.add(v)
                    todo.append(v)
    return [u for u in seen if u not in units]


def decide(pid, tier, seed, units, deps, tmp, t0, engine):
    thorough = tier == "thorough"
    known = load_known(pid)
    base = {}
    bp = os.path.join(HERE, "baseline.json")
    if os.path.exists(bp):
        base = json.load(open(bp))
    budget = 400.0 if thorough else 170.0
    sym_units = [u for u in list(units) + deps if engine.UNITS[u].symbolic]
    order = sorted(sym_units, key=lambda u: -base.get(u, {}).get("wall", 10))
    jobs = [{"unit": u, "budget": budget, "only": o} for u in order for o in engine.jobs(u)]
    sym = run_worker("sym", jobs, tmp, 6, budget + 60, "a")
    mult = 25 if thorough else 1
    con_jobs = [{"kind": "search", "unit": u, "seed": seed, "cases": c.cases * mult,
                 "limit": 420 if thorough else 100}
                for u, c in units.items()]
    con = run_worker("con", con_jobs, tmp, 4, 560 if thorough else 240, "a")
    con_res, con_err = finish(con, 700)
    sym_res, sym_err = finish(sym, 760)
    violations = []     # (unit, name, detail, inputs, source)
    errors = []
    con_by = {}
    if con_res is None:
        errors.append("concrete worker: " + con_err)
        con_res = []
    for r in con_res:
        con_by[r["unit"]] = r
        if "crash" in r:
            errors.append(f"{r['unit']}: {r['crash']}")
        for f in r.get("failures", []):
            violations.append((r["unit"], f["name"], f["detail"], f["inputs"],
                               {"kind": "search", "seed": seed, "case": f["case"]}, f.get("all", [])))
        for e in r.get("errors", []):
            errors.append(f"{r['unit']}: {e}")
    undecided = [f"{r['unit']}: {n} cases outside the contract ({w})" for r in con_res
                 for w, n in r.get("limits", {}).items()]
    sym_by = {}
    if sym_res is None:
        undecided.append("the verifier did not run: " + sym_err[-800:])
        sym_res = []
    for r in sym_res:
        sym_by.setdefault(r["unit"], []).append(r)
    sym_by = {u: engine.merge_results(rs) for u, rs in sym_by.items()}

    # escalate where the proof did not go through
    esc = []
    open_units = {}
    for u, c in units.items():
        if not c.symbolic:
            continue
        r = sym_by.get(u)
        bad = [] if r is None or "crash" in r else [o for o in r["obligations"] if o[2] != "discharged"]
        why = []
        if r is None:
            why.append("not verified")
        elif "crash" in r:
            why.append(r["crash"])
        else:
            why += sorted(set(r["unsupported"]))
            if not r["cover"]:
                why.append("precondition not shown satisfiable")
            if not r["obligations"]:
                why.append("no obligations generated")
        if bad or why:
            open_units[u] = (bad, why)
            if not any(v[0] == u for v in violations):
                for nm, m in (r or {}).get("models", [])[:6]:
                    esc.append({"kind": "replay", "unit": u, "model": m, "obligation": nm})
                esc.append({"kind": "search", "unit": u, "seed": seed + 7, "cases": c.cases * 12 * (3 if thorough else 1),
                            "limit": 150, "every": 4})
    replays = {}
    extra_cases = {}
    if esc and time.time() - t0 < 620:
        er, ee = finish(run_worker("con", esc, tmp, 8, 220, "b"), 260)
        if er is None:
            errors.append("escalation: " + ee)
            er = []
        for job, r in zip(esc, er):
            u = job["unit"]
            if "crash" in r:
                errors.append(f"{u}: {r['crash']}")
            elif job["kind"] == "search":
                extra_cases[u] = r
                for f in r["failures"]:
                    violations.append((u, f["name"], f["detail"], f["inputs"],
                                       {"kind": "search", "seed": seed + 7, "case": f["case"], "every": 4}, f.get("all", [])))
            else:
                replays.setdefault(u, {}).setdefault(job["obligation"], []).append(r["status"])
                if r["status"] == "failed":
                    violations.append((u, r["failures"][0][0], r["failures"][0][1], r["inputs"],
                                       {"kind": "model", "model": job["model"]}, [f[0] for f in r["failures"]]))
    # refuted obligations without a failing input
    nfi = []
    for u, (bad, why) in open_units.items():
        if any(v[0] == u for v in violations):
            continue
        okbase = set(base.get(u, {}).get("discharged", []))
        for o in bad:
            st = replays.get(u, {}).get(o[0], [])
            if o[2] == "refuted" and o[1] in ("post", "frame") and o[0] in okbase and \
                    "passed" not in st and not why:
                nfi.append((u, o, st))
            else:
                undecided.append(f"{u}: {o[0]}: {o[2]} ({o[3]})" + (f", counter-model {st}" if st else ""))
        for w in why:
            undecided.append(f"{u}: {w}")
    # report
    fresh, listed = [], []
    for v in violations:
        k = match_known(known, v)
        (listed if k else fresh).append((v, k))
    for k in known:
        if k["status"] == "open" and any(kk is k for _, kk in listed):
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
    code = 0
    os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
    seen_units = set()
    for v, _ in fresh:
        if v[0] in seen_units:
            continue
        seen_units.add(v[0])
        path = os.path.join(OUT, "replays", f"{pid}_{v[0]}.json")
        with open(path, "w") as f:
            json.dump({"property": pid, "unit": v[0], "failed": v[1], "all_failed": v[5], "detail": v[2],
                       "inputs": v[3], "source": v[4],
                       "functions": engine.UNITS[v[0]].functions,
                       "obligations_not_discharged": [o for o in open_units.get(v[0], ([], []))[0]],
                       "rerun": f"{env.PYTHON} {HERE}/replay.py {path}"}, f, indent=1)
        print(f"VIOLATION property={pid} replay={path}")
        print(f"  {v[0]}: {v[1]}: {str(v[2])[-600:]}")
        code = 1
    if not fresh:
        for u, o, st in nfi:
            path = os.path.join(OUT, "replays", f"{pid}_{u}.json")
            with open(path, "w") as f:
                json.dump({"property": pid, "unit": u, "failed_obligation": o, "solver": o[3],
                           "functions": engine.UNITS[u].functions,
                           "counter_models": [m for m in sym_by[u]["models"] if m[0] == o[0]],
                           "replay_of_counter_models": st}, f, indent=1)
            print(f"VIOLATION property={pid} replay={path} no-failing-input-found")
            code = 1
            break
    evidence(pid, tier, seed, units, deps, sym_by, con_by, extra_cases, undecided, errors, len(fresh) + len(nfi),
             t0, listed, open_units, engine)
    for x in undecided:
        print("undecided:", x[:300])
    for x in errors[:10]:
        print("error:", x[:600])
    if code == 0 and not con_by:
        return 2
    ob = sum(len(r.get("obligations", [])) for u, r in sym_by.items() if u in units)
    di = sum(1 for u, r in sym_by.items() if u in units for o in r.get("obligations", []) if o[2] == "discharged")
    print(f"{pid} {tier}: {len(units)} contracts, {di}/{ob} obligations discharged, "
          f"{sum(r.get('cases', 0) for r in con_by.values())} concrete cases, "
          f"{len(fresh) + len(nfi)} violations, {time.time() - t0:.0f} s")
    return code


def load_known(pid):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k.get("property") == pid]


def match_known(known, v):
    for k in known:
        if k["status"] != "open" or k["unit"] != v[0]:
            continue
        if all(any(fn in k["failed"] for fn in [x]) for x in (v[5] or [v[1]])) and \
                k.get("detail", "") in str(v[2]):
            return k
    return None


def evidence(pid, tier, seed, units, deps, sym_by, con_by, extra, undecided, errors, nviol, t0, listed, open_units,
             engine):
    obs = [(u, o) for u, r in sym_by.items() if u in units for o in r.get("obligations", [])]
    dobs = [(u, o) for u, r in sym_by.items() if u in deps for o in r.get("obligations", [])]
    back = {}
    for u, o in obs:
        if o[2] == "discharged":
            back[o[3]] = back.get(o[3], 0) + 1
    proved = sorted(u for u in units if u in sym_by and u not in open_units)
    bounded = sorted(u for u in units if u not in proved)
    funcs = sorted({f for u in proved for f in units[u].functions})
    bfuncs = sorted({f for u in bounded for f in units[u].functions} - set(funcs))
    assumed = sorted({x for u, r in sym_by.items() for x in r.get("assumed", [])})
    stubs = {}
    for u, r in sym_by.items():
        if u in units:
            for tgt, by in r.get("stubs", []):
                stubs[tgt] = by
    unproved = sorted(t for t, by in stubs.items() if not by)
    n_eval = sum(r.get("cases", 0) for r in con_by.values()) + sum(r.get("cases", 0) for r in extra.values())
    n_dis = sum(r.get("distinct", 0) for r in con_by.values()) + sum(r.get("distinct", 0) for r in extra.values())
    samples = [{"unit": u, "inputs": s} for u, r in list(con_by.items())[:6] for s in r.get("samples", [])[:1]]
    level = "proof" if obs and len(proved) >= 1 else "exploration"
    cov = {
        "obligations": len(obs), "discharged": sum(1 for _, o in obs if o[2] == "discharged"),
        "checker_cmd": f"python3 check.py {pid} {tier}",
        "trusted_base": TRUSTED,
        "functions_under_contract_proved": funcs,
        "contracts_proved": proved,
        "contracts_bounded_only": {u: (units[u].why_bounded if not units[u].symbolic else
                                       "; ".join(open_units[u][1])[:300] or "undischarged obligations")
                                   for u in bounded},
        "functions_only_bounded": bfuncs,
        "by_backend": back,
        "callee_contracts_used": {t: (by or "assumed, not proved") for t, by in stubs.items()},
        "dependency_obligations": len(dobs),
        "dependency_discharged": sum(1 for _, o in dobs if o[2] == "discharged"),
        "paths": sum(r.get("paths", 0) for u, r in sym_by.items() if u in units),
        "preconditions_shown_satisfiable": sum(1 for u in units if sym_by.get(u, {}).get("cover")),
        "solver_queries": sum(r.get("solver_queries", 0) for r in sym_by.values()),
        "solver_seconds": round(sum(r.get("solver_time", 0) for r in sym_by.values()), 1),
        "undecided": undecided[:40],
        "evaluations": n_eval, "distinct_nontrivial": n_dis,
        "rule": "per contract, a deterministic sequence of drawn inputs (seeded by VERIF_SEED, contract and case "
                "number) runs the unmodified code and evaluates the same contract; a case counts as non-trivial if "
                "it met the precondition, was not refused by the code and its inputs are new",
        "samples": samples[:6],
        "bounded_note": "concrete cases are a bounded stand-in and a cross-check; they are never counted as proved",
    }
    ev = {"property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": level,
          "coverage": cov,
          "assumptions": assumed + ["callee contract assumed without proof: " + t for t in unproved] +
          ["inputs as described by each contract's inputs/pre (contracts/*.py)"] + [f"error: {e[:200]}" for e in errors[:5]],
          "wall_s": round(time.time() - t0, 1), "violations": nviol}
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    sys.exit(main())
