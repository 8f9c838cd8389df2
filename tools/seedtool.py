"""seedtool.py plant SPEC.py | check ID... | status: planted bugs (used while developing, no check reads them).

SPEC.py defines BUGS = [dict(id=, property=, edits=[(file, old, new)], demo=python text, needs=, breaks=)].
"""
import json, os, shutil, subprocess, sys, tempfile, runpy
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(HERE, "seeded")
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", PYTHONHASHSEED="0", OMP_NUM_THREADS="1")
DEMO = '''#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH="$PWD"
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def sh(cmd, cwd, env=ENV, timeout=600):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, timeout=timeout, capture_output=True, text=True)


def scratch():
    d = tempfile.mkdtemp(prefix="seed-")
    sh(f"cp -a /repo {d}/repo", "/")
    return d, d + "/repo"


def tests(repo):
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    x = os.path.join(os.path.dirname(repo), "junit.xml")
    r = sh(f"{PY} -m pytest -q -p no:cacheprovider -n 8 --timeout=300 -o junit_family=xunit2 --junitxml={x}", repo)
    import xml.etree.ElementTree as ET
    ok = set()
    for tc in ET.parse(x).getroot().iter("testcase"):
        if not list(tc.iter("failure")) and not list(tc.iter("error")) and not list(tc.iter("skipped")):
            ok.add(f"{tc.get('classname')}::{tc.get('name')}")
    return sorted(base - ok)


def plant(b):
    d, repo = scratch()
    try:
        for f, old, new in b["edits"]:
            p = os.path.join(repo, f)
            s = open(p).read()
            if s.count(old) != 1:
                return f"{b['id']}: {f}: text occurs {s.count(old)} times: {old[:60]!r}"
            open(p, "w").write(s.replace(old, new))
        out = os.path.join(SEED, b["id"])
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "w").write(sh("git diff", repo).stdout)
        open(out + "/demo.sh", "w").write(DEMO)
        os.chmod(out + "/demo.sh", 0o755)
        open(out + "/demo.py", "w").write(b["demo"])
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(out + "/meta.json", "w"), indent=1)
        r0 = sh(f"bash {out}/demo.sh", "/repo")
        r1 = sh(f"bash {out}/demo.sh", repo)
        bad = tests(repo)
        msg = f"{b['id']}: demo clean={r0.returncode} patched={r1.returncode} broken tests={bad[:5]}"
        if r0.returncode or not r1.returncode or bad:
            msg = "REJECTED " + msg + "\n" + r0.stdout[-500:] + r0.stderr[-800:] + r1.stdout[-300:] + r1.stderr[-300:]
            shutil.rmtree(out)
        return msg
    finally:
        shutil.rmtree(d)


def check(i, extra=()):
    out = os.path.join(SEED, i)
    meta = json.load(open(out + "/meta.json"))
    d, repo = scratch()
    try:
        r = sh(f"git apply {out}/patch.diff", repo)
        if r.returncode:
            return f"{i}: patch does not apply: {r.stderr}"
        res = []
        for p in [meta["property"], *extra]:
            e = dict(ENV, PYVC_REPO=repo, VERIF_SEED="1", VERIF_TIER="quick", PYVC_OUT=d)
            r = sh(f"python3 check.py {p} quick", HERE, e, 900)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            last = r.stdout.strip().splitlines()[-1:] + r.stderr.strip().splitlines()[-1:]
            nxt = [l for l in r.stdout.splitlines() if l.startswith("  ")][:1]
            res.append(f"{i}: {p} exit {r.returncode} {'CAUGHT' if v and r.returncode == 1 else 'MISSED'} "
                       f"{'(no input)' if v and v[0].endswith('found') else ''} {nxt} {last}")
        return "\n".join(res)
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    if sys.argv[1] == "plant":
        want = set(sys.argv[3:])
        for b in runpy.run_path(sys.argv[2])["BUGS"]:
            if not want or b["id"] in want:
                print(plant(b), flush=True)
    elif sys.argv[1] == "check":
        for i in sys.argv[2:] or sorted(os.listdir(SEED)):
            print(check(i), flush=True)
