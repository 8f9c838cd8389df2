"""Worker processes.

  python -m pyvc.work sym  IN OUT     verify units over the instrumented package
  python -m pyvc.work con  IN OUT     run cases / replay models on the uninstrumented package
IN is a JSON list of jobs, OUT gets a JSON list of results.
"""
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

from . import env

env.setup()


def load(instrumented):
    if instrumented:
        from . import loader
        f = loader.install()
        from . import shims            # noqa: F401  (registers library shims)
        import importlib
        import pkgutil
        import seismostats
        for m in pkgutil.walk_packages(seismostats.__path__, "seismostats."):
            if ".tests" in m.name:
                continue
            try:
                importlib.import_module(m.name)
            except ImportError:
                pass
    import contracts
    contracts.load_all()
    if instrumented:
        from . import engine
        engine.install_stubs()


def _sym(job):
    from . import engine
    return engine.verify(job["unit"], job.get("budget", 120.0), job.get("only"))


def _con(job):
    from . import concrete
    if job["kind"] == "search":
        return concrete.search(job["unit"], job["seed"], job["cases"], job.get("start", 0),
                               time_limit=job.get("limit", 120.0), every=job.get("every", 12))
    if job["kind"] == "replay":
        st, fails, inputs = concrete.replay_model(job["unit"], job["model"])
        return {"unit": job["unit"], "status": st, "failures": fails, "inputs": inputs,
                "obligation": job.get("obligation")}


def _child(fn, job, path):
    try:
        r = fn(job)
    except BaseException as e:
        r = {"unit": job["unit"], "crash": f"{type(e).__name__}: {e}", "trace": traceback.format_exc()[-2000:]}
    with open(path, "w") as f:
        json.dump(r, f, default=str)
    sys.stdout.flush()
    os._exit(0)


def run_jobs(fn, jobs, nproc, tmp, hard):
    """one forked process per job, at most nproc at a time, hard limit in seconds each"""
    pending = list(enumerate(jobs))
    running = {}
    results = [None] * len(jobs)
    while pending or running:
        while pending and len(running) < nproc:
            i, job = pending.pop(0)
            path = os.path.join(tmp, f"r{os.getpid()}_{i}.json")
            pid = os.fork()
            if pid == 0:
                _child(fn, job, path)
            running[pid] = (i, job, path, time.time())
        time.sleep(0.02)
        for pid in list(running):
            i, job, path, t0 = running[pid]
            p, st = os.waitpid(pid, os.WNOHANG)
            if p == 0:
                lim = job.get("hard", hard)
                if time.time() - t0 > lim:
                    os.kill(pid, 9)
                    os.waitpid(pid, 0)
                    results[i] = {"unit": job["unit"], "crash": "killed after %d s" % lim}
                    del running[pid]
                continue
            del running[pid]
            try:
                with open(path) as f:
                    results[i] = json.load(f)
                os.unlink(path)
            except (OSError, ValueError):
                results[i] = {"unit": job["unit"], "crash": f"worker ended with status {st}"}
    return results


def main():
    mode, src, dst = sys.argv[1:4]
    with open(src) as f:
        spec = json.load(f)
    load(mode == "sym")
    fn = _sym if mode == "sym" else _con
    res = run_jobs(fn, spec["jobs"], spec.get("nproc", 4), os.path.dirname(dst), spec.get("hard", 300))
    with open(dst, "w") as f:
        json.dump(res, f)


if __name__ == "__main__":
    main()
