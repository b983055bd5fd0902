"""Worker process of one check in one mode: python -m mc.engine ID TIER MODE OUT [REPLAY]."""
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

GRACE = 20  # seconds the exploration goes on after the first new failure


def failed(job, msg, trace=()):
    """A result row that reports a failure outside run_job."""
    return {
        "job": job,
        "states": [],
        "outcomes": [],
        "transitions": 0,
        "traces": 0,
        "samples": [],
        "failures": [{"key": None, "msg": msg, "detail": {"trace": list(trace)}}],
        "obs": [],
        "maxerr": {},
        "wall": 0.0,
    }


def explore(module, jobs, limit, known, emit):
    """Run all jobs; stop early once a new failure was found, or when nothing ends any more."""
    from mc import core

    global _run

    def _run(items):
        out = []
        for k in items:
            out.append((k, core.run_job(module, jobs[k], limit)))
            if any(fl["key"] not in known for fl in out[-1][1]["failures"]):
                break
        return out

    procs = int(os.environ.get("MC_PROCS", "8"))
    ctxm = mp.get_context("fork")
    is_fresh = getattr(module, "FRESH", False)
    chunk = 1 if is_fresh else max(1, min(getattr(module, "CHUNK", 8), len(jobs) // (procs * 4) or 1))
    done, first_failure, last = set(), None, time.time()
    stall = 2 * limit + 60
    with ctxm.Pool(min(procs, len(jobs)), maxtasksperchild=1 if is_fresh else None) as pool:
        chunks = [range(k, min(k + chunk, len(jobs))) for k in range(0, len(jobs), chunk)]
        it = pool.imap_unordered(_call, chunks)
        while len(done) < len(jobs):
            try:
                results = it.next(timeout=5)
            except StopIteration:
                return len(done) == len(jobs)
            except mp.TimeoutError:
                results = []
                if time.time() - last > stall:
                    k = min(set(range(len(jobs))) - done)
                    emit(k, failed(jobs[k], f"no answer within {stall} s: a process hangs or has crashed"))
                    return False
            for index, res in results:
                last = time.time()
                done.add(index)
                emit(index, res)
                if first_failure is None and any(fl["key"] not in known for fl in res["failures"]):
                    first_failure = time.time()
            if first_failure is not None and time.time() - first_failure > GRACE and len(done) < len(jobs):
                return False
    return True


def main():
    check_id, tier, mode, out = sys.argv[1:5]
    os.environ["VERIF_TIER"] = tier  # bounds that depend on the tier inside a check
    replay = sys.argv[5] if len(sys.argv) > 5 else None
    from mc import core
    from mc.main import known_findings

    known = known_findings(check_id)
    with open(out, "w") as f:

        def emit(index, res):
            f.write(json.dumps(dict(res, index=index)) + "\n")

        complete = True
        try:
            module = importlib.import_module(f"mc.checks.{check_id.lower()}")
            jobs = [json.load(open(replay))["job"]] if replay else list(module.jobs(tier, mode))
        except Exception as ex:  # pylint: disable=broad-except
            emit(0, failed({}, f"the cases cannot be built: {ex}", traceback.format_exc().splitlines()[-14:]))
            jobs, complete = [], False
        limit = 240 if tier == "quick" else 1500
        if jobs:
            limit = getattr(module, "JOB_LIMIT", limit)
            if hasattr(module, "warmup"):
                core.guarded(lambda: module.warmup(mode), 200)  # a failing warm-up shows again in a job
            complete = explore(module, jobs, limit, known, emit)
        f.write(json.dumps({"total": len(jobs), "complete": complete}) + "\n")


def _call(items):
    return _run(items)


if __name__ == "__main__":
    main()
