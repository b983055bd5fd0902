"""Exploration bookkeeping shared by all checks."""
import hashlib
import itertools
import json
import math
import os
import pickle
import signal
import sys
import time
import traceback

import numpy as np


class Violation(Exception):
    """Raised inside a job when the property does not hold."""

    def __init__(self, msg, key=None, detail=None):
        super().__init__(msg)
        self.key = key
        self.detail = detail


class JobTimeout(BaseException):
    pass


def canon(obj, digits=9):
    """Canonical, hashable rendering; floats are rounded to `digits` significant digits."""
    if isinstance(obj, dict):
        return {str(k): canon(v, digits) for k, v in sorted(obj.items(), key=lambda kv: str(kv[0]))}
    if isinstance(obj, (list, tuple)):
        return [canon(v, digits) for v in obj]
    if isinstance(obj, (set, frozenset)):
        return sorted((canon(v, digits) for v in obj), key=repr)
    if isinstance(obj, np.ma.MaskedArray):
        return canon(obj.filled(np.nan), digits)
    if isinstance(obj, np.ndarray):
        return [canon(v, digits) for v in obj.tolist()]
    if isinstance(obj, (bool, np.bool_)):
        return bool(obj)
    if isinstance(obj, (int, np.integer)):
        return int(obj)
    if isinstance(obj, (float, np.floating)):
        f = float(obj)
        if not math.isfinite(f):
            return repr(f)
        if abs(f) < 10.0 ** -digits:
            return 0.0
        return float(f"{f:.{digits}g}")
    if obj is None or isinstance(obj, str):
        return obj
    return repr(obj)


def digest(obj, digits=9):
    return hashlib.sha1(json.dumps(canon(obj, digits), sort_keys=True).encode()).hexdigest()[:16]


class Ctx:
    """What one job reports."""

    def __init__(self, job):
        self.job = job
        self.states = set()
        self.outcomes = set()
        self.transitions = 0
        self.traces = 0
        self.evaluations = 0
        self.samples = []
        self.failures = []
        self.obs = []
        self.maxerr = {}

    # -- coverage
    def state(self, obj, digits=6):
        h = digest(obj, digits)
        new = h not in self.states
        self.states.add(h)
        return new

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, obj, digits=5):
        self.outcomes.add(digest(obj, digits))

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(canon(obj, 6))

    def observe(self, arr):
        """Numbers compared between interpreted and compiled runs of the same job."""
        self.obs.append(np.asarray(arr, dtype=float).ravel().tolist())

    # -- oracle
    def fail(self, msg, key=None, **detail):
        if len(self.failures) < 20 or key is not None:
            self.failures.append({"key": key, "msg": msg, "detail": canon(detail, 8)})

    def check(self, cond, msg, key=None, **detail):
        if not cond:
            self.fail(msg, key, **detail)
        return bool(cond)

    def close(self, got, want, what, tol=1e-9, key=None, scale=None, **detail):
        """|got - want| <= tol * max(1 or scale, |want|); shapes must agree."""
        got = np.asarray(got, dtype=float)
        want = np.asarray(want, dtype=float)
        if got.shape != want.shape:
            self.fail(f"{what}: shape {got.shape}, expected {want.shape}", key, **detail)
            return False
        if got.size == 0:
            return True
        s = max(float(np.max(np.abs(want))), 1.0 if scale is None else scale)
        err = float(np.max(np.abs(got - want))) / s if np.all(np.isfinite(got)) else float("inf")
        self.maxerr[what] = max(self.maxerr.get(what, 0.0), err)
        if not err <= tol:
            self.fail(
                f"{what}: differs by {err:.3g} (relative to {s:.3g}), allowed {tol:.1g}",
                key,
                got=got if got.size <= 60 else got.ravel()[:60],
                want=want if want.size <= 60 else want.ravel()[:60],
                **detail,
            )
            return False
        return True

    def result(self):
        return {
            "job": self.job,
            "states": sorted(self.states),
            "outcomes": sorted(self.outcomes),
            "transitions": self.transitions,
            "traces": self.traces,
            "samples": self.samples,
            "failures": self.failures,
            "obs": self.obs,
            "maxerr": self.maxerr,
        }


def _alarm(_sig, _frm):
    raise JobTimeout()


def _set_limit(cpu_seconds):
    """Processor time, so that a busy machine does not look like a hanging program."""
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, cpu_seconds)


def guarded(fn, limit):
    """Call fn, whatever it raises, for at most that many seconds of processor time."""
    _set_limit(limit)
    try:
        fn()
    except (Exception, JobTimeout):  # pylint: disable=broad-except
        return False
    finally:
        _set_limit(0)
    return True


def run_job(module, job, limit):
    ctx = Ctx(job)
    _set_limit(limit)
    t = time.time()
    try:
        module.run(job, ctx)
    except Violation as ex:
        ctx.fail(str(ex), ex.key, **(ex.detail or {}))
    except JobTimeout:
        ctx.fail(f"no answer within {limit} s", key="timeout")
    except BaseException as ex:  # an exception escaping from the code under check breaks the property
        if isinstance(ex, KeyboardInterrupt):
            raise
        ctx.fail(
            f"unexpected {type(ex).__name__}: {ex}",
            key=None,
            trace=traceback.format_exc().splitlines()[-14:],
        )
    finally:
        _set_limit(0)
    res = ctx.result()
    res["wall"] = time.time() - t
    return res


def product_jobs(**axes):
    """All combinations, simplest (first values) first."""
    names = list(axes)
    for combo in itertools.product(*(axes[n] for n in names)):
        yield dict(zip(names, combo))


def isolated(fn, *args):
    """Value of fn(*args) computed in a forked child, so that it leaves nothing behind in this process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            with os.fdopen(w, "wb") as out:
                try:
                    pickle.dump((True, fn(*args)), out)
                except BaseException:  # pylint: disable=broad-except
                    pickle.dump((False, traceback.format_exc()), out)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as inp:
        data = inp.read()
    os.waitpid(pid, 0)
    ok, value = pickle.loads(data) if data else (False, "the child ended without an answer")
    if not ok:
        raise RuntimeError("in an isolated process: " + value)
    return value


class quiet:
    """Silence the progress output of the code under check."""

    def __enter__(self):
        self.out = sys.stdout
        sys.stdout = open(os.devnull, "w")

    def __exit__(self, *a):
        sys.stdout.close()
        sys.stdout = self.out
