"""Entry point of every registered check: python -m mc.main ID [--tier T] [--replay FILE]."""
import argparse
import importlib
import json
import os
import re
import subprocess
import sys
import tempfile
import time

import numpy as np

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(ROOT, "known-findings.txt")


def known_findings(prop):
    """{key: text} of the entries `known: property=ID key=KEY text`."""
    out = {}
    with open(KNOWN) as f:
        for line in f:
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def start(check_id, tier, mode, tmp, replay):
    env = dict(os.environ)
    env["NUMBA_DISABLE_JIT"] = "0" if mode == "jit" else "1"
    out = os.path.join(tmp, mode + ".jsonl")
    err = open(os.path.join(tmp, mode + ".err"), "w")
    cmd = [sys.executable, "-W", "ignore", "-m", "mc.engine", check_id, tier, mode, out]
    if replay:
        cmd.append(replay)
    return subprocess.Popen(cmd, env=env, cwd=ROOT, stdout=err, stderr=err), out, err.name


def rows_of(path):
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [json.loads(line) for line in f if line.endswith("\n")]


def violated(path, known):
    return any(fl["key"] not in known for r in rows_of(path) for fl in r.get("failures", ()))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--mode", default=None)
    args = ap.parse_args()
    t0 = time.time()
    prop = args.id
    known = known_findings(prop)
    module = importlib.import_module(f"mc.checks.{prop.lower()}")
    modes = [args.mode] if args.mode else list(getattr(module, "MODES", ["py"]))
    replay = None
    if args.replay:
        replay = os.path.abspath(args.replay)
        modes = [json.load(open(replay)).get("mode", "py")]

    with tempfile.TemporaryDirectory(prefix="mc_") as tmp:
        procs = {m: start(prop, args.tier, m, tmp, replay) for m in modes}
        results, complete = {}, True
        stop_at = None
        while any(p.poll() is None for p, _, _ in procs.values()):
            time.sleep(0.1)
            if stop_at is None and any(p.poll() is not None and violated(out, known) for p, out, _ in procs.values()):
                stop_at = time.time() + 20  # the other mode need not be finished
            if stop_at is not None and time.time() > stop_at:
                for p, _, _ in procs.values():
                    if p.poll() is None:
                        p.terminate()
        for m, (p, out, err) in procs.items():
            rows = rows_of(out)
            rc = p.wait()
            ended = rows and "total" in rows[-1]
            if not ended and stop_at is None:
                sys.stderr.write(open(err).read()[-4000:])
                sys.stderr.write(f"engine {m} of {prop} ended with {rc}\n")
                sys.exit(2)
            complete = complete and bool(ended) and rows[-1]["complete"] and len(rows) - 1 == rows[-1]["total"]
            results[m] = sorted((r for r in rows if "index" in r), key=lambda r: r["index"])

    failures = []  # (mode, job, failure)
    states, outcomes, maxerr = set(), set(), {}
    transitions = traces = 0
    per_mode, samples = {}, []
    for m, rows in results.items():
        per_mode[m] = {"jobs": len(rows), "traces": sum(r["traces"] for r in rows)}
        for r in rows:
            states.update(r["states"])
            outcomes.update(r["outcomes"])
            transitions += r["transitions"]
            traces += r["traces"]
            for k, v in r["maxerr"].items():
                maxerr[k] = max(maxerr.get(k, 0.0), v)
            failures += [(m, r["job"], fl) for fl in r["failures"]]
        for r in (rows[0], rows[len(rows) // 2], rows[-1]) if rows else ():
            for s in r["samples"][:1]:
                if len(samples) < 6:
                    samples.append({"mode": m, "job": r["job"], "case": s})

    # conformance: jobs run in both modes must observe the same numbers
    compared = 0
    if len(results) > 1:
        base = {json.dumps(r["job"], sort_keys=True): r for r in results["py"]}
        for r in results.get("jit", []):
            b = base.get(json.dumps(r["job"], sort_keys=True))
            if b is None or r["failures"] or b["failures"]:
                continue
            compared += 1
            tol = getattr(module, "CONF_TOL", 1e-6)
            for x, y in zip(r["obs"], b["obs"]):
                x, y = np.array(x), np.array(y)
                if x.shape != y.shape or (
                    x.size and np.max(np.abs(x - y)) > tol * max(1.0, np.max(np.abs(y)))
                ):
                    failures.append(
                        ("jit", r["job"], {"key": None, "msg": "compiled and interpreted runs differ", "detail": {}})
                    )
                    break

    hit, new = {}, []
    for m, job, fl in failures:
        if fl["key"] is not None and fl["key"] in known:
            hit.setdefault(fl["key"], fl)
        else:
            new.append((m, job, fl))

    for k in sorted(hit):
        print(f"KNOWN-FINDING: property={prop} {known[k]} [{k}]")

    evidence_dir = os.path.join(ROOT, "evidence")
    os.makedirs(evidence_dir, exist_ok=True)
    for i, (m, job, fl) in enumerate(new[:3]):
        path = os.path.join(evidence_dir, f"replay_{prop}_{i}.json")
        with open(path, "w") as f:
            json.dump(
                {
                    "property": prop,
                    "mode": m,
                    "job": job,
                    "failure": fl,
                    "how": f"./run.sh {prop} --replay {path}",
                },
                f,
                indent=1,
            )
        print(f"VIOLATION property={prop} replay={path}")
        print("  ", json.dumps(job)[:300])
        print("  ", fl["msg"][:600])
        if fl["detail"].get("trace"):
            print("\n".join("     " + x for x in fl["detail"]["trace"]))
    if len(new) > 3:
        print(f"   ... {len(new)} failures in all")

    if not replay:
        cov = {
            "states": len(states),
            "transitions": transitions,
            "traces_validated_against_impl": traces,
            "samples": samples,
            "exhaustive": complete,
            "distinct_outcomes": len(outcomes),
            "modes": per_mode,
            "compiled_vs_interpreted_jobs_compared": compared,
            "bounds": module.bounds(args.tier),
            "largest_errors": {k: float(f"{v:.3g}") for k, v in sorted(maxerr.items())},
            "known_findings_hit": sorted(hit),
        }
        ev = {
            "property": prop,
            "tier": args.tier,
            "seed": int(os.environ.get("VERIF_SEED", "0") or 0),
            "level": getattr(module, "LEVEL", "model_checking"),
            "coverage": cov,
            "assumptions": getattr(module, "ASSUMPTIONS", []),
            "wall_s": round(time.time() - t0, 2),
            "violations": len(new),
        }
        with open(os.path.join(evidence_dir, f"{prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        print(
            f"{prop} {args.tier}: states={len(states)} transitions={transitions} traces={traces} "
            f"outcomes={len(outcomes)} modes={per_mode} compared={compared} "
            f"known={len(hit)} violations={len(new)} wall={time.time() - t0:.1f}s"
        )
    if not new and not complete:
        sys.stderr.write("the exploration was not completed\n")
        sys.exit(2)
    sys.exit(1 if new else 0)


if __name__ == "__main__":
    main()
