"""seed.py make ID...   build /verif/seeded/ID from its definition and confirm it in a scratch copy of /repo
   seed.py catch ID [PROP...]   run the checks (default: all) against a seeded bug, in a private mount of /repo

Development tool; no check uses it. Definitions: tools/seeds/defs_*.py (lists BUGS of dicts)."""
import glob
import importlib.util
import json
import os
import pathlib
import shutil
import subprocess
import sys
import textwrap

ROOT = pathlib.Path(__file__).resolve().parent
VERIF = ROOT.parent
SEEDED = VERIF / "seeded"


def definitions():
    bugs = {}
    for path in sorted(glob.glob(str(ROOT / "seeds" / "defs_*.py"))):
        spec = importlib.util.spec_from_file_location("defs", path)
        module = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(module)
        for bug in module.BUGS:
            assert bug["id"] not in bugs, bug["id"]
            bugs[bug["id"]] = bug
    return bugs


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, **kw)


def make(bug, tests=True):
    out = SEEDED / bug["id"]
    work = pathlib.Path("/tmp/seedwork") / bug["id"]
    shutil.rmtree(work, ignore_errors=True)
    work.mkdir(parents=True)
    repo = work / "repo"
    sh(["cp", "-a", "/repo", str(repo)])
    for file, old, new, *nth in bug["edits"]:
        path = repo / file
        parts = path.read_text().split(old)
        n = nth[0] if nth else 0
        assert len(parts) == 2 or nth and len(parts) > n + 1, (bug["id"], file, len(parts) - 1, old)
        path.write_text(old.join(parts[: n + 1]) + new + old.join(parts[n + 1 :]))
    out.mkdir(parents=True, exist_ok=True)
    (out / "patch.diff").write_text(sh(["git", "-C", str(repo), "diff"]).stdout)
    shutil.copy(ROOT / "seeds" / "lib.py", out / "lib.py")
    (out / "demo.py").write_text(
        "import os\nimport sys\n\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\n"
        "import numpy as np\nimport lib\n\n" + textwrap.dedent(bug["demo"]).strip() + "\n"
    )
    nojit = "" if bug.get("jit") else "export NUMBA_DISABLE_JIT=1\n"
    (out / "demo.sh").write_text(
        '#!/bin/bash\n# cwd: the repository. 0: the property holds, 1: it is broken.\n'
        'here=$(cd "$(dirname "$0")" && pwd)\n'
        'export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 NUMBA_NUM_THREADS=1\n'
        'export NUMBA_DISABLE_CUDA=1 MPLBACKEND=Agg\n' + nojit +
        'scratch=$(mktemp -d) || exit 2\ntrap \'rm -rf "$scratch"\' EXIT\n'
        'export MPLCONFIGDIR="$scratch" TMPDIR="$scratch"\n'
        '/opt/venv/bin/python -W ignore "$here/demo.py"\nexit $?\n'
    )
    os.chmod(out / "demo.sh", 0o755)
    (out / "meta.json").write_text(
        json.dumps({k: bug[k] for k in ("property", "needs", "what_it_breaks")}, indent=1) + "\n"
    )
    clean = sh(["bash", str(out / "demo.sh")], cwd="/repo")
    broken = sh(["bash", str(out / "demo.sh")], cwd=str(repo))
    result = {"clean": clean.returncode, "broken": broken.returncode}
    if clean.returncode != 0 or broken.returncode == 0:
        print(bug["id"], "DEMO", result, "\n--clean", clean.stdout[-600:], clean.stderr[-1500:],
              "\n--broken", broken.stdout[-600:], broken.stderr[-1500:])
    else:
        print(bug["id"], "demo ok:", (broken.stdout + broken.stderr[-300:]).strip()[-200:])
    if tests and clean.returncode == 0 and broken.returncode != 0:
        script = (
            f"mount --bind {repo} /repo && mkdir -p {work}/rep && mount --bind {work}/rep /opt/vp/reports && "
            f"bash /opt/vp/build.sh && bash /opt/vp/test.sh {work}/out.json"
        )
        os.makedirs("/opt/vp/reports", exist_ok=True)
        # test.sh removes the reports folder; inside the private mount that only empties it
        t = sh(["unshare", "-m", "bash", "-c", script])
        base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        try:
            got = json.load(open(work / "out.json"))
            passed = set(got.get("passed", got.get("pass", [])))
            failed = [x for x in base if x not in passed]
        except OSError:
            failed = ["no output", t.stdout[-500:], t.stderr[-500:]]
        result["failed"] = failed
        print(bug["id"], "tests:", "PASS" if not failed else failed[:6], len(failed))
    (work / "result.json").write_text(json.dumps(result))
    shutil.rmtree(repo)
    return result


def catch(ident, props):
    work = pathlib.Path("/tmp/seedcatch") / ident
    shutil.rmtree(work, ignore_errors=True)
    work.mkdir(parents=True)
    sh(["cp", "-a", "/repo", str(work / "repo")])
    r = sh(["git", "-C", str(work / "repo"), "apply", str(SEEDED / ident / "patch.diff")])
    assert r.returncode == 0, r.stderr
    os.makedirs(work / "verif")
    for name in ("mc", "run.sh", "known-findings.txt", "tools"):
        sh(["cp", "-a", str(VERIF / name), str(work / "verif" / name)])
    script = f"mount --bind {work}/repo /repo && cd {work}/verif && " + (
        "for p in " + " ".join(props) + "; do "
        "timeout 900 bash run.sh $p --tier ${TIER:-quick} > out.$p 2>&1; rc=$?; echo \"$p rc=$rc $(grep -m1 VIOLATION out.$p | cut -c1-200)\"; done"
    )
    r = sh(["unshare", "-m", "bash", "-c", script], env={**os.environ, "VERIF_SEED": "1", "VERIF_TIER": "quick"})
    print(ident, "::", " | ".join(l for l in r.stdout.splitlines() if "rc=0" not in l) or "MISSED " + r.stderr[-300:], flush=True)
    shutil.rmtree(work / "repo")
    return r.stdout


if __name__ == "__main__":
    bugs = definitions()
    if sys.argv[1] == "make":
        for ident in sys.argv[2:]:
            make(bugs[ident], tests=not os.environ.get("NOTESTS"))
    elif sys.argv[1] == "catch":
        ident = sys.argv[2]
        own = json.load(open(SEEDED / ident / "meta.json"))["property"]
        props = sys.argv[3:] or [own]
        if props == ["all"]:
            props = ["C%02d" % i for i in range(1, 60) if (VERIF / "mc/checks" / ("c%02d.py" % i)).exists()]
        catch(ident, props)
