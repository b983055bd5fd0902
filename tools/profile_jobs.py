"""profile_jobs.py ID [TIER]: wall time per job of one check, grouped (development aid)."""
import collections, importlib, json, os, sys
os.environ["NUMBA_DISABLE_JIT"] = "1"
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import core
import multiprocessing as mp
mod = importlib.import_module("mc.checks." + sys.argv[1].lower())
tier = sys.argv[2] if len(sys.argv) > 2 else "quick"
def f(j): return core.run_job(mod, j, 900)
jobs = list(mod.jobs(tier, "py"))
rows = []
with mp.get_context("fork").Pool(8) as p:
    rows = list(p.imap_unordered(f, jobs, chunksize=1))
print(len(rows), "total", sum(r["wall"] for r in rows), "fails", sum(len(r["failures"]) for r in rows))
for keys in (("kind",), ("method",), ("mesh",), ("kind", "method"), ("mesh", "method")):
    g = collections.Counter(); n = collections.Counter()
    for r in rows:
        k = tuple(str(r["job"].get(x)) for x in keys); g[k] += r["wall"]; n[k] += r["traces"]
    print(keys, [(k, round(v, 1), n[k]) for k, v in g.most_common(14)])
for r in sorted(rows, key=lambda r: -r["wall"])[:8]: print(round(r["wall"], 1), r["job"])
for r in rows:
    for fl in r["failures"][:1]: print("FAIL", r["job"], fl["msg"][:200], json.dumps(fl["detail"])[:300])
m = {}
for r in rows:
    for k, v in r["maxerr"].items(): m[k] = max(m.get(k, 0), v)
for k, v in sorted(m.items()): print(f"{v:.2g}", k)
