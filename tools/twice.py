"""./run.sh tools/twice.py [n] [C01 ..]: the first n cases of every check twice, with another hash seed and the machine
under load the second time; the complete event logs must be equal."""
import concurrent.futures as cf
import importlib
import json
import os
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def one(prop, n):
    from dst import engine, faults, job

    mod = importlib.import_module("dst.props." + prop.lower())
    if getattr(mod, "SHIM", False):
        faults.ensure_preloaded()
    job.preload(getattr(mod, "PACKAGES", 6))
    if hasattr(mod, "prepare"):
        mod.prepare()
    pool, out = engine.Pool(mod), {}
    for i in range(n):
        pool.start(engine.make_case(mod, 1, prop, i, "quick"), tag=i)
        while len(pool.jobs) >= pool.n:
            out.update(pool.wait())
    while pool.jobs:
        out.update(pool.wait())
    pool.close()
    print(json.dumps([[out[i]["log"], len(out[i]["decisions"]), out[i]["steps"], repr(out[i]["violation"]), repr(out[i]["harness"])] for i in range(n)]), flush=True)
    os._exit(0)


def spawn(prop, n, seed, workers):
    r = subprocess.run(["./run.sh", "tools/twice.py", "--one", prop, str(n)], capture_output=True, text=True,
                       env=dict(os.environ, PYTHONHASHSEED=seed, DST_WORKERS=workers))
    try:
        return json.loads(r.stdout.splitlines()[-1])
    except Exception:
        return r.stderr[-1000:]


if __name__ == "__main__":
    if sys.argv[1:2] == ["--one"]:
        one(sys.argv[2], int(sys.argv[3]))
    n = int((sys.argv[1:] or ["24"])[0])
    props = sys.argv[2:] or sorted(f[:-3].upper() for f in os.listdir("dst/props") if f.startswith("c") and f.endswith(".py"))
    bad = 0
    for p in props:
        with cf.ThreadPoolExecutor() as ex:
            a, b = (f.result() for f in [ex.submit(spawn, p, n, *x) for x in (("0", "3"), ("12345", "16"))])
        differ = [i for i in range(n) if a[i] != b[i]] if isinstance(a, list) and isinstance(b, list) else [a, b]
        bad += bool(differ)
        print(p, n, "cases twice,", f"differ: {differ}" if differ else "none differs", flush=True)
    sys.exit(bad > 0)
