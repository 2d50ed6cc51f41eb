"""C17: running out of memory is reported, never turned into a wrong mesh."""
import os
import warnings

import numpy as np

from .. import engine, env, faults, job, work
from . import c01, c02

SHIM = True
PACKAGES = 3
CASES = dict(quick=400, thorough=8000)
RULE = ("one public call (2D or 3D mesh in serial or of two or three ranks, sliver removal, sizing function with gradation) in which one allocation made by the compiled extensions, or one larger "
        "array allocation made by numpy, fails (alone or with those after it), chosen among the places in the code that allocate or among all allocations, in a forked process; then the same call again without faults; "
        "non-trivial: an allocation was refused")
REAL = ["SeismicMesh Python package", "C++ extensions with CGAL", "numpy"]
STUB = ["operator new of the extensions (preloaded shim) and the allocator of numpy arrays (PyDataMem_SetHandler), which refuse some requests"]
ASSUMPTIONS = ["GMP, which ends the process when it cannot allocate, is not starved", "requests of the interpreter itself are not refused"]


def generate(rng, i, tier):
    k = rng.choice(("mesh2", "mesh2", "mesh3", "sliver", "segy", "segy", "sizing", "sizing", "parallel", "parallel"))
    if k in ("mesh2", "mesh3"):
        o = dict(op="mesh", w=work.gen_mesh(rng, 1, dim=2 if k == "mesh2" else 3, iters=(1, 2, 3)))
    elif k == "parallel":
        n = rng.choice((2, 2, 3))
        o = dict(op="parallel", n=n, w=work.gen_mesh(rng, n, dim=rng.choice((2, 2, 3)), iters=(1, 2)))
    elif k == "sizing":
        o = dict(op="sizing", w=c01.segy_workload(rng, 1))
        o["w"]["size"]["kw"]["grade"] = rng.choice((0.05, 0.1, 0.3))
    elif k == "segy":
        o = dict(op="mesh", w=c01.segy_workload(rng, 1))
        o["w"]["size"]["kw"]["grade"] = rng.choice((0.1, 0.3))
    else:
        o = dict(op="sliver", h=0.3, n=rng.randrange(60, 110), seed=rng.randrange(1 << 20), it=rng.choice((2, 3)))
    return dict(o=o, plans=[dict(who=rng.choice(("ext", "ext", "numpy")), frac=rng.random() ** rng.choice((1, 1, 4)), length=rng.choice((1, 1, 1, 3, 1 << 30)),
                                 by=rng.choice(("site", "site", "number")), site=rng.random(), least=4096 if k == "parallel" else rng.choice((1024, 4096))) for _ in range(rng.randrange(4, 9))])


def ranges(who):
    if who == "ext":
        return EXT
    return None


EXT = []


class Quiet:
    replay = None
    sim_time = steps = 0

    def event(self, *a):
        pass


class Gone(Exception):
    """A rank of the parallel call failed; rank 0 has no result."""


def call(sm, c):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        o = c["o"]
        if o["op"] == "parallel":
            w = job.job(Quiet(), o["n"], lambda sm, comm: work.mesh(sm, comm, o["w"]), record=False)
            if w.ranks[0].state != "done":
                raise Gone([job.describe(r.error) for r in w.ranks if r.error])
            r = w.ranks[0].result
        elif o["op"] == "sizing":
            f = work.build_size(sm, o["w"]["size"], o["w"]["size"]["bbox"])
            b = np.array(f.bbox).reshape(-1, 2)
            r = [f.eval(tuple(np.meshgrid(*[np.linspace(lo, hi, 19) for lo, hi in b], indexing="ij"))), b, np.array(f.hmin)]
        else:
            r = c02.call(sm, None, o)
    return engine.digest(*(a.tobytes() for a in r))


def execute(run):
    c, sm = run.case, job.module()
    faults.own_numpy()
    if not EXT:
        EXT[:] = faults.extension_ranges([m.__file__ for m in _extension_modules()])
    want = call(sm, c)
    count, sites = {}, {}
    for who, least in {(p["who"], p["least"] if p["who"] == "numpy" else 0) for p in c["plans"]}:
        rs = ranges(who)
        if rs == []:
            raise env.HarnessError(f"no address range for {who}")
        r, died = faults.fork(lambda: _counted(sm, c, rs, least))
        run.check(r is not None, "crash", lambda: f"the call with nothing refused: {died}")
        count[who, least] = r[0]
        sites[who, least] = r[2]
        run.check(r[1] == want, "different-result", "two calls with the same arguments")
    run.event("clean", sorted(count.items()), want)
    for p in c["plans"]:
        least = p["least"] if p["who"] == "numpy" else 0
        n = count[p["who"], least]
        if not n:
            run.probe("no_allocation_" + p["who"])
            continue
        nth = 1 + int(p["frac"] * n)
        if p["by"] == "site":
            s = sites[p["who"], least]
            s = s[int(p["site"] * len(s))]
            nth = s[int(p["frac"] * len(s))]
            run.probe("by_site")
        rs = ranges(p["who"])
        r, died = faults.fork(lambda: attempt(sm, c, rs, nth, p["length"], least))
        what = f"{c['o']['op']} with allocation {nth} of {n} ({p['who']}, {p['length']} in a row) refused"
        run.event("plan", p["who"], nth, r, died)
        run.steps += 1
        run.check(r is not None, "crash", lambda: f"{what}: the process died: {died}")
        got, err, fired, again, err2 = r
        if fired:
            run.nontrivial = True
            run.fault("allocation_refused_" + p["who"], min(fired, p["length"]))
        if err is None:
            run.probe("succeeded_anyway", int(fired > 0))
            run.check(got == want, "wrong-mesh", lambda: f"{what}: returned another mesh")
        else:
            run.probe("raised_" + err.split(":")[0])
            run.check(fired > 0, "raised-without-cause", lambda: f"{what}: {err}")
        run.check(again == "-" or err2 is None and again == want, "wrong-afterwards", lambda: f"{what}, then the call again: {err2 or 'another mesh'}")


def _extension_modules():
    import sys

    return [m for m in list(sys.modules.values()) if getattr(m, "__file__", None) and os.path.dirname(m.__file__) == os.path.dirname(_ext_dir())]


def _ext_dir():
    return os.path.join(env.setup_import(), "x")


def _counted(sm, c, rs, least):
    with faults.Alloc(rs, -1, 1, least) as a:
        got = call(sm, c)
    return a.count, got, a.sites()


def attempt(sm, c, rs, nth, length, least):
    got = err = err2 = None
    again = "-"
    with faults.Alloc(rs, nth, min(length, 1 << 30), least) as a:
        try:
            got = call(sm, c)
        except Exception as e:
            err = type(e).__name__
    if err and rs and (c["o"]["op"] == "sliver" or c["o"]["op"] != "sizing" and c["o"]["w"]["dim"] == 3):
        # CGAL keeps the hole of a 3D insertion in a thread-local table that it
        # does not clear when an exception passes through
        return got, err, a.fired, again, None
    try:
        again = call(sm, c)
    except Exception as e:
        err2 = job.describe(e)
    return got, err, a.fired, again, err2


def shrinks(c):
    if len(c["plans"]) > 1:
        for i in range(len(c["plans"])):
            yield dict(c, plans=[c["plans"][i]])
    if c["o"]["op"] in ("mesh", "parallel"):
        for w in work.shrink_mesh(c["o"]["w"]):
            yield dict(c, o=dict(c["o"], w=w))

