"""C04: parallel meshing neither loses nor invents vertices."""
import numpy as np
from scipy.spatial import cKDTree

from .. import engine, job, meshcheck, work
from . import c01

CASES = dict(quick=900, thorough=20000)
RULE = ("random user point set in a domain that removes nothing, 2..6 ranks, any axis, 1..8 iterations with and without forces, random schedule; "
        "the gathered vertices are counted (and compared bit for bit when nothing moves); in every sixth case the ranks create the initial points, "
        "whose rows must neither coincide nor leave a gap; non-trivial: ghosts were exchanged in at least two iterations")
REAL, STUB = c01.REAL, c01.STUB
ASSUMPTIONS = c01.ASSUMPTIONS + ["2D: cells of poor quality on the hull are removed after gathering by design, so 2D point sets here have well-shaped hulls"]


def gen_init(rng):
    n = rng.choice((2, 3, 3, 4, 5, 6))
    dim = rng.choice((2, 2, 3))
    axis = rng.randrange(dim)
    h = rng.choice((0.125, 0.1, 0.07, 0.13))
    slab = rng.choice((4.0, 5.0, rng.uniform(3.5, 6.0), rng.uniform(3.5, 6.0)))  # in edge lengths; whole ones put rows on the cuts
    s = [rng.uniform(3.5, 5.0) * h if dim == 3 else rng.uniform(6.0, 10.0) * h for _ in range(dim)]
    s[axis] = n * slab * h
    o = [rng.choice((0.0, 0.0, -0.37, 2.0)) for _ in range(dim)]
    w = dict(dim=dim, domain=dict(kind="everywhere", bbox=[v for k in range(dim) for v in (o[k], o[k] + s[k])]), size=dict(kind="scalar", h=h),
             opts=dict(axis=axis, max_iter=rng.choice((1, 2, 3)), verbose=0, mesh_improvement=False, delta_t=0.0, h0=h))
    return dict(n=n, w=w, sched=job.gen_sched(rng), init=True)


def execute_init(run):
    c = run.case
    w, n = c["w"], c["n"]
    o, h, b = w["opts"], w["size"]["h"], np.array(w["domain"]["bbox"]).reshape(-1, 2)
    first = {}

    def one(sm, comm):
        me = comm.Get_rank()

        def fd(p):
            first.setdefault(me, np.array(p, float))
            return -np.ones(len(p))
        return sm.generate_mesh(fd, h, comm=comm, bbox=tuple(float(v) for v in w["domain"]["bbox"]), **o)

    j = job.job(run, n, one, c["sched"], c["seed"])
    job.must_finish(j)
    p, t = j.ranks[0].result
    p0 = np.concatenate([first[r] for r in range(n)])
    run.nontrivial = o["max_iter"] > 1
    run.event("res", engine.digest(p0.tobytes(), p.tobytes(), t.tobytes()))
    run.note = dict(points=len(p0), got=len(p))
    near = cKDTree(p0).query(p0, k=2)[0][:, 1].min() / h
    run.check(near > 0.7, "initial-points-overlap", lambda: f"two initial points lie {near:.3g} edge lengths apart")
    x = np.sort(p0[:, o["axis"]])
    gap = max(np.diff(x).max(), x[0] - b[o["axis"], 0], b[o["axis"], 1] - x[-1]) / h
    run.check(gap < 1.3, "initial-points-gap", lambda: f"no initial points in a strip {gap:.3g} edge lengths wide")
    if w["dim"] == 3:
        run.check(len(p) == len(p0), "vertex-count", lambda: f"{len(p0)} initial vertices, {len(p)} in the mesh")
    else:
        run.check(len(p) <= len(p0), "vertex-count", lambda: f"{len(p0)} initial vertices, {len(p)} in the mesh")
    extra = meshcheck.pointset(p) - meshcheck.pointset(p0)
    run.check(not extra, "moved", lambda: f"{len(extra)} vertices are not where an initial one was although nothing moves")
    run.probe("initial points by the ranks", True)


def generate(rng, i, tier):
    if i % 6 == 5:
        return gen_init(rng)
    n = rng.choice((2, 2, 3, 4, 5, 6))
    dim = rng.choice((2, 3, 3))
    move = rng.random() < 0.6
    kind = rng.choice(("uniform", "cluster", "graded", "jitter", "grid", "stagger")) if dim == 3 else rng.choice(("grid", "jitter", "stagger"))
    if move and kind == "grid":
        kind = "jitter"
    axis = rng.randrange(dim)
    pts = dict(kind=kind, n=rng.randrange(60 * n, 130 * n) if dim == 2 else rng.randrange(45 * n, 90 * n),
               seed=rng.randrange(1 << 30), lo=[0.0] * dim, hi=[1.0] * dim)
    pts["hi"][axis] = rng.choice((1.0, 1.0, 2.0, 4.0))
    h = 1.0 / 12
    w = dict(dim=dim, domain=dict(kind="everywhere", bbox=[v for k in range(dim) for v in (-1.0, 1.0 + pts["hi"][k])]),
             size=dict(kind="radial", h=h, g=0.1, ratio=1.5, c=[0.5] * dim, r0=0.2) if rng.random() < 0.4 else dict(kind="scalar", h=h),
             opts=dict(axis=axis, max_iter=rng.choice((1, 2, 3, 4, 6, 8)), verbose=0, mesh_improvement=False,
                       delta_t=rng.choice((0.05, 0.1, 0.2)) if move else 0.0), points=pts)
    return dict(n=n, w=w, sched=job.gen_sched(rng), move=move)


def execute(run):
    c = run.case
    if c.get("init"):
        return execute_init(run)
    p0 = work.build_points(c["w"]["points"])
    w = job.job(run, c["n"], lambda sm, comm: work.mesh(sm, comm, c["w"]), c["sched"], c["seed"])
    job.must_finish(w)
    p, t = w.ranks[0].result
    run.nontrivial = c["w"]["opts"]["max_iter"] > 1
    run.event("res", engine.digest(p.tobytes(), t.tobytes()))
    want = len(np.unique(p0, axis=0))
    run.note = dict(points=want, got=len(p), cells=len(t))
    exact = c["w"]["dim"] == 3
    if exact:
        run.check(len(p) == want, "vertex-count", lambda: f"{want} initial vertices, {len(p)} in the mesh")
    else:
        # low-quality hull cells may be dropped in 2D, with their outer vertex
        run.check(want - max(4, want // 25) <= len(p) <= want, "vertex-count", lambda: f"{want} initial vertices, {len(p)} in the mesh")
    run.check(len(np.unique(p, axis=0)) == len(p), "duplicate-vertices", "the mesh has coincident vertices")
    if not c["move"]:
        extra = meshcheck.pointset(p) - meshcheck.pointset(p0)
        run.check(not extra, "moved", lambda: f"{len(extra)} vertices are not where an initial one was although nothing moves")
    run.probe("moving", c["move"])


def shrinks(c):
    if c["n"] > 2 and not c.get("init"):
        yield dict(c, n=2)
        yield dict(c, n=c["n"] - 1)
    for w in work.shrink_mesh(c["w"]) if not c.get("init") else ():
        if "delta_t" in w["opts"] and "mesh_improvement" in w["opts"]:
            yield dict(c, w=w)
