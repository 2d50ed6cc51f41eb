"""C05: the parallel triangulation is the serial Delaunay triangulation."""
import numpy as np
from scipy.spatial import Delaunay

from .. import engine, job, meshcheck, work
from . import c01

CASES = dict(quick=2400, thorough=60000)
RULE = ("random point set (uniform, clustered, graded, jittered, all of a rank on a line), 2D/3D, 2..6 ranks, any axis, held in place for 1..3 iterations under a random schedule, "
        "at several scales and origins, against the serial call and, for generic point sets in 3D, scipy's Delaunay triangulation; three or more ranks only when no Delaunay edge joins "
        "blocks that are not neighbours; non-trivial: the case was compared and cells span two blocks")
REAL, STUB = c01.REAL, c01.STUB
ASSUMPTIONS = c01.ASSUMPTIONS + ["ranks exchange with their two neighbours only (documented), hence the adjacency condition",
                                 "cells of poor quality on a 2D hull are removed after gathering, in serial and parallel alike"]


def generate(rng, i, tier):
    n = rng.choice((2, 2, 2, 3, 3, 4, 5, 6))
    dim = rng.choice((2, 2, 3))
    kinds = ("uniform", "cluster", "graded", "jitter") if n == 2 else ("jitter", "jitter", "uniform", "graded")
    kind = rng.choice(kinds)
    if n == 2 and rng.random() < 0.1:
        kind = "row"
    axis = rng.randrange(dim)
    pts = dict(kind=kind, n=rng.randrange(30 * n, 160 * n) if dim == 2 else rng.randrange(30 * n, 110 * n),
               seed=rng.randrange(1 << 30), lo=[0.0] * dim, hi=[1.0] * dim, ax=axis)
    pts["hi"][axis] = rng.choice((1.0, 1.0, 2.0, 6.0)) if n > 2 else rng.choice((0.3, 1.0, 3.0))
    # elsewhere and on another scale
    s, off = rng.choice((1.0, 1.0, 1e-4, 1e4)), rng.choice((0.0, 0.0, 5.0, -300.0))
    pts["lo"], pts["hi"] = [(v + off) * s for v in pts["lo"]], [(v + off) * s for v in pts["hi"]]
    w = dict(dim=dim, domain=dict(kind="everywhere", bbox=[v for k in range(dim) for v in (pts["lo"][k] - s, pts["hi"][k] + s)]),
             size=dict(kind="scalar", h=0.1 * s) if rng.random() < 0.7 else dict(kind="radial", h=0.1 * s, g=0.1, ratio=1.5, c=[(0.5 + off) * s] * dim, r0=0.2 * s),
             opts=dict(axis=axis, max_iter=rng.choice((1, 1, 2, 3)), verbose=0, mesh_improvement=False, delta_t=0.0), points=pts)
    if n == 2 and dim == 3 and rng.random() < 0.4:    # let them move; then the triangulation is that of where they end up
        w["opts"].update(delta_t=rng.choice((0.05, 0.2)), max_iter=rng.choice((2, 3, 4)))
    return dict(n=n, w=w, sched=job.gen_sched(rng))


def blocks_of(x, n):
    cuts = np.linspace(x.min(), x.max(), n + 1)
    return np.searchsorted(cuts[1:-1], x, side="right")


def adjacency(p, axis, n):
    """(all blocks populated, edges stay within neighbouring blocks, cells across a cut, tri)"""
    tri = Delaunay(p).simplices
    b = blocks_of(p[:, axis], n)
    bt = b[tri]
    width = bt.max(axis=1) - bt.min(axis=1)
    counts = np.bincount(b, minlength=n)
    return counts.min() > 3, width.max() <= 1, int((width == 1).sum()), tri


def execute(run):
    c = run.case
    n, o = c["n"], c["w"]["opts"]
    p0 = work.build_points(c["w"]["points"])
    populated, near, across, tri = adjacency(p0, o["axis"], n)
    run.probe("adjacency_holds", near)
    if not populated or (n > 2 and not near):
        run.probe("skipped_precondition")
        return
    run.nontrivial = across > 0
    sm = job.module()
    moving = o["delta_t"] > 0
    w = job.job(run, n, lambda sm, comm: work.mesh(sm, comm, c["w"]), c["sched"], c["seed"])
    job.must_finish(w)
    p, t = w.ranks[0].result
    if moving:
        run.check(len(p) == len(p0), "vertices", lambda: f"{len(p0)} vertices became {len(p)}")
        held = dict(c["w"], opts=dict(o, delta_t=0.0, max_iter=1))
        ps, ts = work.mesh(sm, _self(), held, points=p)
        run.probe("moving")
    else:
        ps, ts = work.mesh(sm, _self(), c["w"])
    run.event("res", engine.digest(p.tobytes(), t.tobytes()))
    a, b = meshcheck.cellset(ps, ts), meshcheck.cellset(p, t)
    run.note = dict(points=len(p0), cells=len(a), across_cuts=across)
    run.check(len(t) == len(b), "duplicate-cells", lambda: f"{len(t)} cells, {len(b)} distinct")
    run.check(a == b, "not-serial-delaunay", lambda: f"{len(a - b)} cells missing, {len(b - a)} surplus of {len(a)}")
    if c["w"]["dim"] == 3 and not moving:
        ref = meshcheck.cellset(p0, tri)
        # nearly flat hull cells are where implementations may differ
        run.check(len(ref ^ b) <= 0.02 * len(ref) + 4, "not-delaunay", lambda: f"{len(ref - b)} cells missing, {len(b - ref)} surplus of {len(ref)} against scipy")


def _self():
    from mpi4py import MPI

    return MPI.COMM_SELF


def shrinks(c):
    if c["n"] > 2:
        yield dict(c, n=2)
        yield dict(c, n=c["n"] - 1)
    for w in work.shrink_mesh(c["w"]):
        if "delta_t" in w["opts"] and "mesh_improvement" in w["opts"]:
            yield dict(c, w=w)
