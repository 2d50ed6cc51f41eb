"""C06: user-defined points are distributed to exactly one rank each."""
import collections

import numpy as np

from .. import engine, job, meshcheck, work
from . import c01, c07

CASES = dict(quick=2500, thorough=60000)
RULE = ("random point set (uniform, clustered, exactly a power of two or ten in a slice, slices with one point or two, graded, gridded with many points on the cuts, skewed densities; held row by row, by columns, strided, as a view, read-only, in single precision, as integers) of 2D/3D, 1..6 ranks, any axis, decomposed on rank 0 "
        "and distributed under a random schedule; one case in six goes through generate_mesh instead; non-trivial: several ranks received points")
REAL, STUB, ASSUMPTIONS = c01.REAL, c01.STUB, c01.ASSUMPTIONS


def generate(rng, i, tier):
    n = rng.choice((2, 2, 3, 4, 5, 6)) if rng.random() < 0.97 else rng.choice((7, 9, 12))
    dim = rng.choice((2, 3))
    axis = rng.randrange(dim)
    kind = rng.choice(("uniform", "cluster", "graded", "jitter", "grid", "stagger"))
    pts = dict(kind=kind, n=rng.randrange(8 * n, 60 * n), seed=rng.randrange(1 << 30), ax=axis,
               lo=[rng.choice((0.0, -1.0, 1000.0)) for _ in range(dim)])
    pts["hi"] = [v + rng.choice((1.0, 0.5, 3.0, 1e-3, 1e4)) for v in pts["lo"]]
    whole = rng.random() < 1 / 6
    if whole:
        pts["lo"], pts["hi"] = [0.0] * dim, [1.0 if k != axis else 2.0 for k in range(dim)]
        if dim == 2 or n > 2:
            pts["kind"] = "jitter"
        pts["n"] = 60 * n
        if not work.enough(work.build_points(pts)[:, axis], n):   # too few rows for so many ranks
            n, dim, axis = 2, 2, axis % 2
            pts.update(kind="jitter", n=120, lo=pts["lo"][:2], hi=pts["hi"][:2], ax=axis)
    exact = [max(8, c07.round_number(rng, 0.003)) for _ in range(n)] if rng.random() < 0.1 and not whole else None
    if rng.random() < 0.06 and not whole:     # slices with a single point or two
        exact = [rng.choice((1, 1, 2, 9, 30)) for _ in range(n)]
        exact[rng.randrange(n)] += 2 * n
    return dict(n=n, dim=dim, axis=axis, pts=pts, whole=whole, exact=exact, sched=job.gen_sched(rng),
                dup=rng.random() < 0.2 and not whole, extra=rng.randrange(3), layout=rng.choice((None, None) + work.LAYOUTS + ("single", "integer")))


def exactly(c):
    """So many points in each of n slices of equal width."""
    rs = np.random.RandomState(c["pts"]["seed"])
    p = rs.rand(sum(c["exact"]), c["dim"])
    x = np.concatenate([k + 0.01 + 0.98 * rs.rand(m) for k, m in enumerate(c["exact"])])
    x[0], x[-1] = 0.0, c["n"]
    p[:, c["axis"]] = x
    return np.ascontiguousarray(p[rs.permutation(len(p))])


def points(c):
    p = exactly(c) if c.get("exact") else work.build_points(c["pts"])
    if c["dup"]:   # coincident points are the user's business, but none may get lost
        p = np.vstack([p, p[:7]])
    if c["layout"] == "single":
        p = p.astype(np.float32)
    elif c["layout"] == "integer" and not c["whole"]:
        p = np.rint(1000 * p).astype(np.int64)
    return work.laid_out(p, c["layout"])


def execute(run):
    c = run.case
    p, n, axis, dim = points(c), c["n"], c["axis"], c["dim"]
    run.probe("layout_" + str(c["layout"]))
    if c["whole"]:
        return whole(run, p)
    before = p.tobytes()

    def fn(sm, comm):
        blocks = extents = error = None
        if comm.Get_rank() == 0:
            try:
                blocks, extents = sm.decomp.blocker(points=p, rank=0, num_blocks=n, axis=axis)
            except (ValueError, AssertionError) as e:
                error = e
        if comm.bcast(error is not None, 0):
            return error
        return sm.migration.localize_points(blocks, extents, comm, dim)

    w = job.job(run, n, fn, c["sched"], c["seed"])
    job.must_finish(w)
    job.no_leftover(w)
    run.check(p.tobytes() == before, "not-a-partition", "the user's own array of points was altered")
    first = w.ranks[0].result
    if isinstance(first, Exception):
        # refusing is right only if some slice of equal width is empty (or there are hardly any points)
        # (a point on a cut may go either way)
        cuts = np.linspace(p[:, axis].min(), p[:, axis].max(), n + 1)
        tol = 1e-9 * max(abs(cuts).max(), cuts[-1] - cuts[0])
        x = p[:, axis]
        counts = np.array([((x > cuts[k] + tol) & (x < cuts[k + 1] - tol)).sum() for k in range(n)])
        run.probe("refused")
        run.check(counts.min() == 0 or len(p) // n <= 1, "refused", lambda: f"{first!r}, points strictly inside the slices {counts.tolist()}")
        return
    run.nontrivial = True
    got = [np.asarray(r.result[0]) for r in w.ranks]
    ext = [r.result[1] for r in w.ranks]
    run.note = dict(points=len(p), per_rank=[len(g) for g in got])
    run.event("res", [engine.digest(np.ascontiguousarray(g).tobytes()) for g in got])
    for r, g in enumerate(got):
        run.check(g.ndim == 2 and g.shape[1] == dim and len(g) > 0, "bad-block", lambda: f"rank {r} holds an array of shape {g.shape}")
    have = collections.Counter(tuple(x) for g in got for x in g.tolist())
    want = collections.Counter(tuple(x) for x in p.tolist())
    run.check(have == want, "not-a-partition",
              lambda: f"{sum((want - have).values())} points lost, {sum((have - want).values())} points duplicated or altered, of {len(p)}")
    for r in range(n - 1):
        run.check(got[r][:, axis].max() <= got[r + 1][:, axis].min(), "not-slices",
                  lambda: f"rank {r} reaches {got[r][:, axis].max()}, rank {r + 1} starts at {got[r + 1][:, axis].min()} along axis {axis}")
    for r in range(n):
        run.check(len(ext[r]) == n, "extents", lambda: f"rank {r} knows {len(ext[r])} extents")
        for k in range(n):
            e = np.asarray(ext[r][k], float)
            true = np.concatenate([got[k].min(axis=0), got[k].max(axis=0)])
            run.check(e.shape == true.shape and (e[:dim] <= true[:dim]).all() and (e[dim:] >= true[dim:]).all(), "extents",
                      lambda: f"rank {r} has extents {e.tolist()} for rank {k}, whose points span {true.tolist()}")
            run.check(np.array_equal(e, np.asarray(ext[0][k], float)), "extents", lambda: f"ranks 0 and {r} disagree on the extents of rank {k}")


def whole(run, p):
    c = run.case
    n, dim = c["n"], c["dim"]
    lo, hi = p.min(axis=0) - 1, p.max(axis=0) + 1
    w = dict(dim=dim, domain=dict(kind="everywhere", bbox=[float(v) for k in range(dim) for v in (lo[k], hi[k])]),
             size=dict(kind="scalar", h=0.1), points=dict(c["pts"], layout=c["layout"]),
             opts=dict(axis=c["axis"], max_iter=1 + c["extra"], verbose=0, mesh_improvement=False, delta_t=0.0))
    j = job.job(run, n, lambda sm, comm: work.mesh(sm, comm, w), c["sched"], c["seed"])
    job.must_finish(j)
    job.no_leftover(j)
    q, t = j.ranks[0].result
    run.nontrivial = True
    run.event("res", engine.digest(q.tobytes(), t.tobytes()))
    a, b = meshcheck.pointset(p), meshcheck.pointset(q)
    run.check(a == b and len(q) == len(b), "not-a-partition",
              lambda: f"generate_mesh: {len(a - b)} points lost, {len(b - a)} invented, {len(q) - len(b)} duplicated, of {len(a)}")
    run.probe("through_generate_mesh")


def shrinks(c):
    if c["n"] > 2:
        for n in sorted({2, c["n"] - 1}):
            yield dict(c, n=n, exact=c["exact"][:n] if c.get("exact") else None)
    if c.get("exact"):
        yield dict(c, exact=None)
    if c["pts"]["n"] > 12 * c["n"]:
        yield dict(c, pts=dict(c["pts"], n=c["pts"]["n"] // 2))
    if c["dup"]:
        yield dict(c, dup=False)
    if c["layout"]:
        yield dict(c, layout=None)
    if c["dim"] == 3 and c["axis"] < 2:
        yield dict(c, dim=2, pts=dict(c["pts"], lo=c["pts"]["lo"][:2], hi=c["pts"]["hi"][:2], ax=c["axis"]))
