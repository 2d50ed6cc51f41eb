"""C09: every rank meshes with the global mesh sizes."""
import contextlib

import numpy as np

from .. import engine, job, mpi, work
from . import c01

CASES = dict(quick=1500, thorough=9000)
RULE = ("random sizing function (wavy, radial, stepped ramps; analytic or gridded SizeFunction, from a velocity model), box, h0, axis and 2..6 ranks: the function localised under a random "
        "schedule is (rarely a grid of a million points with narrow features) queried at random points of each rank's slab and compared with the range of the global one within one h0; one case in five compares where generate_mesh puts its "
        "vertices in parallel and serially; non-trivial: the global size varies over the box by more than a tenth")
REAL, STUB, ASSUMPTIONS = c01.REAL, c01.STUB, c01.ASSUMPTIONS


def generate(rng, i, tier):
    n = rng.choice((2, 2, 3, 4, 5, 6)) if rng.random() < 0.97 else rng.choice((7, 9))
    dim = rng.choice((2, 2, 3))
    axis = rng.randrange(dim)
    h = rng.choice((0.1, 1.0, 25.0))
    ext = [h * rng.uniform(6, 14 if dim == 2 else 9) for _ in range(dim)]
    ext[axis] = h * n * rng.uniform(3, 6)
    off = [rng.choice((0.0, -1.0, 2.0)) * e for e in ext]
    bbox = [v for k in range(dim) for v in (off[k], off[k] + ext[k])]
    c = dict(n=n, dim=dim, axis=axis, h=h, bbox=bbox, f=dict(kind=rng.choice(("wave", "wave", "ramp", "bump")), ax=rng.randrange(dim), ph=rng.uniform(0, 6),
             amp=rng.uniform(0.3, 1.0), k=rng.uniform(2, 9)), rs=rng.randrange(1 << 30), sched=job.gen_sched(rng), mode="query")
    if i % 60 == 20:     # a large grid with features a few mesh sizes wide
        n = rng.choice((2, 2, 3))
        ext = [h * v * rng.uniform(0.8, 1.1) for v in ([rng.choice((300, 1000))] * 2 if dim == 2 else [rng.choice((40, 80))] * 3)]
        c.update(n=n, bbox=[v for k in range(dim) for v in (off[k], off[k] + ext[k])])
        c["f"].update(kind="wave", k=np.pi / h / rng.uniform(5, 9) * ext[c["f"]["ax"]], amp=1.0)
        return c
    if rng.random() < 0.2:
        # a ramp along the axis that is cut: a rank that uses another slab's sizes stands out
        c.update(mode="mesh", dim=2, axis=rng.randrange(2), user=rng.random() < 0.3)
        c["it"] = rng.choice((1, 1, 1, 20))
        e = [h * 16.0, h * 16.0]
        e[c["axis"]] = h * 13.0 * n
        c["bbox"] = [v for k in range(2) for v in (0.0, e[k])]
        c["f"] = dict(kind="ramp", ax=rng.choice((c["axis"], c["axis"], 1 - c["axis"])), amp=1.2, ph=rng.choice((0.0, 1.0)), k=1.0)
        if c["user"] and rng.random() < 0.6:
            # the user's points are in a part of the box, and so may the domain be
            a = rng.uniform(0.3, 0.5)
            c["part"] = rng.choice(([0.0, a], [1 - a, 1.0], [a / 2, a / 2 + a]))
            c["whole"] = rng.random() < 0.5
            c["f"] = rng.choice((c["f"], dict(kind="bump", ax=c["axis"], amp=rng.uniform(0.4, 0.8)), dict(kind="wave", ax=c["axis"], amp=1.0, k=rng.uniform(3, 6), ph=rng.uniform(0, 6))))
            c["it"] = rng.choice((1, 3, 6))
        elif rng.random() < 0.25:
            axis = rng.randrange(3)
            e = [h * rng.uniform(5, 7)] * 3
            e[axis] = h * n * 4.5
            c.update(dim=3, axis=axis, user=False, it=rng.choice((1, 2)), bbox=[v for k in range(3) for v in (0.0, e[k])])
            c["f"] = dict(kind=rng.choice(("wave", "bump")), ax=axis, amp=rng.uniform(0.3, 0.8), k=rng.uniform(2, 6), ph=rng.uniform(0, 6))
    return c


def size_fn(c):
    b = np.array(c["bbox"]).reshape(-1, 2)
    f, h = c["f"], c["h"]
    L = b[:, 1] - b[:, 0]

    def g(q):
        u = (q - b[:, 0]) / L
        x = u[..., f["ax"]]
        if f["kind"] == "wave":
            v = 1 + f["amp"] * np.sin(f["k"] * x + f["ph"]) ** 2
        elif f["kind"] == "ramp":
            v = 1 + f["amp"] * np.abs(x - f["ph"])
        else:
            v = 1 + f["amp"] * 2 * np.exp(-8 * ((u - 0.4) ** 2).sum(axis=-1))
        return h * v
    return g, L


def fh_of(g):
    def fh(x):
        if isinstance(x, tuple):
            return g(np.stack([np.asarray(v, float) for v in x], axis=-1))
        return g(np.asarray(x, float))
    return fh


def execute(run):
    (mesh_mode if run.case["mode"] == "mesh" else query_mode)(run)


def query_mode(run):
    c = run.case
    g, L = size_fn(c)
    n, dim, axis, h = c["n"], c["dim"], c["axis"], c["h"]
    bbox = np.array(c["bbox"]).reshape(-1, 2)
    rs = np.random.RandomState(c["rs"])
    cuts = np.linspace(bbox[axis, 0], bbox[axis, 1], n + 1)
    qs = []
    for r in range(n):
        lo, hi = bbox[:, 0].copy(), bbox[:, 1].copy()
        lo[axis], hi[axis] = cuts[r], cuts[r + 1]
        qs.append(lo + rs.rand(60, dim) * (hi - lo))

    def fn(sm, comm):
        f = sm.migration.localize_sizing_function(fh_of(g) if comm.Get_rank() == 0 else None, h, bbox.copy(), dim, axis, comm)
        return np.asarray(f(qs[comm.Get_rank()])).ravel()

    w = job.job(run, n, fn, c["sched"], c["seed"])
    job.must_finish(w)
    job.no_leftover(w)
    s = np.stack(np.meshgrid(*[np.linspace(-1, 1, 9 if dim == 2 else 7)] * dim, indexing="ij"), axis=-1).reshape(-1, dim) * h
    allv = []
    for r in range(n):
        near = g(qs[r][:, None, :] + s[None])
        lo, hi = near.min(axis=1), near.max(axis=1)
        slack = 0.3 * (hi - lo) + 1e-9 * h
        v = w.ranks[r].result
        allv.append(g(qs[r]))
        run.check(np.isfinite(v).all(), "size-not-finite", lambda: f"rank {r}")
        bad = (v < lo - slack) | (v > hi + slack)
        run.check(not bad.any(), "size-differs", lambda: f"rank {r}: {int(bad.sum())} of {len(v)} sizes out of range, e.g. {v[bad][0]:.5g} at "
                  f"{qs[r][bad][0].tolist()}, global {lo[bad][0]:.5g}..{hi[bad][0]:.5g}")
        run.event("v", r, engine.digest(np.round(v / h, 9).tobytes()))
    allv = np.concatenate(allv)
    run.nontrivial = bool(allv.max() > 1.1 * allv.min())


@contextlib.contextmanager
def asked(own):
    """Which sizes gridded functions give, and where, as the ranks mesh."""
    from scipy.interpolate import RegularGridInterpolator as R
    real, seen = R.__call__, []

    def call(self, xi, *a, **kw):
        v = real(self, xi, *a, **kw)
        q = np.stack([np.asarray(x, float) for x in xi], axis=-1) if isinstance(xi, tuple) else np.asarray(xi, float)
        q = q.reshape(-1, q.shape[-1])
        keep = np.ones(len(q), bool)
        rk = mpi.current_rank()
        if own is not None and rk is not None:
            # a rank's own vertices; what it takes for edges between ghosts goes nowhere
            axis, cuts, h = own
            keep = (q[:, axis] > cuts[rk.wrank] - h) & (q[:, axis] < cuts[rk.wrank + 1] + h)
        seen.append((q[keep], np.asarray(v, float).ravel()[keep]))
        return v

    R.__call__ = call
    try:
        yield seen
    finally:
        R.__call__ = real


def check_asked(run, seen, g):
    c = run.case
    h, b = c["h"], np.array(c["bbox"]).reshape(-1, 2)
    q = np.concatenate([x for x, _ in seen] or [np.zeros((0, c["dim"]))])
    v = np.concatenate([x for _, x in seen] or [np.zeros(0)])
    inside = ((q >= b[:, 0]) & (q <= b[:, 1])).all(axis=1)
    q, v = q[inside], v[inside]
    dim = c["dim"]
    s = np.stack(np.meshgrid(*[np.linspace(-1.5, 1.5, 7 if dim == 2 else 5)] * dim, indexing="ij"), axis=-1).reshape(-1, dim) * h
    lo, hi = np.full(len(q), np.inf), np.full(len(q), -np.inf)
    for k in range(0, len(q), 20000):
        near = g(q[k:k + 20000, None, :] + s[None])
        lo[k:k + 20000], hi[k:k + 20000] = near.min(axis=1), near.max(axis=1)
    slack = 0.3 * (hi - lo) + 1e-3 * h
    bad = (v < lo - slack) | (v > hi + slack)
    run.probe("sizes_asked_for", len(q))
    run.check(not bad.any(), "size-differs", lambda: f"meshing: {int(bad.sum())} of {len(v)} sizes out of range, e.g. {v[bad][0]:.5g} at "
              f"{q[bad][0].tolist()}, global {lo[bad][0]:.5g}..{hi[bad][0]:.5g}")


def mesh_mode(run):
    c = run.case
    g, L = size_fn(c)
    n, axis, h = c["n"], c["axis"], c["h"]
    dim = c["dim"]
    dom = dict(kind="Rectangle" if dim == 2 else "Cube", bbox=c["bbox"])
    opts = dict(axis=axis, max_iter=c["it"], verbose=0, mesh_improvement=c["it"] > 1)
    pts = None
    if c["user"]:
        b = np.array(c["bbox"]).reshape(-1, 2)
        if c.get("part"):
            b[axis] = b[axis, 0] + np.array(c["part"]) * L[axis]
            if not c["whole"]:
                dom = dict(kind="slab", bbox=b.ravel().tolist())
                opts["bbox"] = tuple(c["bbox"])
        pts = dict(kind="jitter", n=int(np.prod((b[:, 1] - b[:, 0]) / (1.5 * h))), seed=c["rs"], lo=b[:, 0].tolist(), hi=b[:, 1].tolist())

    def call(sm, comm):
        kw = dict(opts)
        if pts:
            kw["points"] = work.build_points(pts)
        from scipy.interpolate import RegularGridInterpolator
        b = np.array(c["bbox"]).reshape(-1, 2)
        vecs = [np.linspace(lo, hi, 41 if dim == 2 or hi - lo > 8 * h else 17) for lo, hi in b]
        grid = np.stack(np.meshgrid(*vecs, indexing="ij"), axis=-1)
        sf = sm.SizeFunction(tuple(c["bbox"]), RegularGridInterpolator(vecs, g(grid), bounds_error=False, fill_value=None), h)
        d = work.sdf(dict(dom, kind="Rectangle")) if dom["kind"] == "slab" else work.build_domain(sm, dom)
        return sm.generate_mesh(d, sf, comm=comm, **kw)

    from mpi4py import MPI
    ps, _ = call(job.module(), MPI.COMM_SELF)
    with asked(None if c["user"] else (axis, np.linspace(*c["bbox"][2 * axis:2 * axis + 2], n + 1), h)) as seen:
        w = job.job(run, n, call, c["sched"], c["seed"])
    job.must_finish(w)
    check_asked(run, seen, g)
    pp, _ = w.ranks[0].result
    run.nontrivial = True
    if c.get("part") or dim == 3:
        run.probe("part_of_the_box" if dim == 2 else "mesh_3d")
        return
    f = c["f"]["ax"]
    e = np.linspace(c["bbox"][2 * f], c["bbox"][2 * f + 1], 4)
    a = np.histogram(ps[:, f], e)[0] / len(ps)
    b = np.histogram(pp[:, f], e)[0] / len(pp)
    run.nontrivial = True
    run.note = dict(serial=a.round(3).tolist(), parallel=b.round(3).tolist(), vertices=[len(ps), len(pp)])
    run.event("hist", b.tolist())
    run.probe("mesh_mode")
    # one iteration: the vertices are where the sizes put them, up to sampling; forces, scaled
    # rank by rank, then spread them a little differently
    noise = 4.5 * np.sqrt(0.25 / min(len(ps), len(pp)))
    tol = 0.02 + noise if c["it"] == 1 else 0.12 + noise
    run.check(abs(len(pp) - len(ps)) <= (0.12 if c["it"] == 1 else 0.25) * len(ps) + 9 * np.sqrt(len(ps)), "density", lambda: f"{len(ps)} vertices serially, {len(pp)} on {n} ranks")
    run.check((abs(a - b) <= tol).all(), "density", lambda: f"share of vertices per third along axis {f}: {a.round(3).tolist()} serially, {b.round(3).tolist()} on {n} ranks (tolerance {tol:.3f})")


def shrinks(c):
    if c["n"] > 2:
        yield dict(c, n=2)
