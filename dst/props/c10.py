"""C10: a mesh generated in parallel is a valid mesh of the domain."""
import pickle

import numpy as np

from .. import engine, job, meshcheck, work
from . import c01

CASES = dict(quick=420, thorough=9000)
RULE = ("random domain, sizing, options and initial points, 2..6 ranks, any axis, 1..40 iterations, random schedule; the mesh is judged by an independent checker "
        "(structure, orientation, facets, boundary facets against the reference distance function, volume); non-trivial: cells of at least two ranks' slabs")
REAL, STUB, ASSUMPTIONS = c01.REAL, c01.STUB, c01.ASSUMPTIONS


def generate(rng, i, tier):
    n = rng.choice((2, 2, 3, 4, 5, 6))
    if rng.random() < 0.12:   # poor cells everywhere, at the cuts too, and nothing that would even them out
        h, axis = rng.choice((0.1, 0.25, 1.0, 7.5)) * rng.uniform(0.9, 1.1), rng.randrange(2)
        e = [h * rng.uniform(10, 16)] * 2
        e[axis] = n * h * rng.uniform(7, 10)
        pts = dict(kind="uniform", n=int(1.5 * e[0] * e[1] / h / h), seed=rng.randrange(1 << 30), lo=[0.0, 0.0], hi=e)
        return dict(n=n, rough=True, sched=job.gen_sched(rng),
                    w=dict(dim=2, domain=dict(kind="everywhere", bbox=[0.0, e[0], 0.0, e[1]]), size=dict(kind="scalar", h=h), points=pts,
                           opts=dict(axis=axis, max_iter=1, mesh_improvement=rng.random() < 0.5, verbose=0)))
    dim = rng.choice((2, 2, 3))
    w = work.gen_mesh(rng, n, dim=dim, iters=(1, 2, 4, 8, 15, 25, 40) if dim == 2 else (2, 4, 8, 15),
                      roomy=1.6 if dim == 2 and n > 2 else 1.0)
    w["opts"].pop("geps_mult", None)
    if dim == 3:   # the linter of unconverged 3D meshes deletes slivers it takes for overlaps
        w["opts"].pop("perform_checks", None)
    # user points only where the projection cannot carry one past a neighbour's slab
    if (dim == 3 and n > 4) or w["domain"]["kind"] not in ("Rectangle", "Cube", "Disk", "fdisk"):
        w.pop("points", None)
    if w.get("points"):   # about one per edge length, so that slabs stay as thick as the domain allows
        b = np.array(work.domain_bbox(w["domain"])).reshape(-1, 2)
        w["points"]["n"] = int(np.clip(np.prod((b[:, 1] - b[:, 0]) / w["size"]["h"]), (40 * n if dim == 2 else (2.6 * n) ** 3), 4000))
    d, o = w["domain"], w["opts"]
    if dim == 2 and d["kind"] == "Rectangle" and w["size"]["kind"] != "segy" and o["max_iter"] > 1 and rng.random() < 0.4:
        b = np.array(d["bbox"]).reshape(-1, 2)
        r = min(float((b[:, 1] - b[:, 0]).min()) * 0.3, 4 * w["size"]["h"])
        if r > 2 * w["size"]["h"]:   # its center anywhere, often across a cut
            w["subdomains"] = [dict(kind="Disk", c=[float(rng.uniform(lo + 1.4 * r, hi - 1.4 * r)) for lo, hi in b], r=r)]
            o.pop("delta_t", None)
    if rng.random() < 0.1 and not w.get("subdomains"):   # far from the origin
        w = work.shifted(w, [w["size"]["h"] * rng.choice((0.0, 1e3, -1e4, 1e5)) for _ in range(dim)])
    return dict(n=n, w=w, sched=job.gen_sched(rng))


def hmax_of(w, q):
    s = w["size"]
    return work.size_values(s, q) if s["kind"] != "segy" else np.full(len(q), s["kw"]["hmax"])


def grid_volume(d):
    b = np.array(work.domain_bbox(d)).reshape(-1, 2)
    m = 240 if len(b) == 2 else 70
    vecs = [lo + (np.arange(m) + 0.5) * (hi - lo) / m for lo, hi in b]
    q = np.stack(np.meshgrid(*vecs, indexing="ij"), axis=-1).reshape(-1, len(b))
    return float((work.sdf(d)(q) < 0).mean() * (b[:, 1] - b[:, 0]).prod())


def judge(run, w, p, t, loose):
    # flat cells occur also serially, in 3D until sliver_removal
    bad = meshcheck.structure(p, t, flat=1e-9 * w["size"]["h"] ** w["dim"])
    if loose:
        bad = [b for b in bad if "more than two" not in b and "oriented" not in b and "repeated" not in b]
    run.check(not bad, "bad-structure", lambda: "; ".join(bad))
    run.check(p.shape[1] == w["dim"], "bad-structure", lambda: f"{p.shape[1]}D mesh of a {w['dim']}D domain")
    d = w["domain"]
    if d["kind"] == "everywhere":
        d = dict(kind="Rectangle", bbox=d["bbox"])
    f = work.sdf(d)
    h = hmax_of(w, p)
    # vertices in the domain
    out = f(p) > (0.12 if w["dim"] == 2 else 0.8) * h
    run.check(not out.any(), "vertex-outside", lambda: f"{int(out.sum())} vertices outside, the farthest {f(p).max() / h.max():.3g} edge lengths")
    # boundary facets near the boundary: no hole, no crack
    bf = meshcheck.boundary(p, t)
    mid = p[bf].mean(axis=1)
    depth = -f(mid) / hmax_of(w, mid)
    # no cell outside, where a facet of the hull bridges a dent or lies flat on a face
    if w["domain"]["kind"] != "everywhere":
        o = f(p[t].mean(axis=1)) > 1e-6 * w["size"]["h"]
        run.check(not o.any(), "cell-outside", lambda: f"the centers of {int(o.sum())} cells are outside, the farthest {f(p[t].mean(axis=1)).max() / w['size']['h']:.3g} edge lengths")
    vol = abs(meshcheck.volumes(p, t)).sum() / (work.volume(d) or grid_volume(d))
    run.note = dict(vertices=len(p), cells=len(t), deepest_boundary_facet=round(float(depth.max()), 3), volume=round(float(vol), 4))
    return depth, vol


LIMITS = {2: (1.9, 0.75), 3: (2.0, 0.6)}


def subdomains(run, w, p):
    """The mesh follows the borders of the subdomains: vertices just outside were put on them."""
    h = w["size"]["h"]
    for d in w.get("subdomains", ()):
        f = work.sdf(d)(p)
        off = (f > 0.03 * h) & (f < 0.6 * h)
        run.probe("subdomain")
        run.check(not off.any(), "subdomain", lambda: f"{int(off.sum())} vertices lie just outside a subdomain, e.g. {f[off].min() / h:.3g} edge lengths, {int((abs(f) <= 0.03 * h).sum())} are on its border")
        run.check((abs(f) <= 0.03 * h).sum() >= 6, "subdomain", lambda: f"{int((abs(f) <= 0.03 * h).sum())} vertices on the border of a subdomain of radius {d['r'] / h:.3g} edge lengths")


class Strays:
    """Watches the vertices neighbours send each other for one that has left its
    rank's slab for one beyond the neighbour's; the properties exclude that."""

    def __init__(self, c):
        w = c["w"]
        self.n, self.dim, self.axis = c["n"], w["dim"], w["opts"]["axis"]
        if w.get("points"):
            x = work.user_points(w)[:, self.axis]
            lo, hi = x.min(), x.max()
        else:
            lo, hi = work.domain_bbox(w["domain"])[2 * self.axis:2 * self.axis + 2]
        self.cuts = np.linspace(lo, hi, self.n + 1)
        self.seen = 0

    def __call__(self, src, dst, kind, data):
        try:
            a = pickle.loads(data)
        except Exception:
            return
        if not (isinstance(a, np.ndarray) and a.ndim == 2 and a.shape[1] == self.dim and a.dtype.kind == "f" and len(a)):
            return
        x = a[:, self.axis]
        lo = self.cuts[src - 1] if src > 1 else -np.inf
        hi = self.cuts[src + 2] if src + 2 < self.n else np.inf
        self.seen += int(((x < lo) | (x > hi)).sum())


def execute(run):
    c = run.case
    strays = Strays(c)
    w = job.job(run, c["n"], lambda sm, comm: work.mesh(sm, comm, c["w"]), c["sched"], c["seed"], tap=strays)
    job.must_finish(w)
    run.probe("vertex_strayed_past_neighbour", bool(strays.seen))
    p, t = w.ranks[0].result
    # in 3D, flat hull cells may join ranks that are not neighbours (see properties.jsonl)
    loose = c["n"] > 2 and (c["w"]["dim"] == 3 or bool(strays.seen))
    depth, vol = judge(run, c["w"], p, t, loose)
    subdomains(run, c["w"], p)
    run.nontrivial = len(t) > 4 * c["n"]
    run.event("res", engine.digest(p.tobytes(), t.tobytes()))
    dmax, vmin = (3.2, 0.75) if c.get("rough") else LIMITS[c["w"]["dim"]]
    run.check(depth.max() <= dmax, "hole", lambda: f"a boundary facet lies {depth.max():.2f} edge lengths inside the domain")
    run.check(vmin <= vol <= (1.3 if loose or c["w"]["opts"]["max_iter"] < 8 else 1.04), "not-covered", lambda: f"cells add up to {vol:.3f} of the domain")
    run.probe("converged", c["w"]["opts"]["max_iter"] >= 15)


def shrinks(c):
    if c["n"] > 2:
        yield dict(c, n=2)
        yield dict(c, n=c["n"] - 1)
    for w in work.shrink_mesh(c["w"]):
        yield dict(c, w=w)
