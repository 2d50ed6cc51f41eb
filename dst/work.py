"""Workloads as JSON: a domain, a sizing, initial points and options."""
import numpy as np

# ---- domains --------------------------------------------------------------


def build_domain(sm, d):
    k = d["kind"]
    if k == "Rectangle":
        return sm.Rectangle(tuple(d["bbox"]))
    if k == "Cube":
        return sm.Cube(tuple(d["bbox"]))
    if k == "Disk":
        return sm.Disk(list(d["c"]), d["r"])
    if k == "Ball":
        return sm.Ball(list(d["c"]), d["r"])
    if k == "Union":
        return sm.Union([build_domain(sm, x) for x in d["of"]], **d.get("kw", {}))
    if k in ("Difference", "Intersection"):
        return getattr(sm, k)([build_domain(sm, x) for x in d["of"]], **d.get("kw", {}))
    if k == "Repeat":
        return sm.Repeat(tuple(d["bbox"]), build_domain(sm, d["of"][0]), list(d["period"]))
    if k == "shape":       # any class with its arguments; "bbox" here is only about right
        a = [tuple(x) if isinstance(x, list) and len(x) > 3 else x for x in d["args"]]
        return getattr(sm, d["cls"])(*a, **d["kw"])
    if k == "fdisk":       # callable, with the bbox in the options
        c, r = np.array(d["c"]), d["r"]
        return lambda p: np.sqrt(((np.asarray(p) - c) ** 2).sum(axis=1)) - r
    if k == "everywhere":  # nothing is outside
        return lambda p: np.full(len(p), -1e9)
    raise ValueError(k)


def domain_bbox(d):
    k = d["kind"]
    if k in ("Rectangle", "Cube", "everywhere", "shape", "Repeat"):
        return list(d["bbox"])
    if k in ("Disk", "Ball", "fdisk"):
        return [v for c in d["c"] for v in (c - d["r"], c + d["r"])]
    if k == "Difference":
        return domain_bbox(d["of"][0])
    bs = np.array([domain_bbox(x) for x in d["of"]])
    return [float(bs[:, i].min() if i % 2 == 0 else bs[:, i].max()) for i in range(bs.shape[1])]


def sdf(d):
    """Reference signed distance (numpy only): negative inside."""
    k = d["kind"]
    if k in ("Rectangle", "Cube"):
        b = np.array(d["bbox"]).reshape(-1, 2)
        return lambda p: -np.minimum(p - b[:, 0], b[:, 1] - p).min(axis=1)
    if k in ("Disk", "Ball", "fdisk"):
        return lambda p: np.sqrt(((p - np.array(d["c"])) ** 2).sum(axis=1)) - d["r"]
    if k == "everywhere":
        return lambda p: np.full(len(p), -1e9)
    fs = [sdf(x) for x in d["of"]]
    if k == "Union":
        return lambda p: np.min([f(p) for f in fs], axis=0)
    return lambda p: np.maximum(fs[0](p), -np.min([f(p) for f in fs[1:]], axis=0))


def volume(d):
    k = d["kind"]
    if k in ("Rectangle", "Cube"):
        b = np.array(d["bbox"]).reshape(-1, 2)
        return float((b[:, 1] - b[:, 0]).prod())
    if k in ("Disk", "fdisk") and len(d["c"]) == 2:
        return float(np.pi * d["r"] ** 2)
    if k in ("Ball", "fdisk"):
        return float(4 / 3 * np.pi * d["r"] ** 3)
    return None


def perimeter(d):
    """Boundary measure of simple domains (upper bound for compounds)."""
    k = d["kind"]
    if k in ("Rectangle", "Cube"):
        b = np.array(d["bbox"]).reshape(-1, 2)
        s = b[:, 1] - b[:, 0]
        return float(2 * s.sum()) if len(s) == 2 else float(2 * (s[0] * s[1] + s[1] * s[2] + s[0] * s[2]))
    if k in ("Disk", "Ball", "fdisk"):
        r = d["r"]
        return float(2 * np.pi * r) if len(d["c"]) == 2 else float(4 * np.pi * r * r)
    return float(sum(perimeter(x) for x in d["of"]))


# ---- sizing ---------------------------------------------------------------


def size_values(s, q):
    """The mesh size at points q (m x dim), by the workload's own formula."""
    k = s["kind"]
    if k == "scalar":
        return np.full(len(q), s["h"])
    if k in ("radial", "sf_radial"):
        r = np.sqrt(((q - np.array(s["c"])) ** 2).sum(axis=1))
        return np.minimum(s["h"] + s["g"] * np.abs(r - s["r0"]), s["h"] * s["ratio"])
    if k in ("linear", "sf_linear"):
        return s["h"] + s["g"] * np.abs(q[:, s["ax"]] - s["x0"])
    raise ValueError(k)


def build_size(sm, s, bbox, comm=None):
    from scipy.interpolate import RegularGridInterpolator

    k = s["kind"]
    if k == "scalar":
        return s["h"]
    if k in ("radial", "linear"):
        def fh(x):
            q = np.stack([np.asarray(v) for v in x], axis=-1) if isinstance(x, tuple) else np.asarray(x)
            return size_values(s, q.reshape(-1, q.shape[-1])).reshape(q.shape[:-1])
        return fh
    if k in ("sf_radial", "sf_linear"):
        b = np.array(bbox).reshape(-1, 2)
        vecs = [np.linspace(lo, hi, 14) for lo, hi in b]
        g = np.stack(np.meshgrid(*vecs, indexing="ij"), axis=-1)
        v = size_values(s, g.reshape(-1, len(b))).reshape(g.shape[:-1])
        return sm.SizeFunction(tuple(float(x) for x in bbox),
                               RegularGridInterpolator(vecs, v, bounds_error=False, fill_value=None), s["h"])
    if k == "segy":  # from an array of velocities, through the public entry point
        vp = velocities(s["vp"])
        n = vp.shape
        kw = dict(s["kw"])
        kw.update(velocity_data=vp, nz=n[0], nx=n[1])
        if vp.ndim == 3:
            kw["ny"] = n[2]
        return sm.get_sizing_function_from_segy("none", tuple(float(x) for x in s["bbox"]), comm=comm, **kw)
    raise ValueError(k)


def velocities(v):
    rs = np.random.RandomState(v["seed"])
    shape = tuple(v["shape"])
    z = np.linspace(0, 1, shape[0]).reshape((-1,) + (1,) * (len(shape) - 1))
    base = 1500.0 + 3000.0 * z + 200.0 * np.cumsum(rs.rand(*shape) - 0.5, axis=-1)
    return np.clip(base, 1400.0, 6000.0)


# ---- points ---------------------------------------------------------------


def build_points(pt):
    rs = np.random.RandomState(pt["seed"])
    n, lo, hi = pt["n"], np.array(pt["lo"], float), np.array(pt["hi"], float)
    dim = len(lo)
    k = pt["kind"]
    if k == "uniform":
        u = rs.rand(n, dim)
    elif k == "cluster":
        m = max(1, n // 2)
        c = rs.rand(3, dim) * 0.8 + 0.1
        u = np.vstack([c[rs.randint(0, 3, m)] + 0.03 * rs.randn(m, dim), rs.rand(n - m, dim)])
        u = np.clip(u, 0.0, 1.0) * 0.98 + 0.01 * rs.rand(n, dim)
    elif k == "graded":
        u = rs.rand(n, dim)
        u[:, pt.get("ax", 0)] **= 2.5
    elif k == "row":       # all of one rank's points on a line or in a plane
        m, a = max(4, n // 12), pt.get("ax", 0)
        u = rs.rand(n, dim)
        u[:, a] *= 0.45
        u[:m, a] = 1.0
        if pt["seed"] % 2:
            u[:, a] = 1.0 - u[:, a]
    elif k in ("grid", "jitter"):
        m = max(3, int(round(n ** (1.0 / dim))))
        g = np.stack(np.meshgrid(*[np.linspace(0, 1, m)] * dim, indexing="ij"), axis=-1).reshape(-1, dim)
        u = g + (0.2 / m * (rs.rand(*g.shape) - 0.5) if k == "jitter" else 0.0)
        u = u[rs.permutation(len(u))]
    elif k == "stagger":   # rows exactly on the cuts and coincident coordinates
        m = max(3, int(round(n ** (1.0 / dim))))
        g = np.stack(np.meshgrid(*[np.arange(m)] * dim, indexing="ij"), axis=-1).reshape(-1, dim).astype(float)
        g[:, 1] += 0.5 * (g[:, 0] % 2)
        u = g / (m - 0.5)
    else:
        raise ValueError(k)
    return np.ascontiguousarray(lo + u * (hi - lo))


# ---- the call -------------------------------------------------------------


def mesh_args(sm, w, comm=None):
    """-> (domain, edge_length, kwargs) for generate_mesh."""
    dom = build_domain(sm, w["domain"])
    kw = dict(w["opts"])
    if w["domain"]["kind"] in ("fdisk", "everywhere"):
        kw["bbox"] = tuple(float(x) for x in domain_bbox(w["domain"]))
    if w["size"]["kind"] in ("radial", "linear"):
        kw["h0"] = w["size"]["h"]
    if w.get("points"):
        kw["points"] = user_points(w)
    if w.get("pfix"):
        kw["pfix"] = np.array(w["pfix"], float)
    if w.get("subdomains"):
        kw["subdomains"] = [build_domain(sm, d) for d in w["subdomains"]]
    size = build_size(sm, w["size"], domain_bbox(w["domain"]), comm)
    return dom, size, kw


def user_points(w):
    p = build_points(w["points"])
    if w["points"].get("trim"):
        p = p[sdf(w["domain"])(p) < 0]
    return laid_out(p, w["points"].get("layout"))


LAYOUTS = ("fortran", "strided", "view", "readonly", "columns")


def laid_out(p, how):
    """The same points, as another kind of array a user may hold them in."""
    if how == "fortran":
        return np.asfortranarray(p)
    if how == "strided":
        q = np.full((2 * len(p), p.shape[1]), np.nan)
        q[::2] = p
        return q[::2]
    if how == "view":       # the first columns of a wider table
        q = np.full((len(p), p.shape[1] + 2), np.nan)
        q[:, :p.shape[1]] = p
        return q[:, :p.shape[1]]
    if how == "columns":    # backwards in memory
        return np.ascontiguousarray(p[::-1])[::-1]
    if how in ("single", "float32"):
        return p.astype(np.float32)
    if how == "readonly":
        q = p.copy()
        q.setflags(write=False)
        return q
    return p


def mesh(sm, comm, w, **more):
    dom, size, kw = mesh_args(sm, w, comm)
    kw.update(more)
    return sm.generate_mesh(dom, size, comm=comm, **kw)


def h0_of(w):
    s = w["size"]
    return s["kw"]["hmin"] if s["kind"] == "segy" else s["h"]


# ---- random workloads -----------------------------------------------------


SLAB3 = (3.2, 4.0)   # thickness of a rank in 3D, in edge lengths


def gen_domain(rng, dim, nranks, axis, h):
    """A domain thick enough along `axis` for every rank's slab."""
    want = nranks * h * rng.uniform(4.0, 7.0)
    if dim == 2:
        other = h * rng.uniform(7.0, 13.0)
        k = rng.choice(("Rectangle", "Rectangle", "Disk", "fdisk", "Union", "Difference"))
        if k == "Rectangle":
            s = [other, other]
            s[axis] = want
            o = [rng.choice((0.0, -3.0, 1.25)) * h for _ in range(2)]
            return dict(kind=k, bbox=[v for i in range(2) for v in (o[i], o[i] + s[i])])
        r = max(want / 2, 4 * h) * (1.15 if nranks > 2 else 1.0)
        c = [rng.uniform(-0.5, 0.5) * h for _ in range(2)]
        if k in ("Disk", "fdisk"):
            return dict(kind=k, c=c, r=r)
        if k == "Union":
            return dict(kind=k, of=[dict(kind="Disk", c=c, r=r),
                                    dict(kind="Rectangle", bbox=[c[0] - 0.9 * r, c[0] + 0.9 * r, c[1] - 0.9 * r, c[1] + 0.9 * r])])
        b = [c[0] - r, c[0] + r, c[1] - r, c[1] + r]
        return dict(kind=k, of=[dict(kind="Rectangle", bbox=b), dict(kind="Disk", c=[c[0] + 0.1 * h, c[1]], r=max(1.6 * h, 0.3 * r))])
    k = rng.choice(("Cube", "Cube", "Ball"))
    if k == "Cube" or nranks > 6:   # (a big ball takes too long)
        s = [h * rng.uniform(3.2, 4.5) for _ in range(3)]
        s[axis] = nranks * h * rng.uniform(*SLAB3)
        return dict(kind="Cube", bbox=[v for i in range(3) for v in (0.0, s[i])])
    r = max(nranks * h * 0.53 * sum(SLAB3) / 2, 2.6 * h)
    return dict(kind=k, c=[0.0, 0.0, 0.0], r=r)


def gen_exotic(rng, dim, nranks, axis, h):
    """A domain of the kinds gen_domain leaves out, for which only the bounding
    box is known about right; None if this many ranks would not all have points."""
    if dim == 2:
        k = rng.choice(("pieces", "pieces", "Intersection", "rotated", "stretched", "translated", "smooth"))
        if k == "pieces":   # one or two in each rank's slab, far apart
            pitch, thick = h * rng.uniform(7.0, 10.0), h * rng.uniform(3.5, 4.5)
            of = []
            for r in range(nranks):
                b = [0.0, h * rng.uniform(5.0, 9.0), 0.0, h * rng.uniform(5.0, 9.0)]
                off = 0.0 if r == 0 else pitch - thick if r == nranks - 1 else (pitch - thick) * rng.random()
                b[2 * axis], b[2 * axis + 1] = r * pitch + off, r * pitch + off + thick
                of.append(dict(kind="Rectangle", bbox=b))
            return dict(kind="Union", of=of) if nranks > 1 else of[0]
        if nranks > 3:
            return None
        r = h * max(5.0, 2.6 * nranks)
        if k == "Intersection":
            return dict(kind=k, of=[dict(kind="Disk", c=[0.0, 0.0], r=r), dict(kind="Rectangle", bbox=[-0.95 * r, 0.9 * r, -0.9 * r, 0.95 * r])])
        if k == "smooth":
            of = [dict(kind="Disk", c=[-0.4 * r, 0.0], r=r), dict(kind="Disk", c=[0.4 * r, 0.1 * r], r=r)]
            return dict(kind="Union", of=of, kw=dict(smoothness=0.3 * r))
        b = [-1.1 * r, 1.1 * r, -r, r]
        kw = dict(rotated=dict(rotate=[rng.choice((0.3, -0.7)), 0.0, 0.0]), stretched=dict(stretch=[rng.choice((0.8, 1.3)), 0.0]),
                  translated=dict(translate=[rng.choice((3.0, -2.0)) * h, 1.5 * h]))[k]
        return dict(kind="shape", cls="Rectangle", args=[b], kw=kw, bbox=b)
    if nranks > 3:
        return None
    k = rng.choice(("Cylinder", "Prism", "Torus", "Repeat", "translated", "rotated", "Intersection"))
    if k == "Cylinder":
        r = h * (2.2 if nranks < 3 else 4.0)
        return dict(kind="shape", cls=k, args=[2 * r, r], kw={}, bbox=[-2 * r, 2 * r] * 3)
    if k == "Prism":
        r = h * 1.8 * (nranks + 1)
        return dict(kind="shape", cls=k, args=[r, r * 0.6], kw={}, bbox=[-r, r, -r, r, -0.6 * r, 0.6 * r]) if nranks < 3 else None
    if k == "Torus":
        r = h * 3.0
        return dict(kind="shape", cls=k, args=[r, 0.6 * r], kw={}, bbox=[-4 * r, 4 * r] * 3) if nranks < 3 else None
    if k == "Repeat":   # balls that do not touch
        r, per = 2.0 * h, 5.5 * h
        m = [0.5] * 3
        m[axis] = 0.5 + nranks - 1
        b = [v for x in m for v in (-0.5 * per, x * per)]
        return dict(kind=k, bbox=b, of=[dict(kind="Ball", c=[0.0] * 3, r=r)], period=[per] * 3)
    r = h * (2.2 if nranks < 3 else 3.2)
    if k == "Intersection":
        return dict(kind=k, of=[dict(kind="Ball", c=[0.0] * 3, r=1.2 * r), dict(kind="Cube", bbox=[-r, r] * 3)])
    kw = dict(translated=dict(translate=[3.0 * h, 0.0, -1.5 * h]), rotated=dict(rotate=[0.4, 0.0, 0.0]))[k]
    return dict(kind="shape", cls="Cube", args=[[-r, r] * 3], kw=kw, bbox=[-r, r] * 3)


def gen_size(rng, dim, dom, h, kinds=("scalar", "scalar", "radial", "linear", "sf_radial", "sf_linear")):
    b = np.array(domain_bbox(dom)).reshape(-1, 2)
    k = rng.choice(kinds)
    if k == "scalar":
        return dict(kind=k, h=h)
    if k.endswith("radial"):
        return dict(kind=k, h=h, g=round(rng.uniform(0.05, 0.2), 3), ratio=round(rng.uniform(1.3, 1.8), 2),
                    c=[float(v) for v in b.mean(axis=1)], r0=float(rng.uniform(0.0, 0.4) * (b[:, 1] - b[:, 0]).min()))
    ax = rng.randrange(dim)
    span = float(b[ax, 1] - b[ax, 0])
    return dict(kind=k, h=h, g=round(min(0.2, rng.uniform(0.2, 0.7) * h / span), 4), ax=ax,
                x0=float(b[ax, 0] + rng.random() * span))


def gen_mesh(rng, nranks, dim=None, iters=(1, 2, 3, 5, 8, 12), roomy=1.0, exotic=0.0, long=0.0, beyond=0.0):
    """exotic: how often a domain known only to the package; long: how often many iterations;
    beyond: how often the user's points go past the domain, so that ranks end up with no cells"""
    dim = dim or rng.choice((2, 2, 2, 3))
    h = rng.choice((0.1, 0.25, 1.0, 7.5)) * rng.uniform(0.9, 1.1)
    axis = rng.randrange(dim)
    dom = gen_domain(rng, dim, nranks, axis, h * roomy)
    odd = gen_exotic(rng, dim, nranks, axis, h) if rng.random() < exotic else None
    dom = odd or dom
    size = gen_size(rng, dim, dom, h) if not odd else gen_size(rng, dim, dom, h, ("scalar", "scalar", "radial", "linear"))
    it = rng.choice(iters if dim == 2 else iters[:4])
    if rng.random() < long:
        it = rng.choice((20, 30, 50, 60) if dim == 2 else (12, 25))
    opts = dict(axis=axis, max_iter=it, seed=rng.choice((0, 0, 1, 7)), verbose=rng.choice((0, 0, 1, 2, 3)))
    if rng.random() < 0.2:
        opts["perform_checks"] = True
    if rng.random() < 0.2:
        opts["mesh_improvement"] = False
    if rng.random() < 0.2:
        opts["r0m_is_h0"] = True
    if rng.random() < 0.15:
        opts["delta_t"] = rng.choice((0.0, 0.1, 0.2))
    if rng.random() < 0.1:
        opts["geps_mult"] = 0.05
    w = dict(dim=dim, domain=dom, size=size, opts=opts)
    if rng.random() < 0.25 and not odd and nranks <= 6:
        b = np.array(domain_bbox(dom)).reshape(-1, 2)
        n = int(np.clip(np.prod((b[:, 1] - b[:, 0]) / h), 40 * nranks if dim == 2 else max(40 * nranks, (nranks + 2.5) ** 3), 900 if dim == 2 else 700))
        w["points"] = dict(kind=rng.choice(("jitter", "stagger", "grid")), n=n, seed=rng.randrange(1 << 30),
                           lo=[float(v) for v in b[:, 0]], hi=[float(v) for v in b[:, 1]])
        w["points"]["trim"] = dom["kind"] not in ("Rectangle", "Cube")
        if rng.random() < 0.3:
            w["points"]["layout"] = rng.choice(LAYOUTS)
        if not enough(user_points(w)[:, axis], nranks):
            w.pop("points")
    if rng.random() < beyond and nranks > 1 and dom["kind"] in ("Rectangle", "Cube"):
        b = np.array(domain_bbox(dom)).reshape(-1, 2)
        lo, hi = b[:, 0].copy(), b[:, 1].copy()
        more = (hi[axis] - lo[axis]) / nranks * rng.choice((1.2, 1.2, 2.4, nranks + 0.5))
        if rng.random() < 0.6:
            hi[axis] += more
        else:
            lo[axis] -= more
        n = int(np.clip(np.prod((hi - lo) / h), 50 * nranks if dim == 2 else max(40 * nranks, (nranks + 2.5) ** 3), 1200 if dim == 2 else 700))
        pts = dict(kind="jitter", n=n, seed=rng.randrange(1 << 30), lo=lo.tolist(), hi=hi.tolist(), trim=False)
        if enough(build_points(pts)[:, axis], nranks):
            w["points"] = pts
    return w


def shifted(w, off):
    """The same workload elsewhere (simple domains only)."""
    def sh(d):
        d = dict(d)
        if "bbox" in d:
            d["bbox"] = [v + off[k // 2] for k, v in enumerate(d["bbox"])]
        if "c" in d:
            d["c"] = [v + o for v, o in zip(d["c"], off)]
        if "of" in d:
            d["of"] = [sh(x) for x in d["of"]]
        return d
    s = dict(w["size"])
    if "c" in s:
        s["c"] = [v + o for v, o in zip(s["c"], off)]
    if "x0" in s:
        s["x0"] += off[s["ax"]]
    w = dict(w, domain=sh(w["domain"]), size=s)
    if w.get("points"):
        w["points"] = dict(w["points"], **{k: [v + o for v, o in zip(w["points"][k], off)] for k in ("lo", "hi")})
    return w


def enough(x, n):
    """Has each of n slices several points, not counting those on a cut?"""
    cuts = np.linspace(x.min(), x.max(), n + 1)[1:-1]
    e = 1e-9 * (x.max() - x.min())
    lo, hi = np.searchsorted(cuts, x - e), np.searchsorted(cuts, x + e)
    return np.bincount(lo[lo == hi], minlength=n).min() >= 6


def shrink_mesh(w):
    """Simpler variants of a mesh workload."""
    o = w["opts"]
    if o.get("max_iter", 50) > 1:
        for k in sorted({1, 2, o["max_iter"] // 2}):
            if k < o["max_iter"]:
                yield dict(w, opts=dict(o, max_iter=k))
    for k in ("perform_checks", "mesh_improvement", "r0m_is_h0", "delta_t", "geps_mult", "verbose", "seed"):
        if k in o and (k, o[k]) not in (("verbose", 0), ("seed", 0)):
            o2 = {a: b for a, b in o.items() if a != k}
            if k == "verbose":
                o2["verbose"] = 0
            yield dict(w, opts=o2)
    for k in ("subdomains", "pfix"):
        if w.get(k):
            yield {a: b for a, b in w.items() if a != k}
    if w["size"]["kind"] not in ("scalar", "segy"):
        yield dict(w, size=dict(kind="scalar", h=w["size"]["h"]))
    if w.get("points", {}).get("layout"):
        yield dict(w, points=dict(w["points"], layout=None))
    if w.get("points") and w["points"]["n"] > 30:
        yield dict(w, points=dict(w["points"], n=w["points"]["n"] // 2))
        yield dict(w, points=dict(w["points"], n=int(w["points"]["n"] * 0.8)))
