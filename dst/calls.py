"""Serial calls of the public interface as JSON: what goes in, and the call.

prepare(sm, o) -> (inputs, fn): `inputs` names every object the caller passes
in (or has passed earlier and the call may reach), fn(comm) makes the call and
returns arrays.
"""
import numpy as np

from . import files, work
from .props import c01

MESH_FNS = ("fix_mesh", "delete_boundary_entities", "laplacian2", "laplacian2_fixed_point", "linter", "simp_vol", "simp_qual", "get_edges",
            "get_boundary_edges", "get_winded_boundary_edges", "get_boundary_vertices", "get_boundary_entities", "get_centroids",
            "remove_external_entities", "vertex_to_entities", "do_any_overlap", "calc_re_ratios", "unique_rows", "calc_dihedral_angles")
LAYOUTS = ("C", "C", "F", "strided", "readonly")


def gen(rng, kinds=("mesh", "mesh", "mesh", "sliver", "segy", "segy", "shape", "meshfn")):
    k = rng.choice(kinds)
    if k == "mesh":
        w = c01.segy_workload(rng, 1) if rng.random() < 0.2 else work.gen_mesh(rng, 1, iters=(1, 2, 3, 5), exotic=0.2)
        b = np.array(work.domain_bbox(w["domain"])).reshape(-1, 2)
        if rng.random() < 0.35:
            w["pfix"] = [[float(lo + rng.uniform(0.3, 0.7) * (hi - lo)) for lo, hi in b] for _ in range(rng.choice((1, 2, 3)))]
            if w["domain"]["kind"] in ("Difference",):
                w.pop("pfix")
        if w["dim"] == 2 and w["domain"]["kind"] == "Rectangle" and rng.random() < 0.25:
            w["subdomains"] = [dict(kind="Disk", c=[float(v) for v in b.mean(axis=1)], r=float(0.25 * (b[:, 1] - b[:, 0]).min()))]
        return dict(op=k, w=w, layout=rng.choice(LAYOUTS))
    if k == "sliver":
        o = dict(op=k, h=0.3, n=rng.randrange(60, 110), seed=rng.randrange(1 << 20), it=rng.choice((1, 2, 3, 4)), layout=rng.choice(LAYOUTS),
                 size=rng.choice(("scalar", "callable", "sf")), preserve=rng.random() < 0.3, ball=rng.random() < 0.3)
        return o
    if k == "segy":
        f = files.gen(rng)
        return dict(op=k, file=f, sizing=files.sizing_args(rng, f), layout=rng.choice(LAYOUTS), water=rng.choice((0, 0, 1, 3)),
                    units=rng.choice(("m-s", "m-s", "km-s", "ft-s")), stencil=rng.choice((None, 3, "list")))
    if k == "shape":
        return dict(op=k, shape=rng.choice(("Rectangle", "Cube", "Disk", "Ball", "Torus", "Cylinder", "Prism", "Union", "Difference", "Intersection", "Repeat")),
                    rotate=[rng.choice((0.0, 0.5, -1.2)) for _ in range(3)], stretch=rng.random() < 0.4, translate=rng.random() < 0.5,
                    smooth=rng.choice((0.0, 0.1)), seed=rng.randrange(1 << 20), layout=rng.choice(LAYOUTS))
    return dict(op=k, fn=rng.choice(MESH_FNS), dim=rng.choice((2, 2, 3)), n=rng.randrange(20, 60), seed=rng.randrange(1 << 20), layout=rng.choice(LAYOUTS),
                dirty=rng.random() < 0.5)


def lay(a, how):
    """The same values in another memory layout."""
    if how == "F":
        return np.asfortranarray(a)
    if how == "strided":
        big = np.full((2 * a.shape[0],) + a.shape[1:], -7, dtype=a.dtype)
        big[::2] = a
        return big[::2]
    a = np.array(a)
    if how == "readonly":
        a.setflags(write=False)
    return a


def _size(sm, o):
    if o["size"] == "scalar":
        return o["h"], {}
    fh = (lambda x: np.full(len(x) if not isinstance(x, tuple) else np.shape(x[0]), o["h"]))
    if o["size"] == "callable":
        return fh, dict(h0=o["h"])
    return sm.SizeFunction((0.0, 1.0, 0.0, 1.0, 0.0, 1.0), fh, o["h"]), {}


def prepare(sm, o):
    k = o["op"]
    if k == "mesh":
        w = o["w"]
        dom, size, kw = work.mesh_args(sm, w)
        for x in ("points", "pfix"):
            if x in kw:
                kw[x] = lay(kw[x], o["layout"])
        return dict(domain=dom, edge_length=size, options=kw), lambda comm=None: sm.generate_mesh(dom, size, comm=comm, **kw)
    if k == "sliver":
        pts = work.build_points(dict(kind="jitter", n=o["n"], seed=o["seed"], lo=[0, 0, 0], hi=[1, 1, 1]))
        dom = sm.Ball([0.5, 0.5, 0.5], 0.6) if o["ball"] and o["size"] != "sf" else sm.Cube((0.0, 1.0, 0.0, 1.0, 0.0, 1.0))
        size, kw = _size(sm, o)
        pts = lay(pts, o["layout"])
        kw.update(max_iter=o["it"], verbose=0, preserve=o["preserve"])
        return dict(points=pts, domain=dom, edge_length=size, options=kw), lambda comm=None: sm.sliver_removal(pts, dom, size, comm=comm, **kw)
    if k == "segy":
        f = o["file"]
        v = np.array(files.model(f))
        if o["water"]:
            v[-o["water"]:] = 0.0
        if o["units"] == "km-s":
            v = v / 1000.0
        v = lay(v, o["layout"])
        bb = files.bbox(f)
        kw = dict(o["sizing"], velocity_data=v, nz=v.shape[0], nx=v.shape[1], units=o["units"])
        if v.ndim == 3:
            kw.update(ny=v.shape[2], axes_order=[2, 0, 1])
        if o["stencil"]:
            kw["stencil_size"] = [3] * v.ndim if o["stencil"] == "list" else o["stencil"]

        def fn(comm=None):
            sf = sm.get_sizing_function_from_segy("none", bb, comm=comm, **kw)
            q = files.samples(sf.bbox)
            return np.array(sf.bbox), np.asarray(sf.eval(tuple(q.T)))
        return dict(bbox=bb, options=kw), fn
    if k == "shape":
        return _shape(sm, o)
    return _meshfn(sm, o)


def _shape(sm, o):
    rs = np.random.RandomState(o["seed"])
    s = o["shape"]
    dim = 2 if s in ("Rectangle", "Disk") else 3
    x = lay(rs.uniform(-1.5, 1.5, (40, dim)), o["layout"])
    args = dict(rotate=list(o["rotate"]) if dim == 3 else [o["rotate"][0], 0.0, 0.0])
    if o["stretch"]:
        args["stretch"] = rs.uniform(0.5, 2.0, dim)
    if o["translate"]:
        args["translate"] = rs.uniform(-1, 1, dim)
    pos = dict(Rectangle=[[-1.0, 1.0, -0.5, 0.5]], Cube=[[-1.0, 1.0, -0.5, 0.5, 0.0, 1.0]], Disk=[[0.1, 0.2], 0.8], Ball=[[0.1, 0.2, 0.3], 0.8],
               Torus=[1.0, 0.3], Cylinder=[1.0, 0.5], Prism=[0.6, 1.0]).get(s)
    inputs = dict(x=x, args=args, positional=pos)
    if pos is None:
        a, b = sm.Ball([0.0, 0.0, 0.0], 0.8, **args), sm.Cube((-0.5, 0.5, -0.5, 0.5, -0.5, 0.5))
        if s == "Repeat":
            period = [1.0, 1.0, 1.0]
            inputs.update(domain=b, period=period)
            return inputs, lambda comm=None: (sm.Repeat((-2.0, 2.0, -2.0, 2.0, -2.0, 2.0), b, period).eval(x),)
        parts = [a, b, sm.Ball([0.5, 0.0, 0.0], 0.4)]
        inputs.update(parts=parts)
        return inputs, lambda comm=None: (getattr(sm, s)(parts, smoothness=o["smooth"]).eval(x),)

    def fn(comm=None):
        g = getattr(sm, s)(*pos, **args)
        return np.asarray(g.eval(x)), np.array(g.bbox, float)
    return inputs, fn


def _meshfn(sm, o):
    from scipy.spatial import Delaunay

    rs = np.random.RandomState(o["seed"])
    dim, name = o["dim"], o["fn"]
    if name in ("laplacian2", "laplacian2_fixed_point", "get_winded_boundary_edges", "calc_re_ratios"):
        dim = 2
    if name in ("calc_dihedral_angles",):
        dim = 3
    p = rs.uniform(0, 1, (o["n"], dim))
    t = Delaunay(p).simplices.astype(np.int64)
    if o["dirty"] and name in ("fix_mesh", "linter"):
        p = np.vstack((p, p[:3], rs.uniform(0, 1, (2, dim))))
        t = np.vstack((t, t[:2]))
        t[0, [0, 1]] = t[0, [1, 0]]
    p, t = lay(p, o["layout"]), lay(t, o["layout"])
    g = sm.geometry
    one = dict(simp_vol=lambda: g.simp_vol(p, t), simp_qual=lambda: g.simp_qual(p, t), get_edges=lambda: g.get_edges(t, dim=dim),
               get_boundary_edges=lambda: g.get_boundary_edges(t, dim=dim), get_winded_boundary_edges=lambda: g.get_winded_boundary_edges(t),
               get_boundary_vertices=lambda: g.get_boundary_vertices(t, dim=dim), get_boundary_entities=lambda: g.get_boundary_entities(p, t, dim=dim),
               get_centroids=lambda: g.get_centroids(p, t, dim=dim), vertex_to_entities=lambda: g.vertex_to_entities(p, t, dim=dim),
               do_any_overlap=lambda: np.array(g.do_any_overlap(p, t, dim=dim)), calc_re_ratios=lambda: g.calc_re_ratios(p, t, dim=dim),
               unique_rows=lambda: g.unique_rows(t), laplacian2=lambda: g.laplacian2(p, t, verbose=0, pfix=p[:2]),
               laplacian2_fixed_point=lambda: g.laplacian2_fixed_point(p, t), linter=lambda: g.linter(p, t, dim=dim),
               fix_mesh=lambda: g.fix_mesh(p, t, dim=dim, delete_unused=True), delete_boundary_entities=lambda: g.delete_boundary_entities(p, t, dim=dim, verbose=0),
               remove_external_entities=lambda: g.remove_external_entities(p, t, [0.2] * dim + [0.8] * dim, dim=dim),
               calc_dihedral_angles=lambda: g.calc_dihedral_angles(p, t))[name]

    def fn(comm=None):
        r = one()
        return tuple(np.asarray(a) for a in r) if isinstance(r, (tuple, list)) else (np.asarray(r),)
    return dict(vertices=p, entities=t), fn


# ---- what an object is, bit for bit -----------------------------------------


def state(x, seen=None, depth=0):
    """Everything the object says about itself, for comparing."""
    seen = seen or {}
    if isinstance(x, np.ndarray):
        return ("array", x.dtype.str, x.shape, x.strides, x.flags.writeable, x.tobytes(), x.__array_interface__["data"][0])
    if isinstance(x, (str, bytes, int, float, bool, complex, type(None), type)) or np.isscalar(x):
        return (type(x).__name__, repr(x))
    if id(x) in seen or depth > 8:
        return ("again", seen.get(id(x)))
    seen[id(x)] = len(seen)
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [state(v, seen, depth + 1) for v in x])
    if isinstance(x, dict):
        return ("dict", [(repr(k), state(v, seen, depth + 1)) for k, v in x.items()])
    if callable(x) and hasattr(x, "__code__"):
        cells = [c.cell_contents for c in (x.__closure__ or ()) if _has(c)]
        return ("function", id(x), [state(v, seen, depth + 1) for v in cells if not hasattr(v, "__path__")])
    if hasattr(x, "__self__"):
        return ("method", x.__name__, state(x.__self__, seen, depth + 1))
    if hasattr(x, "__dict__"):
        return (type(x).__name__, [(k, state(v, seen, depth + 1)) for k, v in sorted(vars(x).items())])
    return (type(x).__name__,)


def _has(c):
    try:
        c.cell_contents
        return True
    except ValueError:
        return False


def diff(a, b, path=""):
    """Where two states differ first."""
    if type(a) is not type(b):
        return path
    if isinstance(a, (tuple, list)):
        if len(a) != len(b):
            return path
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                n = x[0] if isinstance(x, tuple) and x and isinstance(x[0], str) else i
                return diff(x, y, f"{path}/{n}")
        return None
    return path if a != b else None
