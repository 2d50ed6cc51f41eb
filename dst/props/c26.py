"""C26: the incremental triangulation classes after any history of operations."""
import itertools
import traceback

import numpy as np

from .. import engine, env, faults
from . import c17

SHIM = True
PACKAGES = 1
CASES = dict(quick=700, thorough=20000)
RULE = ("a history of 4 to 29 operations (insert, move, remove, copies returned by move and remove, queries, dropping an object) interleaved over up to three triangulations in 2D or 3D with random, lattice, "
        "collinear, cocircular and coinciding points, some operations with an allocation refused; non-trivial: at least three operations changed a triangulation that has cells")
REAL = ["C++ triangulation classes with CGAL", "pybind11 bindings"]
STUB = ["operator new of the extensions (preloaded shim), which refuses some requests"]
ASSUMPTIONS = ["indices given to move and remove are valid and distinct", "a triangulation whose own operation ran out of memory is not used further",
               "no vertex of a 3D triangulation is moved when all vertices are in one plane, or would be then (CGAL 5.6 may leave it unsearchable, depending on memory addresses)", "3D histories end with the first refused allocation (CGAL's thread-local insertion table stays dirty)"]
Q = 1 << 18   # coordinates are multiples of 1/Q, so that the oracle can be exact


def generate(rng, i, tier):
    dim = rng.choice((2, 2, 3))
    ops = []
    top = 40 if dim == 2 else 26
    starved = rng.random() < 0.35
    for at in range(rng.randrange(4, 30)):
        k = rng.choice(("insert", "insert", "insert", "move", "move", "move", "move", "remove", "copy", "edges", "edges", "iterate", "empty", rng.choice(("edges", "drop"))))
        ops.append(dict(k=k if at else "insert", o=rng.choice((0, 0, 0, 1, 2)), n=rng.choice((1, 2, 3, rng.randrange(1, top), rng.randrange(1, top))),
                        kind=rng.choice(("random", "random", "random", "lattice", "lattice", "line", "circle", "same", "near")) if at else "random",
                        look=rng.random() < 0.6, seed=rng.randrange(1 << 30), refuse=rng.random() if starved and rng.random() < 0.15 else None))
    return dict(dim=dim, ops=ops)


def points(rng, o, n, dim, known):
    k = o["kind"]
    if k == "random":
        p = rng.random((n, dim))
    elif k == "lattice":
        p = rng.integers(0, 5, (n, dim)) / 4.0
    elif k == "line":
        p = np.repeat(rng.integers(0, 9, (n, 1)) / 8.0, dim, axis=1)
    elif k == "circle":
        c = np.array([(3, 4), (4, 3), (5, 0), (0, 5), (-3, 4), (-4, 3), (3, -4), (4, -3), (-3, -4), (-4, -3), (-5, 0), (0, -5)]) / 16.0
        p = np.zeros((n, dim))
        p[:, :2] = c[rng.integers(0, len(c), n)]
        if dim == 3:
            p[:, 2] = rng.integers(0, 2, n) / 2.0
    elif k == "same" and len(known):
        p = known[rng.integers(0, len(known), n)]
    elif k == "near" and len(known):
        p = known[rng.integers(0, len(known), n)] + rng.integers(-2, 3, (n, dim)) / Q
    else:
        p = rng.random((n, dim))
    return np.round(p * Q) / Q


def det(m):
    """Determinants of an array (..., k, k) of any numbers."""
    k = m.shape[-1]
    if k == 1:
        return m[..., 0, 0]
    out = 0
    for j in range(k):
        c = [x for x in range(k) if x != j]
        out = out + (-1) ** j * m[..., 0, j] * det(m[..., 1:, :][..., c])
    return out


def signs(m):
    """Exact signs of determinants of integer matrices, by floats where these suffice."""
    f = m.astype(float)
    d = det(f)
    k = m.shape[-1]
    bound = np.ones(d.shape)
    for r in range(k):
        bound = bound * np.abs(f[..., r, :]).sum(axis=-1)
    s = np.sign(d).astype(int)
    bad = np.abs(d) <= 1e-13 * bound
    if bad.any():
        s[bad] = [int(x > 0) - int(x < 0) for x in det(m[bad].astype(object))]
    return s


def orient(p, t):
    return signs(p[t[:, 1:]] - p[t[:, :1]])


def check_cells(run, p, t, dim, what):
    n = len(p)
    run.check(t.ndim == 2 and t.shape[1] == dim + 1, "cells", f"{what}: cells have shape {t.shape}")
    if len(t) == 0:
        r = np.linalg.matrix_rank((p - p[0]).astype(float)) if n else 0
        run.check(r < dim, "cells", f"{what}: {n} vertices in general position and no cell")
        return
    run.check(t.min() >= 0 and t.max() < n, "indices", lambda: f"{what}: vertex numbers {t.min()}..{t.max()} of {n}")
    run.check(len(np.unique(t)) == n, "cells", lambda: f"{what}: {n - len(np.unique(t))} vertices in no cell")
    run.check((orient(p, t) > 0).all(), "orientation", lambda: f"{what}: cell {t[np.argmin(orient(p, t) > 0)]} is flat or inverted")
    # facets: twice inside, once on the hull, where nothing lies beyond
    seen = {}
    for c in t.tolist():
        for i in range(dim + 1):
            seen.setdefault(tuple(sorted(c[:i] + c[i + 1:])), []).append((c, i))
    hull = []
    for f, owners in seen.items():
        run.check(len(owners) <= 2, "facets", lambda: f"{what}: facet {f} in {len(owners)} cells")
        if len(owners) == 1:
            hull.append(owners[0])
    c = np.repeat(np.array([h[0] for h in hull])[:, None], n, axis=1)
    for j, (_, i) in enumerate(hull):
        c[j, :, i] = np.arange(n)
    s = orient(p, c.reshape(-1, dim + 1))
    run.check((s >= 0).all(), "hull", lambda: f"{what}: vertex {int(np.argmax(s < 0) % n)} lies outside the triangulation")
    # no vertex strictly inside a cell's circumball
    a = p[t][:, :, None] - p[None, None]                     # cells, corners, vertices, dim
    a = np.moveaxis(a, 2, 1)
    m = np.concatenate([a, (a * a).sum(axis=-1, keepdims=True)], axis=-1).reshape(-1, dim + 1, dim + 1)
    s = signs(m) * (1 if dim == 2 else -1)
    run.check((s <= 0).all(), "not-delaunay", lambda: f"{what}: vertex {int(np.argmax(s > 0) % n)} inside the circumball of cell {t[int(np.argmax(s > 0) // n)].tolist()}")


def judge(run, dt, model, dim, what):
    n = dt.number_of_vertices()
    run.check(n == len(model), "counts", lambda: f"{what}: number_of_vertices {n}, expected {len(model)}")
    v = dt.get_finite_vertices()
    t = dt.get_finite_cells()
    run.check(v.dtype == np.float64 and v.shape == (len(model), dim), "vertices", lambda: f"{what}: {v.shape} vertices, expected {len(model)}")
    run.check(sorted(map(tuple, v.tolist())) == sorted(model), "vertices",
              lambda: f"{what}: lost {sorted(set(model) - set(map(tuple, v.tolist())))[:3]}, invented {sorted(set(map(tuple, v.tolist())) - set(model))[:3]}")
    m = dt.number_of_faces() if dim == 2 else dt.number_of_cells()
    run.check(m == len(t), "counts", lambda: f"{what}: {m} cells counted, {len(t)} given")
    scale = np.abs(v).max() if len(v) else 1.0
    p = np.round(v * Q).astype(np.int64)
    assert scale < 1 << 20 and (p == v * Q).all()
    check_cells(run, p, t.astype(np.int64), dim, what)
    again = dt.get_finite_vertices(), dt.get_finite_cells()
    run.check(again[0].tobytes() == v.tobytes() and again[1].tobytes() == t.tobytes(), "query-changes", f"{what}: asked twice, answered differently")
    return v, t


def walk(dt, dim):
    return np.array([(x.point.x, x.point.y) + ((x.point.z,) if dim == 3 else ()) for x in dt.finite_vertices()]).reshape(-1, dim)


def flat(points):
    p = np.array(list(points))
    return len(p) < 4 or np.linalg.matrix_rank((p - p[0]) * Q) < 3


def new(sm, dim):
    import sys

    g = sys.modules["SeismicMesh.generation.mesh_generator"]
    return g._select_cgal_dim(dim)()


def edges_of(t, dim):
    return {tuple(sorted(e)) for c in t.tolist() for e in itertools.combinations(c, 2)}


def execute(run):
    r, died = faults.fork(lambda: history(run.case))
    run.check(r is not None, "crash", lambda: f"the process died: {died}")
    if r["harness"]:
        raise env.HarnessError(r["harness"])
    run.event(r["log"])
    for k, n in r["probes"].items():
        run.probe(k, n)
    for k, n in r["faults"].items():
        run.fault(k, n)
    run.steps, run.nontrivial = r["steps"], r["nontrivial"]
    if r["violation"]:
        raise engine.Violation(*r["violation"])


def history(case):
    run = engine.Run(case)
    v = harness = None
    try:
        _history(run)
    except engine.Violation as e:
        v = e.cls, e.detail
    except Exception:
        harness = traceback.format_exc()
    return dict(log=run.log.hexdigest(), probes=run.probes, faults=run.faults, steps=run.steps, nontrivial=run.nontrivial, violation=v, harness=harness)


def _history(run):
    from .. import job

    c, sm = run.case, job.module()
    dim = c["dim"]
    rs = faults.extension_ranges([m.__file__ for m in c17._extension_modules() if "_delaunay_class" in m.__file__])
    dts, models = [None] * 3, [None] * 3
    changed = 0
    for at, o in enumerate(c["ops"]):
        rng = np.random.default_rng(o["seed"])
        i = o["o"]
        if dts[i] is None:
            dts[i], models[i] = new(sm, dim), []
        dt, what = dts[i], f"operation {at} ({o['k']} on triangulation {i})"
        if o["look"] or o["k"] == "edges":
            v, t = judge(run, dt, models[i], dim, "before " + what)
        else:
            v, t = walk(dt, dim), None
        n, k = min(o["n"], len(v)), o["k"]
        model, result = list(models[i]), None
        p = points(rng, o, o["n"], dim, v)
        pick = [int(x) for x in rng.permutation(len(v))[:n]]
        if k == "empty":
            k, p, pick = ("insert", "move", "remove")[o["seed"] % 3], p[:0], []
        if k == "insert":
            for q in map(tuple, p.tolist()):
                if q not in model:
                    model.append(q)
            op = lambda: dt.insert(p.ravel().tolist())
        elif k == "move":
            p = p[:len(pick)]
            where = {j: tuple(v[j].tolist()) for j in range(len(v))}
            for m, (j, q) in enumerate(zip(pick, map(tuple, p.tolist()))):
                if q == where[j]:
                    continue
                then = dict(where)
                then[j] = q
                if q in where.values():      # it meets another vertex, which stays
                    del then[j]
                if dim == 3 and (flat(where.values()) or flat(then.values())):
                    # CGAL's 3D move in, from or into a plane leaves a triangulation that it may not be able to search
                    pick, p = pick[:m], p[:m]
                    break
                where = then
            model = list(where.values())
            op = lambda: dt.move(pick, p.ravel().tolist())
        elif k == "remove":
            model = [tuple(v[j].tolist()) for j in range(len(v)) if j not in pick]
            op = lambda: dt.remove(pick)
        elif k == "copy":
            op = lambda: dt.move([], [])
        elif k == "edges":
            some = [int(x) for x in rng.random(len(t)) < rng.random()]
            e = dt.get_edges(some)
            got = [tuple(sorted(x)) for x in e.tolist()]
            want = edges_of(t[np.array(some, dtype=bool)] if len(t) else t, dim)
            run.check(sorted(got) == sorted(want), "edges", lambda: f"{what}: lost {sorted(want - set(got))[:3]}, invented {sorted(set(got) - want)[:3]}, {len(got) - len(set(got))} repeated")
            op = None
        elif k == "iterate":
            run.check(walk(dt, dim).tolist() == dt.get_finite_vertices().tolist(), "vertices", f"{what}: the iterator gives other vertices")
            op = None
        else:                 # an iterator outlives what it walks over
            it = dt.finite_vertices()
            dt = dts[i] = models[i] = None
            other = new(sm, dim)
            other.insert(np.arange(40.0 * dim).tolist())
            got = [(x.point.x, x.point.y) + ((x.point.z,) if dim == 3 else ()) for x in it]
            run.check(got == list(map(tuple, v.tolist())), "vertices", f"{what}: the iterator gives other vertices after its triangulation was dropped")
            run.event(at, "drop")
            continue
        run.steps += 1
        if op is None:
            run.event(at, k)
            continue
        err = None
        if o["refuse"] is None:
            result = op()
        else:
            nth = 1 + int(o["refuse"] * max(1, 4 * max(len(v), len(p), 1)) ** o["refuse"])
            with faults.Alloc(rs, nth, 1, 0) as a:
                try:
                    result = op()
                except MemoryError as e:
                    err = type(e).__name__
                except Exception as e:
                    raise engine.Violation("wrong-error", f"{what} with allocation {nth} refused: {job.describe(e)}")
            if a.fired:
                run.fault("allocation_refused", 1)
        run.event(at, k, err)
        if err:
            dts[i] = models[i] = None
            if dim == 3:
                break
            continue
        if k == "insert":
            run.check(result == len(model) - len(models[i]), "counts", lambda: f"{what}: says {result} points were inserted, {len(model) - len(models[i])} are new")
        models[i] = model
        full = not flat(model) if dim == 3 else len(model) > 2
        if o["look"]:
            full = len(judge(run, dt, model, dim, "after " + what)[1])
        changed += bool(full) and k in ("insert", "move", "remove")
        run.probe(k)
        run.probe("coinciding_points", int(k == "move" and len(model) < len(v)))
        run.probe("flat", int(not full and len(model) > dim))
        if k in ("move", "remove", "copy"):
            j = (i + 1 + o["seed"] % 2) % 3    # the returned one goes its own way
            if o["look"]:
                judge(run, result, model, dim, f"what {what} returned")
            dts[j], models[j] = result, list(model)
    for i in range(3):
        if dts[i] is not None:
            judge(run, dts[i], models[i], dim, f"triangulation {i} at the end")
    run.nontrivial = changed >= 3


def shrinks(c):
    o = c["ops"]
    for i in range(len(o)):
        yield dict(c, ops=o[:i] + o[i + 1:])
    for i in range(len(o)):
        if o[i]["refuse"] is not None:
            yield dict(c, ops=o[:i] + [dict(o[i], refuse=None)] + o[i + 1:])
        if o[i]["n"] > 1:
            yield dict(c, ops=o[:i] + [dict(o[i], n=o[i]["n"] // 2)] + o[i + 1:])
