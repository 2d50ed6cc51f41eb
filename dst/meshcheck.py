"""Independent judgement of a mesh: plain numpy, none of the code under test."""
import itertools
import math

import numpy as np


def volumes(p, t):
    dim = p.shape[1]
    m = p[t[:, 1:]] - p[t[:, :1]]
    return np.linalg.det(m) / math.factorial(dim)


def facets(t):
    k = t.shape[1]
    f = np.concatenate([np.delete(t, i, axis=1) for i in range(k)])
    f = np.sort(f, axis=1)
    own = np.tile(np.arange(len(t)), k)
    return f, own


def facet_counts(t):
    f, own = facets(t)
    u, inv, cnt = np.unique(f, axis=0, return_inverse=True, return_counts=True)
    return u, cnt


def structure(p, t, flat=None):
    """Problems with the arrays as a simplicial complex; [] when sound."""
    bad = []
    if not (isinstance(p, np.ndarray) and isinstance(t, np.ndarray)):
        return [f"not arrays: {type(p).__name__}, {type(t).__name__}"]
    if p.ndim != 2 or t.ndim != 2 or t.shape[1] != p.shape[1] + 1:
        return [f"shapes {p.shape} {t.shape}"]
    if len(t) == 0:
        return ["no cells"]
    if not np.isfinite(p).all():
        bad.append("non-finite coordinates")
    if t.dtype.kind not in "iu":
        return bad + [f"cells of dtype {t.dtype}"]
    if t.min() < 0 or t.max() >= len(p):
        return bad + [f"cell index out of range: {t.min()}..{t.max()} of {len(p)}"]
    used = np.zeros(len(p), bool)
    used[t.ravel()] = True
    if not used.all():
        bad.append(f"{int((~used).sum())} unused vertices")
    ts = np.sort(t, axis=1)
    if (ts[:, 1:] == ts[:, :-1]).any():
        bad.append("cell with a repeated vertex")
    if len(np.unique(ts, axis=0)) != len(ts):
        bad.append("duplicate cells")
    if len(np.unique(p, axis=0)) != len(p):
        bad.append("duplicate vertices")
    v = volumes(p, t)
    if (v <= 0 if not flat else v < -flat).any():
        bad.append(f"{int((v <= 0).sum())} cells not positively oriented (min volume {v.min():.3g})")
    _, cnt = facet_counts(t)
    if cnt.max() > 2:
        bad.append(f"{int((cnt > 2).sum())} facets shared by more than two cells")
    return bad


def conforming(p, t):
    """Facets shared by more than two cells, or two cells on the same side of
    a shared facet (overlap)."""
    f, own = facets(t)
    k = t.shape[1]
    opp = np.concatenate([t[:, i] for i in range(k)])
    order = np.lexsort(f.T[::-1])
    f, own, opp = f[order], own[order], opp[order]
    same = (f[1:] == f[:-1]).all(axis=1)
    i = np.nonzero(same)[0]
    if len(i) == 0:
        return []
    a, b, c = p[f[i]], p[opp[i]], p[opp[i + 1]]
    e = a[:, 1:] - a[:, :1]
    s1 = np.linalg.det(np.concatenate([e, (b - a[:, 0])[:, None]], axis=1))
    s2 = np.linalg.det(np.concatenate([e, (c - a[:, 0])[:, None]], axis=1))
    n = int((s1 * s2 > 0).sum())
    return [f"{n} pairs of cells overlap across a shared facet"] if n else []


def boundary(p, t):
    u, cnt = facet_counts(t)
    return u[cnt == 1]


def canon(p, t=None):
    """Coordinates (and cells) in an order that depends on the content only."""
    p = np.asarray(p, float)
    o = np.lexsort(p.T[::-1])
    if t is None:
        return p[o]
    inv = np.empty(len(p), int)
    inv[o] = np.arange(len(p))
    tt = np.sort(inv[np.asarray(t)], axis=1)
    return p[o], tt[np.lexsort(tt.T[::-1])]


def cellset(p, t):
    """Cells as a set of coordinate tuples: indexing-free."""
    q = np.asarray(p)[np.asarray(t)]
    return {tuple(sorted(map(tuple, c.tolist()))) for c in q}


def pointset(p):
    return {tuple(x) for x in np.asarray(p, float).tolist()}


assert itertools
