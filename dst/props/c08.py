"""C08: gathering on the root is the exact union of the ranks' meshes."""
import collections

import numpy as np
from scipy.spatial import Delaunay

from .. import engine, job, work
from . import c01, c07

CASES = dict(quick=2500, thorough=60000)
RULE = ("a random Delaunay mesh is dealt out to 1..6 ranks (slabs, random assignment, very uneven or single-cell parts, ranks left without cells, overlapping parts, "
        "unused vertices in the local tables; rarely: parts of more than 2^15 or 2^16 vertices, or of exactly so many vertices or cells as a power of two or ten, or one off) and gathered under a random schedule; non-trivial: more than one rank")
REAL, STUB, ASSUMPTIONS = c01.REAL, c01.STUB, c01.ASSUMPTIONS


def generate(rng, i, tier):
    if i % 400 == 150:
        n = rng.choice((2, 2, 3))
        return dict(n=n, dim=2, big=[rng.choice((190, 200, 260)) if r == 0 or rng.random() < 0.5 else rng.randrange(2, 40) for r in range(n)],
                    sched=job.gen_sched(rng), rounds=1)
    n = rng.choice((1, 2, 2, 3, 4, 5, 6)) if rng.random() < 0.97 else rng.choice((7, 9, 12))
    return dict(n=n, dim=rng.choice((2, 3)), m=rng.randrange(12, 150), rs=rng.randrange(1 << 30), sched=job.gen_sched(rng),
                deal=rng.choice(("slab", "random", "uneven", "single", "equal")), overlap=rng.random() < 0.4, junk=rng.random() < 0.6,
                none=rng.sample(range(n), rng.randrange(1, n)) if n > 1 and rng.random() < 0.15 else [],
                rounds=rng.choice((1, 1, 2)), whole=rng.random() < 0.1,
                sizes=[c07.round_number(rng, 0.005) for _ in range(n)] if rng.random() < 0.07 else None, of=rng.choice(("vertices", "cells")))


def deal(c, k):
    rs = np.random.RandomState(c["rs"] + k)
    n, dim = c["n"], c["dim"]
    p = rs.rand(max(c["m"], 4 * n), dim)
    t = Delaunay(p).simplices
    mid = p[t].mean(axis=1)
    if c["deal"] == "slab":
        own = np.minimum((mid[:, 0] * n).astype(int), n - 1)
    elif c["deal"] == "random":
        own = rs.randint(0, n, len(t))
    elif c["deal"] == "uneven":
        own = np.where(rs.rand(len(t)) < 0.9, rs.randint(0, n), rs.randint(0, n, len(t)))
    elif c["deal"] == "equal":
        own = np.arange(len(t)) % n
    else:
        own = np.zeros(len(t), int) + rs.randint(0, n)
        own[:n] = np.arange(n)
    own[:n] = np.arange(n)   # at least one cell each
    parts = []
    for r in range(n):
        mine = own == r
        if c["overlap"]:
            mine = mine | (rs.rand(len(t)) < 0.05)
        tt = t[mine]
        if r in c.get("none", []):    # its cells were all outside the domain
            tt = tt[:0]
        used = np.arange(len(p)) if c["junk"] or not len(tt) else np.unique(tt)
        used = used[rs.permutation(len(used))]
        inv = np.full(len(p), -1)
        inv[used] = np.arange(len(used))
        parts.append((np.ascontiguousarray(p[used]), np.ascontiguousarray(inv[tt].astype(np.int32))))
    return parts


def deal_sizes(c, k):
    """Parts of given numbers of vertices or cells: rows of triangles, or fans of tetrahedra."""
    parts, d = [], c["dim"]
    for r, m in enumerate(c["sizes"]):
        m = max(m, d + 1)
        nt = m if c["of"] == "cells" else m - d
        i = np.arange(nt + d)
        p = np.zeros((nt + d, d))
        p[:, 0] = 1e6 * r + i
        p[:, 1] = i % 2 if d == 2 else np.cos(2.1 * i)
        if d == 3:
            p[:, 2] = np.sin(2.1 * i)
        t = np.stack([i[k:nt + k] for k in range(d + 1)], axis=-1)
        neg = np.linalg.det(p[t[:, 1:]] - p[t[:, :1]]) < 0
        t[neg, :2] = t[neg, 1::-1]
        parts.append((p, t.astype(np.int32)))
    return parts


def deal_big(c, k):
    parts = []
    for r, m in enumerate(c["big"]):
        p = np.stack(np.meshgrid(np.arange(m + 0.0), np.arange(m + 0.0), indexing="ij"), axis=-1).reshape(-1, 2) + [1000.0 * r, 0.0]
        i = np.arange(m * m, dtype=np.int32).reshape(m, m)
        t = [np.stack(x, axis=-1).reshape(-1, 3) for x in ((i[:-1, :-1], i[1:, :-1], i[1:, 1:]), (i[:-1, :-1], i[1:, 1:], i[:-1, 1:]))]
        parts.append((p, np.concatenate(t)))
    return parts


def dealer(c):
    return deal_big if "big" in c else deal_sizes if c.get("sizes") else deal


def cells(p, t):
    return collections.Counter(tuple(sorted(map(tuple, x))) for x in np.asarray(p)[np.asarray(t)].tolist())


def execute(run):
    c = run.case
    n, dim = c["n"], c["dim"]
    rounds = [dealer(c)(c, k) for k in range(c["rounds"])]

    def fn(sm, comm):
        me = comm.Get_rank()
        out = []
        for parts in rounds:
            a = sm.migration.aggregate(parts[me][0].copy(), parts[me][1].copy(), comm, n, me, dim=dim)
            out.append(a)
        return out

    w = job.job(run, n, fn, c["sched"], c["seed"])
    job.must_finish(w)
    job.no_leftover(w)
    run.nontrivial = n > 1
    for k, parts in enumerate(rounds):
        r = w.ranks[0].result[k]
        run.check(job.arrays_of(r), "no-result", lambda: f"rank 0 got {type(r)}")
        p, t = r
        run.check(t.ndim == 2 and t.shape[1] == dim + 1 and p.ndim == 2 and p.shape[1] == dim, "shape", lambda: f"{p.shape} {t.shape}")
        run.check(len(t) > 0 and t.min() >= 0 and t.max() < len(p), "index", lambda: f"cell indices {t.min()}..{t.max()} for {len(p)} vertices")
        have = cells(p, t)
        want = collections.Counter()
        for part in parts:
            want += cells(*part)
        # a cell that several ranks hold may arrive once or several times
        lost, extra = set(want) - set(have), set(have) - set(want)
        run.check(not lost and not extra, "not-the-union", lambda: f"round {k}: {len(lost)} cells lost, {len(extra)} cells invented, of {len(want)}")
        over = [x for x in have if have[x] > want[x]]
        run.check(not over, "duplicated", lambda: f"round {k}: {len(over)} cells more often than any rank sent them")
        run.event("res", k, engine.digest(np.ascontiguousarray(p).tobytes(), np.ascontiguousarray(t).tobytes()))
        run.note = dict(cells=[len(q[1]) for q in parts])


def shrinks(c):
    if "big" in c:
        return
    for n in sorted({2, c["n"] - 1}):
        if 2 <= n < c["n"]:
            yield dict(c, n=n, none=[r for r in c.get("none", []) if r < n][:n - 1], sizes=c["sizes"][:n] if c.get("sizes") else None)
    if c["rounds"] > 1:
        yield dict(c, rounds=1)
    if c["m"] > 12:
        yield dict(c, m=max(12, c["m"] // 2))
    for k in ("overlap", "junk"):
        if c[k]:
            yield dict(c, **{k: False})


assert work
