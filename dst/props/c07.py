"""C07: ghost exchange delivers exactly what each neighbour was sent."""
import collections

import numpy as np
from scipy.spatial import Delaunay

from .. import engine, job, work
from . import c01

CASES = dict(quick=2500, thorough=60000)
RULE = ("(a) random local triangulations of 2..6 slabs (random clouds, gaps between slabs, thin and one-layer slabs, any scale and origin, nearly all or no vertices needed by a neighbour): enqueue and "
        "exchange under a random schedule; (b) random export tables with random counts per direction, none and tens of thousands included; non-trivial: at least one ghost travelled")
REAL, STUB, ASSUMPTIONS = c01.REAL, c01.STUB, c01.ASSUMPTIONS


def round_number(rng, top=0.02):
    """A number near a power of two or of ten."""
    k = rng.choice((16, 32, 50, 64, 100, 128, 200, 256, 500, 512, 1000, 1024, 2000, 2048, 4096))
    if rng.random() < top:
        k = rng.choice((5000, 8192, 10000, 16384, 32768, 50000, 65536, 100000))
    return k * rng.choice((1, 1, 1, 2, 3)) + rng.choice((0, 0, 0, -1, 1))


def generate(rng, i, tier):
    n = rng.choice((2, 2, 3, 3, 4, 5, 6)) if rng.random() < 0.97 else rng.choice((7, 9, 12))
    dim = rng.choice((2, 3))
    c = dict(n=n, dim=dim, axis=rng.randrange(dim), rs=rng.randrange(1 << 30), sched=job.gen_sched(rng), rounds=rng.choice((1, 2, 3)))
    if rng.random() < 0.4:
        c["mode"] = "table"
        c["counts"] = [[rng.choice((0, 0, 1, 2, 5, 40)) for _ in range(2)] for _ in range(n)]
        if rng.random() < 0.5:   # round numbers, where pieces of a message would end
            c["counts"] = [[round_number(rng) if rng.random() < 0.5 else v for v in a] for a in c["counts"]]
    else:
        c["mode"] = "cloud"
        c["gap"] = rng.choice((0.0, 0.05, 0.05, 1.0, 10.0))
        c["thick"] = rng.choice((0.05, 0.3, 1.0, 1.0, 4.0))
        c["m"] = [rng.randrange(dim + 2, 40) for _ in range(n)]
        c["pad"] = rng.choice((0.0, 0.0, 0.2))
        c["scale"] = rng.choice((1.0, 1.0, 1.0, 1e-4, 1e5))
        c["off"] = rng.choice((0.0, 0.0, -3.0, 1e4))
    if i % 250 == 100:
        c.update(mode="table", counts=[[rng.choice((0, 300, 5000, 20000, 70000)) for _ in range(2)] for _ in range(n)], rounds=1)
    return c


def slabs(c):
    rs = np.random.RandomState(c["rs"])
    out, at = [], 0.0
    for r in range(c["n"]):
        p = rs.rand(c["m"][r], c["dim"])
        p[:, c["axis"]] = at + c["thick"] * p[:, c["axis"]]
        at += c["thick"] + c["gap"]
        out.append(c.get("scale", 1.0) * (p + c.get("off", 0.0)))
    return out


def circum(p, t):
    a = p[t[:, 0]]
    e = p[t[:, 1:]] - a[:, None]
    b = 0.5 * (e ** 2).sum(axis=2)
    x = np.linalg.solve(e, b[:, :, None])[:, :, 0]
    return a + x, (x ** 2).sum(axis=1)


def reaching(p, t, ext):
    """Vertices of cells whose circumball clearly reaches into the box."""
    d = p.shape[1]
    c, r2 = circum(p, t)
    lo, hi = np.array(ext[:d]), np.array(ext[d:])
    gap = np.maximum(np.maximum(lo - c, c - hi), 0.0)
    hit = (gap ** 2).sum(axis=1) < r2 * (1 - 1e-6)
    return np.unique(t[hit])


def rows(a):
    return collections.Counter(tuple(x) for x in np.asarray(a, float).tolist())


def execute(run):
    (table if run.case["mode"] == "table" else cloud)(run)


def table(run):
    c = run.case
    n, dim = c["n"], c["dim"]
    rs = np.random.RandomState(c["rs"])
    tabs = []
    for k in range(c["rounds"]):
        per = []
        for r in range(n):
            nb, na = c["counts"][(r + k) % n]
            a = np.zeros((1 + nb + na, dim + 1))
            a[0, :2] = nb, na
            a[1:, :dim] = rs.rand(nb + na, dim)
            a[1:, dim] = np.arange(nb + na)
            per.append(a)
        tabs.append(per)

    def fn(sm, comm):
        me = comm.Get_rank()
        return [np.array(sm.migration.exchange(comm, me, n, tabs[k][me].copy(), dim=dim)) for k in range(c["rounds"])]

    w = job.job(run, n, fn, c["sched"], c["seed"])
    job.must_finish(w)
    job.no_leftover(w)
    for k in range(c["rounds"]):
        for r in range(n):
            want = collections.Counter()
            if r + 1 < n:
                t = tabs[k][r + 1]
                want += rows(t[1:1 + int(t[0, 0]), :dim])
            if r > 0:
                t = tabs[k][r - 1]
                want += rows(t[1 + int(t[0, 0]):, :dim])
            got = rows(w.ranks[r].result[k].reshape(-1, dim))
            run.nontrivial |= bool(want)
            run.check(got == want, "misdelivered",
                      lambda: f"round {k}, rank {r}: {sum((want - got).values())} vertices missing, {sum((got - want).values())} not addressed to it")
            run.event("got", k, r, sorted(got.items()))
    run.probe("empty_direction", sum(1 for a in c["counts"] for b in a if b == 0))


def cloud(run):
    c = run.case
    n, dim = c["n"], c["dim"]
    p = slabs(c)
    ext = [[*q.min(axis=0), *q.max(axis=0)] for q in p]
    for e in ext:
        e[c["axis"]] -= c["pad"] * c["scale"]
        e[c["axis"] + dim] += c["pad"] * c["scale"]
    tri = [Delaunay(q).simplices.astype(np.int32) for q in p]

    def fn(sm, comm):
        me = comm.Get_rank()
        ex = sm.migration.enqueue([list(map(float, e)) for e in ext], p[me].copy(), tri[me].copy(), me, n, dim=dim)
        return np.array(sm.migration.exchange(comm, me, n, ex, dim=dim))

    w = job.job(run, n, fn, c["sched"], c["seed"])
    job.must_finish(w)
    job.no_leftover(w)
    for r in range(n):
        got = rows(w.ranks[r].result.reshape(-1, dim))
        may, must = collections.Counter(), collections.Counter()
        for nb in (r - 1, r + 1):
            if 0 <= nb < n:
                may += rows(p[nb])
                must += rows(p[nb][reaching(p[nb], tri[nb], ext[r])])
        run.nontrivial |= bool(must)
        run.check(not (got - may), "misdelivered", lambda: f"rank {r}: {sum((got - may).values())} of the vertices received are not its neighbours' (or came twice)")
        run.check(not (must - got), "missing-ghost", lambda: f"rank {r}: {sum((must - got).values())} of {sum(must.values())} vertices of cells reaching into its extents were not sent")
        run.event("got", r, sorted(got.items()))
        run.probe("ghosts", sum(got.values()))
        run.probe("all_vertices_sent", got == may)


def shrinks(c):
    if c["rounds"] > 1:
        yield dict(c, rounds=1)
    if c["n"] > 2:
        k = dict(c, n=c["n"] - 1)
        for f in ("counts", "m"):
            if f in c:
                k[f] = c[f][:-1]
        yield k
    if "m" in c and max(c["m"]) > c["dim"] + 2:
        yield dict(c, m=[max(c["dim"] + 2, v // 2) for v in c["m"]])
    if "counts" in c and max(map(max, c["counts"])) > 1:
        yield dict(c, counts=[[min(v, 1) for v in a] for a in c["counts"]])


assert engine and work
