"""C03: a parallel mesh does not depend on message timing."""
import numpy as np
from scipy.spatial import Delaunay

from .. import engine, job, work
from . import c01, c07, c08

CASES = dict(quick=240, thorough=3000)
RULE = ("random mesh workload on 2..6 ranks run once under the calm schedule (lowest runnable rank first, messages at once, buffered sends, "
        "true clocks) and twice under random strategies, send buffering, clock skews and jumps; the root meshes must be identical; "
        "in 4 of 10 cases a ghost exchange or gather of random parts instead; "
        "non-trivial: the compared schedules differ")
REAL, STUB, ASSUMPTIONS = c01.REAL, c01.STUB, c01.ASSUMPTIONS


def generate(rng, i, tier):
    k = rng.random()
    if k < 0.4:
        m, k = (c07, "exchange") if k < 0.2 else (c08, "gather")
        c = m.generate(rng, i, tier)
        while c["n"] < 2:
            c = m.generate(rng, i, tier)
        if k == "exchange" and c["mode"] != "cloud":
            c.update(mode="cloud", scale=1.0, gap=0.05, thick=1.0, m=[rng.randrange(8, 60) for _ in range(c["n"])], pad=0.0)
        c["what"] = k
        return c
    n = rng.choice((2, 3, 3, 4, 4, 5, 6)) if rng.random() < 0.98 else rng.choice((7, 9))
    s = job.gen_sched(rng)
    s["clock"] = rng.random() < 0.7
    w = work.gen_mesh(rng, n, iters=(1, 2, 3, 4, 6), exotic=0.15, long=0.02, beyond=0.08) if rng.random() < 0.85 else c01.segy_workload(rng, n)
    return dict(n=n, w=w, sched=s)


def execute(run):
    c = run.case
    if "what" in c:
        return parts(run)

    def fn(sm, comm):
        return work.mesh(sm, comm, c["w"])

    a = job.job(run, c["n"], fn, record=False)
    job.must_finish(a, "calm schedule")
    extra = dict(c["sched"], strategy="uniform", rndv="random")
    b2 = job.job(run, c["n"], fn, extra, c["seed"] + 1, replay=None, record=False)
    b = job.job(run, c["n"], fn, c["sched"], c["seed"])
    run.nontrivial = a.hash != b.hash
    for what, w in (("schedule", b), ("second schedule", b2)):
        job.must_finish(w, what)
        (p0, t0), (p1, t1) = a.ranks[0].result, w.ranks[0].result
        run.check(p0.shape == p1.shape and t0.shape == t1.shape, "timing-dependent",
                  lambda: f"{what}: {p0.shape}/{t0.shape} when calm, {p1.shape}/{t1.shape} now")
        run.check(np.array_equal(p0, p1) and np.array_equal(t0, t1), "timing-dependent",
                  lambda: f"{what}: {int((p0 != p1).any(axis=1).sum())} vertices and {int((t0 != t1).any(axis=1).sum())} cells differ")
    run.event("res", engine.digest(p0.tobytes(), t0.tobytes()))


def parts(run):
    c = run.case
    if c["what"] == "gather":
        given = c08.dealer(c)(c, 0)

        def fn(sm, comm):
            me = comm.Get_rank()
            return sm.migration.aggregate(given[me][0].copy(), given[me][1].copy(), comm, c["n"], me, dim=c["dim"])
    else:
        p = c07.slabs(c)
        ext = [[*map(float, q.min(axis=0)), *map(float, q.max(axis=0))] for q in p]
        tri = [Delaunay(q).simplices.astype(np.int32) for q in p]

        def fn(sm, comm):
            me = comm.Get_rank()
            ex = sm.migration.enqueue([list(e) for e in ext], p[me].copy(), tri[me].copy(), me, c["n"], dim=c["dim"])
            return (np.array(sm.migration.exchange(comm, me, c["n"], ex, dim=c["dim"])), np.zeros(0))

    a = job.job(run, c["n"], fn, record=False)
    job.must_finish(a, "calm schedule")
    b = job.job(run, c["n"], fn, c["sched"], c["seed"])
    job.must_finish(b, "schedule")
    run.nontrivial = a.hash != b.hash
    for ra, rb in zip(a.ranks, b.ranks):
        if not job.arrays_of(ra.result):
            continue
        run.check(all(x.shape == y.shape and np.array_equal(x, y) for x, y in zip(ra.result, rb.result)), "timing-dependent",
                  lambda: f"{c['what']}: rank {ra.wrank} gets other data, or in another order, than when calm")
        run.event("res", ra.wrank, engine.digest(*(np.ascontiguousarray(x).tobytes() for x in rb.result)))


def shrinks(c):
    if "what" in c:
        yield from (c07 if c["what"] == "exchange" else c08).shrinks(c)
    else:
        yield from c01.shrinks(c)
