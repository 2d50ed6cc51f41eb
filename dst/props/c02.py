"""C02: no message is left behind; calls on one communicator don't interfere."""
import os

from .. import engine, faults, files, job, meshcheck, work
from . import c01, c11

CASES = dict(quick=110, thorough=2500)
RULE = ("random sequence of 2..4 public parallel calls (meshes of different shape, sizing functions from arrays and files, sliver removal, writing a velocity model) on one communicator of "
        "2..5 ranks under a random schedule in which fast ranks enter the next call early; each call is also run alone; non-trivial: "
        "messages were exchanged and at least one rank entered a call while another was still in the previous one")
REAL, STUB, ASSUMPTIONS = c01.REAL, c01.STUB, c01.ASSUMPTIONS


def op(rng, n):
    k = rng.choice(("mesh", "mesh", "mesh", "segy", "sliver", "file"))
    if k == "mesh":
        return dict(op="mesh", w=work.gen_mesh(rng, n, iters=(1, 2, 3, 4), exotic=0.15, long=0.02, beyond=0.12))
    if k == "segy":
        return dict(op="mesh", w=c01.segy_workload(rng, n))
    if k == "file":
        o = c11.op(rng, "quick")
        while "file" not in o:
            o = c11.op(rng, "quick")
        return dict(op="file", o=o, id=rng.randrange(1 << 40))
    h = 0.3
    return dict(op="sliver", h=h, n=rng.randrange(60, 110), seed=rng.randrange(1 << 20), it=rng.choice((2, 3)))


def generate(rng, i, tier):
    n = rng.choice((2, 2, 3, 3, 4, 5)) if rng.random() < 0.97 else rng.choice((6, 8))
    return dict(n=n, ops=[op(rng, n) for _ in range(rng.choice((2, 2, 3, 4)))], sched=job.gen_sched(rng))


DIR = [None]   # where the files of a run are


def call(sm, comm, o):
    if o["op"] == "file":
        d, me = os.path.join(DIR[0], str(o["id"])), comm.Get_rank()
        if me == 0:
            os.makedirs(d, exist_ok=True)
            files.write(os.path.join(d, files.name(o["o"]["file"])), files.content(o["o"]["file"]))
        return c11.call(sm, comm, o["o"], d, me)
    if o["op"] == "mesh":
        return work.mesh(sm, comm, o["w"])
    pts = work.build_points(dict(kind="jitter", n=o["n"], seed=o["seed"], lo=[0, 0, 0], hi=[1, 1, 1]))
    return sm.sliver_removal(pts, sm.Cube((0.0, 1.0, 0.0, 1.0, 0.0, 1.0)), o["h"], comm=comm, max_iter=o["it"], verbose=0)


def summary(r):
    if isinstance(r, tuple) and (r[0] is None or isinstance(r[0], str)):
        return list(r)
    if not job.arrays_of(r):
        return None
    p, t = meshcheck.canon(*r)
    return engine.digest(p.tobytes(), t.tobytes())


def execute(run):
    with faults.scratch() as DIR[0]:
        _execute(run)


def _execute(run):
    c = run.case
    alone = []
    for k, o in enumerate(c["ops"]):
        w = job.job(run, c["n"], lambda sm, comm: call(sm, comm, o), record=False)
        job.must_finish(w, f"call {k} alone")
        job.no_leftover(w, f"call {k} alone")
        alone.append([summary(r.result) for r in w.ranks])
    depth = [0] * c["n"]
    early = [0]

    def fn(sm, comm):
        out = []
        for k, o in enumerate(c["ops"]):
            depth[comm.Get_rank()] = k
            early[0] += any(d < k for d in depth)
            out.append(summary(call(sm, comm, o)))
        return out

    w = job.job(run, c["n"], fn, c["sched"], c["seed"])
    run.probe("entered_next_call_early", early[0])
    run.nontrivial = early[0] > 0 and w.stats["sent"] > 4
    job.must_finish(w, "the sequence of calls")
    job.no_leftover(w, "the sequence of calls")
    for r in w.ranks:
        for k, o in enumerate(c["ops"]):
            run.check(r.result[k] == alone[k][r.wrank], "interference",
                      lambda: f"rank {r.wrank}: call {k} ({o['op']}) gives {r.result[k]} in the sequence, {alone[k][r.wrank]} alone")
    run.event("res", alone)


def shrinks(c):
    if c["n"] > 2:
        yield dict(c, n=2)
    if len(c["ops"]) > 1:
        for k in range(len(c["ops"])):
            yield dict(c, ops=c["ops"][:k] + c["ops"][k + 1:])
    for k, o in enumerate(c["ops"]):
        if o["op"] == "mesh":
            for w in work.shrink_mesh(o["w"]):
                yield dict(c, ops=c["ops"][:k] + [dict(o, w=w)] + c["ops"][k + 1:])

