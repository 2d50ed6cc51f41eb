"""Runs simulated MPI jobs on behalf of a property module."""
import hashlib

import numpy as np

from . import engine, env, mpi, sched

PACKAGES = []


def preload(n):
    """Independent package instances, one per simulated rank, made before the
    case processes are forked."""
    env.setup_import()
    mpi.install()
    while len(PACKAGES) < n:
        PACKAGES.append(env.fresh_package())
    env.swap_package(PACKAGES[0])


def module(i=0):
    return PACKAGES[i][env.PKG]


def gen_sched(rng):
    return dict(strategy=rng.choice(sched.STRATEGIES[:6]),
                rndv=rng.choice(("eager", "rendezvous", "size", "random")),
                clock=rng.random() < 0.4)


CALM = dict(strategy="calm", rndv="eager", clock=False)


def job(run, n, fn, s=None, seed=0, replay="case", max_steps=60000, record=True, fns=None, tap=None, on_world=None):
    """One simulated job of n ranks running fn(sm, comm).  With replay="case"
    the run's recorded decisions (if any) are used."""
    s = s or CALM
    rep = run.replay if replay == "case" else replay
    if rep is not None and s["strategy"] == "calm" and replay == "case":
        rep = None
    d = sched.Decider(seed, s["strategy"], s["rndv"], s["clock"], replay=rep)
    preload(n)   # no more than there are already, but for the rare big worlds
    w = mpi.World(n, fns or [fn] * n, d, PACKAGES[:n], max_steps=max_steps)
    w.tap = tap
    if on_world:
        on_world(w)
    w.run()
    run.sim_time += w.now
    run.steps += w.steps
    h = hashlib.sha256(repr(w.trace).encode()).hexdigest()
    run.event("job", n, w.steps, h)
    w.hash = h
    if record and s["strategy"] != "calm":
        run.decisions = list(d.rec)
        run.trace = [list(map(str, t)) for t in w.trace[-300:]]
        run.fault("slow_or_stalled_rank", 1 if s["strategy"] in ("starve", "priority") else 0)
        run.fault("message_delayed_behind_others", reorders(w.trace))
        run.fault("rendezvous_send", w.stats["rendezvous"])
        run.fault("eager_send", w.stats["eager"])
        run.fault("clock_skew", n if s["clock"] else 0)
        run.fault("clock_jump", w.stats["clock_jump"])
        run.probe("messages", w.stats["sent"])
    return w


def reorders(trace):
    """Messages delivered after one that was sent later."""
    sent, n, order, hi = {}, 0, 0, -1
    pend = {}
    for ev in trace:
        if ev[0] == "snd":
            pend.setdefault((ev[1], ev[2], ev[3], ev[5]), []).append(order)
            order += 1
        elif ev[0] == "dlv":
            q = pend.get((ev[1], ev[2], ev[3], ev[5]))
            if q:
                o = q.pop(0)
                if o < hi:
                    n += 1
                hi = max(hi, o)
    return n


def describe(e):
    return f"{type(e).__name__}: {e}"


def must_finish(w, what="the job"):
    """Every rank returned, nothing deadlocked, no usage error."""
    V = engine.Violation
    if w.mismatch:
        raise V("collective-mismatch", f"{what}: {w.mismatch[:2]}")
    if w.overrun:
        raise V("livelock", f"{what}: no end after {w.steps} scheduler steps")
    failed = [(r.wrank, describe(r.error)) for r in w.ranks if r.state == "failed"]
    if w.deadlock:
        raise V("deadlock", f"{what}: {w.deadlock}" + (f"; failed ranks: {failed}" if failed else ""))
    if failed:
        raise V("rank-raised", f"{what}: {failed}")


def all_or_none(w, what="the job"):
    """Either all ranks return or all raise; -> list of errors or None."""
    V = engine.Violation
    if w.mismatch:
        raise V("collective-mismatch", f"{what}: {w.mismatch[:2]}")
    if w.overrun:
        raise V("livelock", f"{what}: no end after {w.steps} scheduler steps")
    failed = [(r.wrank, describe(r.error)) for r in w.ranks if r.state == "failed"]
    if w.deadlock:
        raise V("deadlock", f"{what}: {w.deadlock}; failed ranks: {failed}")
    if failed and len(failed) != len(w.ranks):
        raise V("partial-failure", f"{what}: only some ranks raised: {failed}")
    return [r.error for r in w.ranks] if failed else None


def no_leftover(w, what="the job"):
    if w.leftover:
        raise engine.Violation("stale-message", f"{what}: never received: {w.leftover[:4]}")


def arrays_of(x):
    return isinstance(x, tuple) and len(x) == 2 and all(isinstance(a, np.ndarray) for a in x)
