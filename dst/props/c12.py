"""C12: a call communicates only within the communicator it was given."""
from .. import engine, faults, job, work
from . import c01, c02

CASES = dict(quick=220, thorough=5000)
RULE = ("the world of 2..6 ranks is split at random into groups (also of one rank, also with the ranks in another order), each with its own sequence of 1..2 public "
        "calls; each group's calls are also run alone in a world of their size; non-trivial: at least one group has more than one rank")
REAL, STUB, ASSUMPTIONS = c01.REAL, c01.STUB, c01.ASSUMPTIONS


def generate(rng, i, tier):
    n = rng.choice((2, 3, 3, 4, 4, 5, 6)) if rng.random() < 0.97 else rng.choice((8, 10))
    k = 1 if rng.random() < 0.12 else rng.randrange(2, min(n, 3) + 1)
    colors = list(range(k)) + [rng.randrange(k) for _ in range(n - k)]
    rng.shuffle(colors)
    groups = []
    for g in range(k):
        m = colors.count(g)
        groups.append([c02.op(rng, m) for _ in range(rng.choice((1, 1, 2)))])
    return dict(n=n, colors=colors, keys=[rng.randrange(100) for _ in range(n)] if rng.random() < 0.5 else list(range(n)),
                groups=groups, idle=rng.random() < 0.2, sched=job.gen_sched(rng))


def execute(run):
    with faults.scratch() as c02.DIR[0]:
        _execute(run)


def _execute(run):
    c = run.case
    n, colors = c["n"], c["colors"]
    alone = []
    for g, ops in enumerate(c["groups"]):
        m = colors.count(g)
        res = []
        for o in ops:
            w = job.job(run, m, lambda sm, comm: c02.call(sm, comm, o), record=False)
            job.must_finish(w, f"group {g} alone")
            res.append([c02.summary(r.result) for r in w.ranks])
        alone.append(res)
    marks = {}
    where = {}
    # with "idle", the ranks of the last group make no call at all
    idle = max(colors) if c["idle"] and max(colors) > 0 else None

    def fn(sm, comm):
        me = comm.Get_rank()
        sub = comm.Split(colors[me], c["keys"][me])
        marks[me] = len(w0[0].trace)
        where[me] = (colors[me], sub.Get_rank())
        if colors[me] == idle:
            return None
        return [c02.summary(c02.call(sm, sub, o)) for o in c["groups"][colors[me]]]

    w0 = [None]
    fns = [fn] * n
    w = _job(run, n, fns, c, w0)
    run.nontrivial = any(colors.count(g) > 1 for g in set(colors))
    # who talks to whom: only the creation of the groups happens in the world
    outside = [ev for k, ev in enumerate(w.trace) if ev[0] == "snd" and ev[1] == w.wcid and k >= marks.get(ev[2], 1 << 60)]
    run.check(not outside, "outside-communicator", lambda: f"messages in the world although the call was given a group: {outside[:3]}")
    job.must_finish(w, "the groups")
    job.no_leftover(w, "the groups")
    for r in w.ranks:
        g, sr = where[r.wrank]
        if g == idle:
            continue
        for k, o in enumerate(c["groups"][g]):
            run.check(r.result[k] == alone[g][k][sr], "interference",
                      lambda: f"group {g}, its rank {sr}: call {k} ({o['op']}) gives {r.result[k]}, {alone[g][k][sr]} alone")
    run.event("res", alone)
    run.probe("groups", len(set(colors)))
    run.probe("groups_of_one", sum(colors.count(g) == 1 for g in set(colors)))
    run.probe("reordered", c["keys"] != sorted(c["keys"]))


def _job(run, n, fns, c, w0):
    def on(w):
        w0[0] = w
    return job.job(run, n, None, c["sched"], c["seed"], fns=fns, on_world=on)


def shrinks(c):
    for g, ops in enumerate(c["groups"]):
        if len(ops) > 1:
            for k in range(len(ops)):
                yield dict(c, groups=c["groups"][:g] + [ops[:k] + ops[k + 1:]] + c["groups"][g + 1:])
        for k, o in enumerate(ops):
            if o["op"] == "mesh":
                for w in work.shrink_mesh(o["w"]):
                    yield dict(c, groups=c["groups"][:g] + [ops[:k] + [dict(o, w=w)] + ops[k + 1:]] + c["groups"][g + 1:])
    if c["keys"] != list(range(c["n"])):
        yield dict(c, keys=list(range(c["n"])))


assert engine
