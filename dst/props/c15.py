"""C15: a failing user callback surfaces to the caller."""
import warnings

import numpy as np

from .. import calls, engine, job, work

PACKAGES = 4
CASES = dict(quick=900, thorough=12000)
RULE = ("one mesh or sliver removal call with the domain, sizing function or subdomain given as callbacks, each of which fails at random call indices with a random kind of exception "
        "(once or from then on), then the call again with working callbacks; with 2..3 ranks the callback of one rank fails; non-trivial: a callback failed")
REAL = ["SeismicMesh Python package", "C++ extensions with CGAL", "scipy interpolation between the package and the callbacks"]
STUB = ["MPI transport when more than one rank"]
ASSUMPTIONS = ["with several ranks the others may be left waiting, as MPI programs are when a rank's user code fails"]


class Odd(Exception):
    def __init__(self, a, b):
        super().__init__(a, b)


class OddBase(BaseException):
    pass


KINDS = dict(ValueError=lambda: ValueError("no"), KeyError=lambda: KeyError("k"), IndexError=lambda: IndexError("i"), TypeError=lambda: TypeError("t"),
             StopIteration=lambda: StopIteration(4), MemoryError=lambda: MemoryError(), AssertionError=lambda: AssertionError("a"),
             ZeroDivisionError=lambda: ZeroDivisionError("z"), FloatingPointError=lambda: FloatingPointError("f"), KeyboardInterrupt=lambda: KeyboardInterrupt(),
             SystemExit=lambda: SystemExit(3), OSError=lambda: OSError(5, "io"), RuntimeError=lambda: RuntimeError("CGAL"), LinAlgError=lambda: np.linalg.LinAlgError("s"),
             AttributeError=lambda: AttributeError("bbox"), NotImplementedError=lambda: NotImplementedError(), RuntimeWarning=lambda: RuntimeWarning("w"),
             Odd=lambda: Odd(1, [2]), OddBase=lambda: OddBase("b"), GeneratorExit=lambda: GeneratorExit())


def generate(rng, i, tier):
    n = rng.choice((1, 1, 1, 1, 2, 3))
    if n == 1 and rng.random() < 0.25:
        o = calls.gen(rng, ("sliver",))
        o["size"] = rng.choice(("callable", "sf"))
    else:
        w = work.gen_mesh(rng, n, iters=(1, 2, 3, 5), exotic=0.2, long=0.01)
        o = dict(op="mesh", w=w, layout="C")
        if n == 1 and w["dim"] == 2 and w["domain"]["kind"] == "Rectangle" and rng.random() < 0.3:
            b = np.array(work.domain_bbox(w["domain"])).reshape(-1, 2)
            w["subdomains"] = [dict(kind="Disk", c=[float(v) for v in b.mean(axis=1)], r=float(0.25 * (b[:, 1] - b[:, 0]).min()))]
    c = dict(n=n, o=o, plans=[dict(who=rng.randrange(3), frac=rng.random() ** rng.choice((1, 1, 3)), kind=rng.choice(sorted(KINDS)), sticky=rng.random() < 0.4)
                              for _ in range(1 if n > 1 else rng.randrange(2, 6))])
    if n > 1:
        c.update(rank=rng.randrange(n), sched=job.gen_sched(rng))
    return c


class Callback:
    """Wraps a user function: counts its calls and fails at the chosen one."""

    def __init__(self, fn):
        self.fn, self.n, self.at, self.sticky, self.make, self.raised = fn, 0, None, False, None, []

    def __call__(self, *a):
        self.n += 1
        if self.at is not None and (self.n == self.at or self.sticky and self.n > self.at):
            self.raised.append(self.make())
            raise self.raised[-1]
        return self.fn(*a)


def arrange(sm, o, comm=None):
    """-> callbacks by role, and the call."""
    if o["op"] == "sliver":
        pts = work.build_points(dict(kind="jitter", n=o["n"], seed=o["seed"], lo=[0, 0, 0], hi=[1, 1, 1]))
        dom = sm.Ball([0.5, 0.5, 0.5], 0.6) if o["ball"] and o["size"] != "sf" else sm.Cube((0.0, 1.0, 0.0, 1.0, 0.0, 1.0))
        cb = [Callback(dom.eval)]
        size = Callback(lambda x: np.full(len(x), o["h"]))
        kw = dict(max_iter=o["it"], verbose=0, preserve=o["preserve"])
        if o["seed"] % 2:
            dom.eval = cb[0]
        else:
            dom = cb[0]
            kw["bbox"] = (0.0, 1.0, 0.0, 1.0, 0.0, 1.0)
        if o["size"] == "sf":
            size = sm.SizeFunction((0.0, 1.0, 0.0, 1.0, 0.0, 1.0), size, o["h"])
        else:
            kw["h0"] = o["h"]
        return cb, lambda: sm.sliver_removal(pts, dom, size, comm=comm, **kw)
    w = o["w"]
    dom, size, kw = work.mesh_args(sm, w, comm)
    cb = []
    if callable(dom):
        cb.append(Callback(dom))
        dom = cb[0]
    else:
        cb.append(Callback(dom.eval))
        dom.eval = cb[0]
    if isinstance(size, sm.SizeFunction):
        cb.append(Callback(size.cell_size))
        size.cell_size = cb[-1]
    elif callable(size):
        cb.append(Callback(size))
        size = cb[-1]
    for d in kw.get("subdomains", ()):
        cb.append(Callback(d.eval))
        d.eval = cb[-1]
    return cb, lambda: sm.generate_mesh(dom, size, comm=comm, **kw)


def result(r):
    return engine.digest(*(a.tobytes() for a in r)) if job.arrays_of(r) else None


def execute(run):
    warnings.simplefilter("ignore")
    c = run.case
    if c["n"] > 1:
        return parallel(run, c)
    sm = job.module()
    cb, call = arrange(sm, c["o"])
    want = result(call())
    counts = [x.n for x in cb]
    run.event("clean", counts, want)
    for p in c["plans"]:
        cb, call = arrange(sm, c["o"])
        k = p["who"] % len(cb)
        if not counts[k]:
            run.probe("callback_never_called")
            continue
        x = cb[k]
        x.at, x.sticky, x.make = 1 + int(p["frac"] * counts[k]), p["sticky"], KINDS[p["kind"]]
        what = f"{c['o']['op']}: callback {k} raises {p['kind']} at call {x.at} of {counts[k]}"
        got = err = None
        try:
            got = call()
        except BaseException as e:
            if isinstance(e, engine.Violation):
                raise
            err = e
        run.steps += 1
        run.fault("callback_failed_" + p["kind"], len(x.raised))
        run.nontrivial |= bool(x.raised)
        run.event(what, len(x.raised), type(err).__name__)
        run.check(bool(x.raised), "different-calls", lambda: f"{what}: it was called {x.n} times only")
        run.check(err is not None, "swallowed", lambda: f"{what}: the call returned {'a mesh' if job.arrays_of(got) else type(got)}")
        run.check(err is x.raised[0], "replaced", lambda: f"{what}: the caller gets {job.describe(err)}")
        run.check(err.args == KINDS[p["kind"]]().args, "changed", lambda: f"{what}: arguments {err.args}")
        x.at = None
        again = result(call())
        run.check(again == want, "wrong-afterwards", lambda: f"{what}, then the call with working callbacks: another mesh")


def parallel(run, c):
    p = c["plans"][0]
    counts = {}

    def fn(sm, comm, fail):
        me = comm.Get_rank()
        cb, call = arrange(sm, c["o"], comm)
        x = cb[p["who"] % len(cb)]
        if fail and me == c["rank"] and counts[me]:
            x.at, x.sticky, x.make = 1 + int(p["frac"] * counts[me]), p["sticky"], KINDS[p["kind"]]
            failing.append(x)
        r = None
        try:
            r = call()
        except BaseException as e:
            if type(e).__name__ == "Killed":
                raise
            return ("raised", e)
        finally:
            counts.setdefault(me, x.n)
        return ("returned", result(r))

    failing = []
    w = job.job(run, c["n"], lambda sm, comm: fn(sm, comm, False), record=False)
    job.must_finish(w, "the call with working callbacks")
    w = job.job(run, c["n"], lambda sm, comm: fn(sm, comm, True), c["sched"], c["seed"])
    run.event("counts", sorted(counts.items()))
    if not failing:
        run.probe("callback_never_called")
        return
    x = failing[0]
    what = f"{c['n']} ranks, on rank {c['rank']} a callback raises {p['kind']} at call {x.at} of {counts[c['rank']]}"
    run.fault("callback_failed_" + p["kind"], len(x.raised))
    run.nontrivial = bool(x.raised)
    run.check(not w.overrun, "livelock", what)
    if not x.raised:
        return
    r = w.ranks[c["rank"]]
    run.check(r.result is not None and r.result[0] == "raised", "swallowed", lambda: f"{what}: that rank {r.result or 'is left waiting'}")
    root = w.ranks[0].result
    run.check(root is None or root[0] == "raised", "mesh-despite-failure", lambda: f"{what}: the root returns a mesh")
    run.check(r.result[1] is x.raised[0], "replaced", lambda: f"{what}: that rank gets {job.describe(r.result[1])}")


def shrinks(c):
    if len(c["plans"]) > 1:
        for p in c["plans"]:
            yield dict(c, plans=[p])
    if c["o"]["op"] == "mesh":
        for w in work.shrink_mesh(c["o"]["w"]):
            yield dict(c, o=dict(c["o"], w=w))


