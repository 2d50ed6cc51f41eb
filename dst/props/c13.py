"""C13: a call's result depends on its arguments alone."""
import random
import sys
import threading
import time
import warnings

import numpy as np

from .. import calls, engine, env, faults, job

SHIM = True
PACKAGES = 2
CASES = dict(quick=1200, thorough=24000)
RULE = ("a history of 2..6 calls (meshes, sliver removal, sizing functions, shapes, mesh functions) in one process, some interrupted at a random line, stopped by a failing "
        "callback or a refused allocation, with random-number state and clock changed in between, and at times two or three calls at once in "
        "threads interleaved line by line under a seeded schedule; each completed call is compared with the same call in a process of its own; non-trivial: at least "
        "one call after an interrupted one, or an interleaving")
REAL = ["SeismicMesh Python package", "C++ extensions with CGAL (a call into an extension is one step of its thread)"]
STUB = ["thread scheduling (a trace function hands the turn over at chosen lines)", "clock", "random-number state", "asynchronous exceptions and failing allocations"]
ASSUMPTIONS = ["threads switch between lines of the package, not inside compiled code"]

NAMES = ("mesh", "mesh", "sliver", "segy", "segy", "shape", "meshfn")


def generate(rng, i, tier):
    pool = [calls.gen(rng, NAMES) for _ in range(rng.choice((1, 2, 2, 3)))]
    steps = []
    for _ in range(rng.randrange(2, 7)):
        k = rng.choice(("call", "call", "call", "interrupt", "interrupt", "callback", "alloc", "threads", "threads"))
        s = dict(k=k, o=rng.randrange(len(pool)), frac=rng.random() ** rng.choice((1, 1, 3)), env=rng.choice((None, "rng", "clock", "rng")), seed=rng.randrange(1 << 20))
        if k == "threads":
            m = rng.choice((2, 2, 3))
            s["o"] = [rng.randrange(len(pool)) for _ in range(m)]
            s["slices"] = [[rng.randrange(m), rng.choice((1, 2, 5, 20, 60, 200))] for _ in range(rng.choice((10, 40, 120)))]
        steps.append(s)
    steps.append(dict(k="call", o=rng.randrange(len(pool)), frac=0.5, env=None, seed=0))
    return dict(pool=pool, steps=steps)


# ---- threads, one line at a time ---------------------------------------------


class Threads:
    """Runs functions in threads of which one at a time executes; the turn
    passes at lines of the package, as `slices` says: [thread, lines] pairs."""

    def __init__(self, fns, slices):
        self.fns, self.slices = fns, list(slices)
        self.root = env.REPO + "/" + env.PKG + "/"
        n = len(fns)
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.alive = [True] * n
        self.main = threading.Semaphore(0)
        self.out = [None] * n
        self.left = 0
        self.switches = 0
        self.order = []

    def _next(self):
        while self.slices:
            who, n = self.slices.pop(0)
            if self.alive[who]:
                self.left = n
                return who
        self.left = 1 << 60
        return next((i for i, a in enumerate(self.alive) if a), None)

    def _trace(self, me):
        def line(frame, event, arg):
            if event == "line":
                self.left -= 1
                if self.left <= 0:
                    nxt = self._next()
                    if nxt != me:
                        self.switches += 1
                        self.order.append((nxt, frame.f_lineno))
                        self.sem[nxt].release()
                        self.sem[me].acquire()
            return line

        def call(frame, event, arg):
            return line if frame.f_code.co_filename.startswith(self.root) else None
        return call

    def _run(self, me):
        self.sem[me].acquire()
        sys.settrace(self._trace(me))
        try:
            self.out[me] = ("ok", self.fns[me]())
        except BaseException as e:
            self.out[me] = ("raised", job.describe(e))
        sys.settrace(None)
        self.alive[me] = False
        nxt = self._next()
        if nxt is None:
            self.main.release()
        else:
            self.sem[nxt].release()

    def go(self):
        ts = [threading.Thread(target=self._run, args=(i,), daemon=True) for i in range(len(self.fns))]
        for t in ts:
            t.start()
        self.sem[self._next()].release()
        self.main.acquire()
        for t in ts:
            t.join(10)
        return self.out


# ---- what surrounds a call ------------------------------------------------------


class Clock:
    """time.time and friends jump about."""

    NAMES = ("time", "perf_counter", "monotonic")

    def __init__(self, seed):
        self.r = random.Random(seed)

    def __enter__(self):
        self.old = {n: getattr(time, n) for n in self.NAMES}
        self.now = 1e9

        def read():
            self.now += self.r.choice((0.0, 1e-3, 5.0, -3600.0, 86400.0 * 400))
            return self.now
        for n in self.NAMES:
            setattr(time, n, read)
        return self

    def __exit__(self, *exc):
        for n, f in self.old.items():
            setattr(time, n, f)
        return False


def shake(kind, seed):
    if kind == "rng":
        np.random.seed(seed)
        random.seed(seed)
        np.random.rand(seed % 7)
        if seed % 2:
            np.random.randn()        # leaves a cached second value


def ambient():
    """The process-wide state a call must leave alone."""
    s = np.random.get_state()
    return dict(numpy_random=engine.digest(s[0], s[1].tobytes(), s[2:]), python_random=engine.digest(random.getstate()), numpy_errors=sorted(np.geterr().items()),
                print_options=engine.digest(sorted(np.get_printoptions().items(), key=str)), recursion=sys.getrecursionlimit(), filters=len(warnings.filters))


def digest(r):
    return engine.digest(*(np.ascontiguousarray(a).tobytes() for a in r))


def attempt(f):
    try:
        return digest(f())
    except Exception as e:
        return "raises " + job.describe(e)[:200]


def execute(run):
    warnings.simplefilter("ignore")
    c, sm = run.case, job.module()
    alone, lines = [], []
    for o in c["pool"]:
        def fresh():
            with faults.InterruptAt(-1) as cnt:
                r = attempt(calls.prepare(sm, o)[1])
            return r, cnt.n
        r, died = faults.fork(fresh)
        run.check(r is not None, "crash", lambda: f"{o['op']} alone: {died}")
        alone.append(r[0])
        lines.append(r[1])
    run.event("alone", alone, lines)
    aborted = 0
    for i, s in enumerate(c["steps"]):
        shake(s["env"], s["seed"])
        before = ambient()
        which = s["o"] if isinstance(s["o"], list) else [s["o"]]
        what = f"step {i} ({s['k']} {'+'.join(c['pool'][k]['op'] for k in which)})"
        clock = Clock(s["seed"]) if s["env"] == "clock" else None
        if clock:
            clock.__enter__()
            run.fault("clock_jumps")
        try:
            got = step(run, sm, c, s, which, lines)
        finally:
            if clock:
                clock.__exit__()
        if s["env"] == "rng":
            run.fault("random_state_changed")
        run.steps += 1
        run.event(i, s["k"], got)
        for k, g in zip(which, got):
            if g is None:
                aborted += 1
                continue
            if aborted or s["k"] == "threads":
                run.nontrivial = True
            run.check(g == alone[k], "different-result", lambda: f"{what}, after {aborted} aborted calls: the {c['pool'][k]['op']} call gives {g}, alone {alone[k]}")
        after = ambient()
        bad = [x for x in before if after[x] != before[x]]
        run.check(not bad, "ambient-changed", lambda: f"{what} changed {', '.join(bad)}")


def step(run, sm, c, s, which, lines):
    """-> for each call its result, or None when it was aborted."""
    o = c["pool"][which[0]]
    if s["k"] == "threads":
        fns = [calls.prepare(sm, c["pool"][k])[1] for k in which]
        t = Threads([(lambda f=f: attempt(f)) for f in fns], s["slices"])
        out = t.go()
        run.fault("thread_switches", t.switches)
        run.event("order", t.order)
        return [x[1] for x in out]
    f = calls.prepare(sm, o)[1]
    if s["k"] == "interrupt":
        with faults.InterruptAt(1 + int(s["frac"] * lines[which[0]])) as a:
            try:
                r = attempt(f)
            except faults.Interrupted:
                r = None
        run.fault("interrupted", a.fired)
        return [r if not a.fired else None]
    if s["k"] == "alloc" and not (o["op"] in ("sliver",) or o["op"] == "mesh" and o["w"]["dim"] == 3):
        faults.own_numpy()
        with faults.Alloc(None, -1, 1, 512) as a:
            r = attempt(f)
        if not a.count:
            return [r]
        f = calls.prepare(sm, o)[1]
        with faults.Alloc(None, 1 + int(s["frac"] * a.count), 1, 512) as a:
            r = attempt(f)
        run.fault("allocation_refused", a.fired)
        return [r if not a.fired else None]
    if s["k"] == "callback" and o["op"] == "mesh":
        from . import c15

        cb, call = c15.arrange(sm, o)
        cb[0].at, cb[0].make = 1 + int(s["frac"] * 12), lambda: OSError("callback")
        try:
            call()
        except OSError:
            run.fault("callback_failed")
        except Exception:
            pass
        return [None]
    return [attempt(f)]


def shrinks(c):
    if len(c["steps"]) > 1:
        for i in range(len(c["steps"])):
            yield dict(c, steps=c["steps"][:i] + c["steps"][i + 1:])
    for i, s in enumerate(c["steps"]):
        if s["k"] == "threads" and len(s["slices"]) > 1:
            n = len(s["slices"])
            for part in (s["slices"][:n // 2], s["slices"][n // 2:], s["slices"][1:]):
                yield dict(c, steps=c["steps"][:i] + [dict(s, slices=part)] + c["steps"][i + 1:])
        if s["env"]:
            yield dict(c, steps=c["steps"][:i] + [dict(s, env=None)] + c["steps"][i + 1:])
    from .. import work

    for i, o in enumerate(c["pool"]):
        if o["op"] == "mesh":
            for w in work.shrink_mesh(o["w"]):
                yield dict(c, pool=c["pool"][:i] + [dict(o, w=w)] + c["pool"][i + 1:])
