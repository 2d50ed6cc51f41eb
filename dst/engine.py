"""Runs many simulated executions of one property, each in a freshly forked
process, and reports.

A case is a JSON dict, a pure function of (VERIF_SEED, property, index).  Its
execution is a pure function of the case and the code, except that a recorded
decision list, when given, replaces the decisions the case's seed would give.
"""
import hashlib
import json
import os
import pickle
import random
import resource
import select
import signal
import sys
import tempfile
import time
import traceback

from . import env

CASE_TIMEOUT = 120.0
RETRY_TIMEOUT = 200.0
MEM_LIMIT = 12 << 30


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else repr(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:16]


class Violation(Exception):
    """The property is broken; `cls` names how, stably."""

    def __init__(self, cls, detail):
        super().__init__(f"{cls}: {detail}")
        self.cls, self.detail = cls, detail


class Run:
    """What one execution reports, filled in as it goes along."""

    def __init__(self, case, decisions=None):
        self.case = case
        self.replay = decisions
        self.decisions = []      # recorded, over all jobs of the execution
        self.log = hashlib.sha256()
        self.faults = {}
        self.probes = {}
        self.sim_time = 0.0
        self.steps = 0
        self.key = None
        self.nontrivial = False
        self.note = {}
        self.trace = []

    def event(self, *parts):
        self.log.update(repr(parts).encode() + b"\n")

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + int(n)

    def probe(self, kind, n=1):
        self.probes[kind] = self.probes.get(kind, 0) + int(n)

    def check(self, ok, cls, detail):
        if not ok:
            raise Violation(cls, detail() if callable(detail) else detail)


def execute(mod, case, decisions=None):
    """One execution in this process -> plain dict."""
    run = Run(case, decisions)
    out = dict(case=case, violation=None, harness=None)
    t = time.perf_counter()
    try:
        mod.execute(run)
    except Violation as v:
        out["violation"] = dict(cls=v.cls, detail=str(v.detail)[:4000])
    except env.HarnessError as e:
        out["harness"] = f"{e}\n{traceback.format_exc()}"
    except Exception as e:  # the property modules catch what the code under test raises
        out["harness"] = f"{type(e).__name__}: {e}\n{traceback.format_exc()}"
    out.update(decisions=run.decisions, log=run.log.hexdigest()[:32], faults=run.faults,
               probes=run.probes, sim_time=run.sim_time, steps=run.steps,
               key=run.key or digest(case, run.decisions), nontrivial=bool(run.nontrivial),
               note=run.note, trace=run.trace[-400:], wall=time.perf_counter() - t)
    return out


def _child(mod, case, decisions, wfd, errpath):
    try:
        signal.signal(signal.SIGINT, signal.SIG_IGN)
        signal.signal(signal.SIGTERM, signal.SIG_DFL)
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
        fd = os.open(errpath, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
        nul = os.open(os.devnull, os.O_RDWR)
        os.dup2(nul, 0)
        os.dup2(nul, 1)
        os.dup2(fd, 2)
        from . import mpi

        sys.stdout = mpi.RankOut(open(os.devnull, "w"))
        sys.stderr = open(2, "w", closefd=False)
        import faulthandler

        faulthandler.enable(file=sys.stderr, all_threads=False)
        data = pickle.dumps(execute(mod, case, decisions))
        with os.fdopen(wfd, "wb") as f:
            f.write(data)
    except BaseException:
        traceback.print_exc()
        os._exit(97)
    os._exit(0)


class Job:
    def __init__(self, mod, case, decisions, timeout, tag, tmp):
        self.case, self.decisions, self.tag = case, decisions, tag
        self.err = os.path.join(tmp, f"err-{tag}-{time.monotonic_ns()}")
        r, w = os.pipe()
        self.deadline = time.monotonic() + timeout
        self.buf = []
        self.timed_out = False
        self.pid = os.fork()
        if self.pid == 0:
            os.close(r)
            os.setpgid(0, 0)
            _child(mod, case, decisions, w, self.err)
        os.close(w)
        self.fd = r

    def kill(self):
        for f in (lambda: os.killpg(self.pid, signal.SIGKILL), lambda: os.kill(self.pid, signal.SIGKILL)):
            try:
                f()
            except (ProcessLookupError, PermissionError):
                pass

    def finish(self):
        os.close(self.fd)
        _, st = os.waitpid(self.pid, 0)
        try:
            with open(self.err, errors="replace") as f:
                err = f.read()[-3000:]
            os.unlink(self.err)
        except OSError:
            err = ""
        data = b"".join(self.buf)
        base = dict(case=self.case, violation=None, harness=None, decisions=self.decisions or [], log="",
                    faults={}, probes={}, sim_time=0.0, steps=0, key=digest(self.case), nontrivial=False,
                    note={}, trace=[], wall=0.0, timeout=False)
        if self.timed_out:
            base["timeout"] = True
            base["violation"] = dict(cls="hang", detail="the execution did not end within its wall-clock limit")
            return base
        if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0 and data:
            try:
                r = pickle.loads(data)
                r["timeout"] = False
                return r
            except Exception as e:
                base["harness"] = f"unreadable result: {e}"
                return base
        if os.WIFSIGNALED(st):
            sig = os.WTERMSIG(st)
            if sig == signal.SIGKILL:
                base["harness"] = "killed (out of memory?)"
            else:
                base["violation"] = dict(cls="crash:" + signal.Signals(sig).name,
                                         detail="the process died in the code under test\n" + err)
            return base
        base["harness"] = f"child status {st}: {err}"
        return base


class Pool:
    def __init__(self, mod, workers=None):
        self.mod = mod
        self.n = workers or int(os.environ.get("DST_WORKERS") or os.cpu_count() or 4)
        self.tmp = tempfile.mkdtemp(prefix="dst-pool-")
        self.jobs = []

    def close(self):
        for j in self.jobs:
            j.kill()
            j.finish()
        self.jobs = []
        try:
            for f in os.listdir(self.tmp):
                os.unlink(os.path.join(self.tmp, f))
            os.rmdir(self.tmp)
        except OSError:
            pass

    def start(self, case, decisions=None, timeout=CASE_TIMEOUT, tag=0):
        self.jobs.append(Job(self.mod, case, decisions, timeout, tag, self.tmp))

    def wait(self):
        """Yield the results that are in (at least one)."""
        while self.jobs:
            now = time.monotonic()
            for j in self.jobs:
                if now > j.deadline and not j.timed_out:
                    j.timed_out = True
                    j.kill()
            rd, _, _ = select.select([j.fd for j in self.jobs], [], [], 1.0)
            done = []
            for j in list(self.jobs):
                if j.fd in rd:
                    b = os.read(j.fd, 1 << 20)
                    if b:
                        j.buf.append(b)
                    else:
                        self.jobs.remove(j)
                        done.append((j.tag, j.finish()))
            if done:
                return done
        return []

    def one(self, case, decisions=None, timeout=RETRY_TIMEOUT):
        self.start(case, decisions, timeout)
        job = self.jobs[-1]
        while True:
            for tag, r in self.wait():
                if r["case"] is case or job not in self.jobs:
                    return r


def case_rng(seed, prop, index):
    return random.Random(f"{seed}/{prop}/{index}")


def make_case(mod, seed, prop, index, tier):
    rng = case_rng(seed, prop, index)
    case = mod.generate(rng, index, tier)
    case.setdefault("seed", rng.randrange(1 << 48))
    case["index"] = index
    return json.loads(json.dumps(case))


# ---- minimisation -------------------------------------------------------

def same(a, b):
    return a is not None and b is not None and a["cls"] == b["cls"]


def minimise(mod, pool, res, limit):
    """Shrink the workload, then the decisions, keeping the violation class."""
    from . import sched

    t0 = time.monotonic()
    best = res
    tries = 0

    def attempt(case, dec=None):
        nonlocal tries
        if time.monotonic() - t0 > limit:
            return None
        tries += 1
        r = pool.one(case, dec, timeout=60)
        return r if same(r["violation"], res["violation"]) else None

    if res["violation"]["cls"] == "hang":
        return best, tries
    progress = True
    while progress and time.monotonic() - t0 < limit * 0.6:
        progress = False
        for cand in (mod.shrinks(json.loads(json.dumps(best["case"]))) if hasattr(mod, "shrinks") else ()):
            if time.monotonic() - t0 > limit * 0.6:
                break
            r = attempt(json.loads(json.dumps(cand)))
            if r is not None:
                best, progress = r, True
                break
    if best["decisions"]:
        keep = {}

        def fails(dec):
            r = attempt(best["case"], dec)
            if r is not None:
                keep["r"] = r
            return r is not None

        sched.minimise(best["decisions"], fails, budget=120)
        if "r" in keep:
            # re-run on exactly the list that is stored
            r = keep["r"]
            while r["decisions"] and r["decisions"][-1] == 0:
                r["decisions"].pop()
            best = r
    return best, tries


# ---- one check ----------------------------------------------------------

def load_known():
    path = os.path.join(env.VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line and not line.startswith(("#", "fixed:")):
                    out.append(json.loads(line))
    return out


def matches(known, prop, res):
    for k in known:
        if k.get("property") != prop or k.get("class") != res["violation"]["cls"]:
            continue
        if all(res["case"].get(a) == b for a, b in k.get("case", {}).items()):
            return k
    return None


def write_replay(prop, res, seed, tries, original):
    d = os.path.join(env.VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-{digest(res['case'], res['decisions'])}.json")
    with open(path, "w") as f:
        json.dump(dict(property=prop, verif_seed=seed, violation=res["violation"], case=res["case"],
                       decisions=res["decisions"], log=res["log"], trace=res["trace"], faults=res["faults"],
                       note=res["note"], minimised=dict(executions=tries, from_index=original["case"].get("index"),
                                                        decisions_before=len(original["decisions"]),
                                                        decisions_after=len(res["decisions"])),
                       replay_cmd=f"./run.sh check.py --replay {os.path.relpath(path, env.VERIF)}"), f, indent=1, default=repr)
    return path


def run_check(prop, mod, tier, seed, real_wall):
    t0 = time.monotonic()
    n = mod.CASES[tier]
    cap = getattr(mod, "CAP", dict(quick=300.0, thorough=2400.0))[tier]
    pool = Pool(mod)
    known = load_known()
    agg = dict(faults={}, probes={}, evaluations=0, nontrivial=set(), keys=set(), sim_time=0.0, steps=0,
               interleavings=set(), decisions=0)
    samples, viol, harness, hangs, knowns = [], [], [], [], {}
    nxt = 0
    stop = False

    def absorb(idx, r):
        nonlocal stop
        if r["harness"]:
            harness.append((idx, r["harness"]))
            stop = len(harness) > 3
            return
        if r["timeout"]:
            hangs.append((idx, r))
            return
        agg["evaluations"] += 1
        agg["keys"].add(r["key"])
        if r["nontrivial"]:
            agg["nontrivial"].add(r["key"])
        agg["interleavings"].add(r["log"])
        agg["sim_time"] += r["sim_time"]
        agg["steps"] += r["steps"]
        agg["decisions"] += len(r["decisions"])
        for a in ("faults", "probes"):
            for k, v in r[a].items():
                agg[a][k] = agg[a].get(k, 0) + v
        if len(samples) < 3 and r["nontrivial"]:
            samples.append(dict(case=r["case"], note=r["note"], steps=r["steps"], decisions=len(r["decisions"]),
                                faults=r["faults"], event_log=r["log"]))
        if r["violation"]:
            k = matches(known, prop, r)
            if k:
                knowns[k.get("id", k["class"])] = k
            else:
                viol.append((idx, r))
                stop = True

    try:
        while True:
            while not stop and nxt < n and len(pool.jobs) < pool.n and time.monotonic() - t0 < cap:
                pool.start(make_case(mod, seed, prop, nxt, tier), tag=nxt)
                nxt += 1
            if not pool.jobs:
                break
            for tag, r in pool.wait():
                absorb(tag, r)
        # a hang is only believed when it happens again with the machine to itself
        if hangs and not viol and not harness:
            for idx, r in hangs[:2]:
                again = pool.one(r["case"], timeout=RETRY_TIMEOUT)
                if again["timeout"]:
                    viol.append((idx, again))
                    break
                absorb(idx, again)
        best = None
        if viol:
            viol.sort(key=lambda x: x[0])
            idx, orig = viol[0]
            best, tries = minimise(mod, pool, orig, dict(quick=100.0, thorough=400.0)[tier])
            path = write_replay(prop, best, seed, tries, orig)
    finally:
        pool.close()
    wall = time.monotonic() - t0
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", wall_s=round(real_wall() , 2),
              violations=len(viol), assumptions=list(getattr(mod, "ASSUMPTIONS", ())),
              coverage=dict(
                  evaluations=agg["evaluations"], distinct_nontrivial=len(agg["nontrivial"]), rule=mod.RULE,
                  samples=samples or [dict(case=make_case(mod, seed, prop, 0, tier))],
                  cases_planned=n, simulated_runs_per_hour=round(agg["evaluations"] * 3600 / max(wall, 1e-9)),
                  seeds_per_hour=round(len(agg["keys"]) * 3600 / max(wall, 1e-9)),
                  simulated_seconds=round(agg["sim_time"], 3), scheduler_steps=agg["steps"],
                  decisions_made=agg["decisions"], faults_injected=agg["faults"], probes=agg["probes"],
                  distinct_event_logs=len(agg["interleavings"]),
                  distinct_event_logs_measure="sha256 of the complete event log of a run (every scheduling choice, message or fault, and the results)",
                  real_components=getattr(mod, "REAL", []), stub_components=getattr(mod, "STUB", []),
                  known_findings_seen=sorted(knowns), hangs_retried=len(hangs)))
    os.makedirs(os.path.join(env.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(env.VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=repr)
    for k in knowns.values():
        print(f"KNOWN-FINDING: property={prop} {k.get('what', k['class'])}")
    if viol:
        v = best["violation"]
        print(f"{prop}: {v['cls']}: {v['detail']}"[:2500])
        print(f"case: {json.dumps(best['case'])}"[:2000])
        print(f"decisions: {len(best['decisions'])} (before minimisation {len(viol[0][1]['decisions'])}), seed {seed}, index {viol[0][0]}")
        print(f"VIOLATION property={prop} replay={os.path.relpath(path, env.VERIF)}")
        return 1
    if harness:
        for idx, h in harness[:3]:
            print(f"harness error, case {idx}: {h}", file=sys.stderr)
        return 2
    floor = max(1, n // 10)
    if agg["evaluations"] < floor:
        print(f"only {agg['evaluations']} of {n} cases ran within {cap} s", file=sys.stderr)
        return 2
    print(f"{prop}: held on {agg['evaluations']} simulated runs ({len(agg['nontrivial'])} distinct non-trivial), "
          f"{agg['steps']} steps, faults {agg['faults']}, {wall:.1f} s")
    return 0


def run_replay(path, mods):
    with open(path) as f:
        rep = json.load(f)
    mod = mods(rep["property"])
    pool = Pool(mod, 1)
    try:
        r = pool.one(rep["case"], rep["decisions"] or None)
    finally:
        pool.close()
    if r["harness"]:
        print(r["harness"], file=sys.stderr)
        return 2
    if r["violation"]:
        exact = same(r["violation"], rep["violation"]) and r["log"] == rep["log"]
        print(f"{r['violation']['cls']}: {r['violation']['detail']}"[:3000])
        print("reproduced exactly (same event log)" if exact else
              f"reproduced with a different event log or class (recorded {rep['violation']['cls']}, {rep['log']}; now {r['log']})")
        print(f"VIOLATION property={rep['property']} replay={path}")
        return 1
    print("no violation: the recorded execution runs clean on this tree")
    return 0
