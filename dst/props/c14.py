"""C14: the caller's data is never modified."""
import warnings

from .. import calls, faults, job

PACKAGES = 3
CASES = dict(quick=2400, thorough=16000)
RULE = ("one public call (mesh, sliver removal, sizing function, shape, mesh function) of inputs in random memory layouts on 1..3 ranks; it returns, raises at a failing "
        "callback, or is interrupted at several random lines of the package; every input is compared bit for bit before and after; non-trivial: every run")
REAL = ["SeismicMesh Python package", "C++ extensions with CGAL"]
STUB = ["MPI transport when more than one rank", "asynchronous exceptions are raised by a trace function at a chosen line of the package"]
ASSUMPTIONS = ["the callbacks given do not modify what they are given"]


def generate(rng, i, tier):
    o = calls.gen(rng)
    c = dict(o=o, cuts=[rng.random() ** rng.choice((1, 1, 3)) for _ in range(rng.choice((0, 2, 4, 6)))], ranks=1)
    if o["op"] == "mesh" and rng.random() < 0.3:
        from .. import work

        n = rng.choice((2, 3))
        o["w"] = work.gen_mesh(rng, n, iters=(1, 2, 3))
        c.update(ranks=n, cuts=[], sched=job.gen_sched(rng))
    return c


def snapshot(inputs):
    return {k: calls.state(v) for k, v in inputs.items()}


def compare(run, inputs, before, what):
    after = snapshot(inputs)
    for k in before:
        run.check(after[k] == before[k], "modified", lambda: f"{what}: {k} was changed at {calls.diff(before[k], after[k])}")


def execute(run):
    warnings.simplefilter("ignore")
    c = run.case
    o = c["o"]
    run.nontrivial = True
    name = o["op"] + (":" + (o.get("fn") or o.get("shape")) if o["op"] in ("meshfn", "shape") else "")
    if c["ranks"] > 1:
        kept = [None] * c["ranks"]

        def fn(sm, comm):
            me = comm.Get_rank()
            inputs, f = calls.prepare(sm, o)
            kept[me] = (inputs, snapshot(inputs))
            return f(comm)

        w = job.job(run, c["ranks"], fn, c["sched"], c["seed"])
        job.must_finish(w, name)
        for r, (inputs, before) in enumerate(kept):
            compare(run, inputs, before, f"{name}, rank {r} of {c['ranks']}")
        run.event("parallel", name)
        return
    sm = job.module()
    inputs, f = calls.prepare(sm, o)
    before = snapshot(inputs)
    err = None
    with faults.InterruptAt(-1) as cnt:
        try:
            f()
        except Exception as e:
            err = type(e).__name__
    compare(run, inputs, before, f"{name} that {'raises ' + err if err else 'returns'}")
    run.probe(("raised_" if err else "returned_") + name)
    run.event("whole", name, err, cnt.n)
    for x in c["cuts"]:
        nth = 1 + int(x * cnt.n)
        inputs, f = calls.prepare(sm, o)
        before = snapshot(inputs)
        with faults.InterruptAt(nth) as a:
            try:
                f()
            except faults.Interrupted:
                pass
            except Exception:
                pass
        run.fault("interrupted", a.fired)
        run.steps += 1
        compare(run, inputs, before, f"{name} interrupted at line {nth} of {cnt.n}")
        run.event("cut", nth, a.fired)


def shrinks(c):
    from .. import work

    if len(c["cuts"]) > 1:
        for x in c["cuts"]:
            yield dict(c, cuts=[x])
    if c["cuts"]:
        yield dict(c, cuts=[])
    if c["o"]["op"] == "mesh":
        for w in work.shrink_mesh(c["o"]["w"]):
            yield dict(c, o=dict(c["o"], w=w))


