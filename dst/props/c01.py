"""C01: parallel mesh generation finishes on every rank."""
from .. import engine, job, work

CASES = dict(quick=260, thorough=6000)
RULE = ("random mesh workload (domain, sizing, user points, options, axis), 1..6 simulated ranks, random scheduler strategy, "
        "send buffering and clocks; non-trivial: more than one rank and the ranks exchanged ghost vertices at least once")
REAL = ["SeismicMesh Python package (one instance per rank)", "C++ extensions", "pickled message payloads as mpi4py"]
STUB = ["MPI transport and mpi4py.MPI.COMM_WORLD", "clocks"]
ASSUMPTIONS = ["MPI is reliable and keeps the order of messages between two ranks on one communicator"]


def generate(rng, i, tier):
    n = rng.choice((1, 2, 2, 3, 3, 4, 4, 5, 6)) if rng.random() < 0.97 else rng.choice((7, 8, 9, 12))
    case = dict(n=n, w=work.gen_mesh(rng, n, exotic=0.25, long=0.04, beyond=0.08), sched=job.gen_sched(rng))
    if n == 1 and rng.random() < 0.6:    # not gathered, so not tidied up before the checks
        case["w"] = work.gen_mesh(rng, n, dim=3, iters=(1, 2, 3, 5))
        case["w"]["opts"]["perform_checks"] = True
    elif rng.random() < 0.15:
        case["w"] = segy_workload(rng, n)
    if rng.random() < 0.15 and case["w"]["domain"]["kind"] in ("Rectangle", "Cube"):
        b = work.domain_bbox(case["w"]["domain"])
        case["w"]["pfix"] = [[b[2 * k] + 0.5 * (b[2 * k + 1] - b[2 * k]) for k in range(len(b) // 2)]]
    if rng.random() < 0.1 and case["w"]["domain"]["kind"] == "Rectangle" and case["w"]["size"]["kind"] != "segy":
        b = work.domain_bbox(case["w"]["domain"])
        r = 0.25 * min(b[1] - b[0], b[3] - b[2])
        case["w"]["subdomains"] = [dict(kind="Disk", c=[(b[0] + b[1]) / 2, (b[2] + b[3]) / 2], r=r)]
    return case


def segy_workload(rng, n):
    dim = rng.choice((2, 2, 3))
    shape = [rng.randrange(12, 25) for _ in range(dim)]
    axis = rng.randrange(dim)
    hmin = 50.0
    ext = [hmin * rng.uniform(7, 11) if dim == 2 else hmin * rng.uniform(3.2, 4.2) for _ in range(dim)]
    ext[axis] = n * hmin * (rng.uniform(4.5, 6) if dim == 2 else 3.6)
    bbox = [-ext[0], 0.0] + [v for e in ext[1:] for v in (0.0, e)]
    kw = dict(hmin=hmin, hmax=hmin * 1.5, wl=5, freq=5.0)
    if rng.random() < 0.5:
        kw["grade"] = 0.15
    if rng.random() < 0.3:
        kw["domain_pad"] = 2 * hmin
        kw["pad_style"] = rng.choice(("edge", "linear_ramp", "constant"))
    return dict(dim=dim, domain=dict(kind="Rectangle" if dim == 2 else "Cube", bbox=bbox),
                size=dict(kind="segy", bbox=bbox, vp=dict(seed=rng.randrange(1 << 20), shape=shape), kw=kw),
                opts=dict(axis=axis, max_iter=rng.choice((1, 2, 4)), verbose=rng.choice((0, 1, 2, 3))))


def execute(run):
    c = run.case
    w = job.job(run, c["n"], lambda sm, comm: work.mesh(sm, comm, c["w"]), c["sched"], c["seed"])
    run.nontrivial = c["n"] > 1 and w.stats["sent"] > 4
    job.must_finish(w, "generate_mesh")
    run.check(job.arrays_of(w.ranks[0].result), "no-result", lambda: f"rank 0 returned {type(w.ranks[0].result)}")
    run.event("res", *(engine.digest(a.tobytes()) for a in w.ranks[0].result))
    run.probe(f"ranks_{c['n']}")
    run.probe("user_points", bool(c["w"].get("points")))
    run.probe("sizing_" + c["w"]["size"]["kind"])
    run.probe("dim3", c["w"]["dim"] == 3)


def shrinks(c):
    if c["n"] > 2:
        yield dict(c, n=2)
        yield dict(c, n=c["n"] - 1)
    for w in work.shrink_mesh(c["w"]):
        yield dict(c, w=w)
