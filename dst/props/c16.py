"""C16: a call that fails on one rank fails on all."""
import os
import warnings

import numpy as np

from .. import engine, faults, files, job, work
from . import c01

SHIM = True
CASES = dict(quick=420, thorough=9000)
RULE = ("a parallel generate_mesh or get_sizing_function_from_segy call of 2..5 ranks that cannot be carried out (bad argument, too few vertices for the ranks, diverging "
        "iteration, velocity file missing, cut or failing to read on the rank that reads it), then a good call on the same communicator, under a random schedule; "
        "non-trivial: the call failed")
REAL = c01.REAL + ["segyio, numpy file input"]
STUB = c01.STUB + ["system calls on the scratch files (preloaded shim injects the read faults)"]
ASSUMPTIONS = c01.ASSUMPTIONS + ["all ranks are given the same arguments"]

BAD = ("h0", "max_iter", "bbox_list", "bbox_int", "option", "size_type", "domain_type", "few_points", "axis", "points_shape", "points_none",
       "far_domain", "thin", "diverge", "diverge", "h0_missing", "pfix_shape")
SEGY = ("missing", "trunc", "errno", "errno", "bad", "option", "wl", "grade", "pad", "vp_water", "dims", "byte_order")


MAYBE = ("diverge", "pfix_shape", "bbox_int", "bbox_list")   # carried out after all in some combinations


def generate(rng, i, tier):
    n = rng.choice((2, 2, 3, 4, 5)) if rng.random() < 0.97 else rng.choice((6, 8))
    c = dict(n=n, sched=job.gen_sched(rng), val=rng.choice((0, -1, -3)), frac=rng.random())
    if rng.random() < 0.6:
        w = work.gen_mesh(rng, n, iters=(2, 3, 5))
        c.update(op="mesh", bad=rng.choice(BAD), w=w)
        if c["bad"] in ("far_domain", "thin", "diverge", "h0_missing", "pfix_shape"):
            w.pop("points", None)
        if c["bad"] in ("few_points", "axis", "points_shape", "points_none"):
            b = np.array(work.domain_bbox(w["domain"])).reshape(-1, 2)
            w["points"] = dict(kind="jitter", n=60, seed=1, lo=[float(v) for v in b[:, 0]], hi=[float(v) for v in b[:, 1]], trim=False)
        if c["bad"] == "axis" and rng.random() < 0.5:
            w.pop("points")
        # about as much as is too much, at times: for some ranks then
        c["big"] = rng.choice((1e4, 1e8, 10 ** rng.uniform(2.5, 4), 10 ** rng.uniform(2.5, 4)))
    else:
        f = files.gen(rng)
        c.update(op="segy", bad=rng.choice(SEGY), file=f, sizing=files.sizing_args(rng, f),
                 kind=rng.choice(("open_r", "read", "read", "seek")), sticky=rng.random() < 0.5)
    c["good"] = work.gen_mesh(rng, n, dim=2, iters=(1, 2))
    return c


def bad_mesh(sm, comm, c):
    w, bad = c["w"], c["bad"]
    dom, size, kw = work.mesh_args(sm, w, comm)
    h = work.h0_of(w)
    bb = work.domain_bbox(w["domain"])
    dim = w["dim"]
    fd = work.sdf(w["domain"])
    if bad in ("far_domain", "thin"):   # (a sizing function with its own extents would replace the domain)
        size = h
    if bad == "h0":
        if np.isscalar(size):
            size = -h
        else:
            size, kw["h0"] = (lambda p: np.full(len(p), h)), -h
    elif bad == "max_iter":
        kw["max_iter"] = c["val"]
    elif bad == "bbox_list":
        dom, kw["bbox"] = fd, list(bb)
    elif bad == "bbox_int":
        dom, kw["bbox"] = fd, tuple(int(np.floor(v)) if k % 2 == 0 else int(np.ceil(v)) for k, v in enumerate(bb))
    elif bad == "option":
        kw["maximum_iter"] = 3
    elif bad == "size_type":
        size = "fine"
    elif bad == "domain_type":
        dom = 3.0
    elif bad == "few_points":
        kw["points"] = np.array([[0.5 * (bb[2 * k] + bb[2 * k + 1]) for k in range(dim)]] * 9)
    elif bad == "axis":
        kw["axis"] = dim + 1
    elif bad == "points_shape":
        kw["points"] = kw["points"].ravel()
    elif bad == "points_none":
        kw["points"] = np.zeros((0, dim))
    elif bad == "far_domain":
        q = np.array(bb).reshape(-1, 2)
        ax = w["opts"]["axis"]
        lim = q[ax, 0] + (q[ax, 1] - q[ax, 0]) * 0.4 / c["n"]
        dom, kw["bbox"] = (lambda p: p[:, ax] - lim), tuple(float(x) for x in bb)
    elif bad == "thin":
        q = np.array(bb).reshape(-1, 2)
        q[:, 1] = q[:, 0] + 0.3 * h
        dom, kw["bbox"] = (lambda p: np.full(len(p), 1.0)), tuple(float(x) for x in q.ravel())
    elif bad == "diverge":
        kw["delta_t"] = c["big"]
        kw["max_iter"] = 4
    elif bad == "h0_missing":
        size, _ = (lambda p: np.full(len(p), h)), kw.pop("h0", None)
    elif bad == "pfix_shape":
        kw["pfix"] = np.zeros((2, dim + 1))
    return sm.generate_mesh(dom, size, comm=comm, **kw)


def bad_segy(sm, comm, c, path):
    f = c["file"]
    args = files.read_args(f)
    args.update(c["sizing"])
    bb = files.bbox(f)
    bad = c["bad"]
    if bad == "option":
        args["hmim"] = 3.0
    elif bad == "wl":
        args.update(wl=-2, grad=50.0)
    elif bad == "grade":
        args["grade"] = -0.2
    elif bad == "pad":
        args.update(domain_pad=100.0, pad_style="none") if c["frac"] < 0.5 else args.update(domain_pad=-5.0)
    elif bad == "vp_water":
        args["vp_water"] = 100.0
        v = files.model(f)
        v[1:3] = 0.0
        args.update(velocity_data=v, nz=v.shape[0], nx=v.shape[1], **(dict(ny=v.shape[2]) if v.ndim == 3 else {}))
    elif bad == "dims":
        bb = bb[:3]
    elif bad == "byte_order" and f["kind"] == "bin":
        args["byte_order"] = "middle"
    return sm.get_sizing_function_from_segy(path, bb, comm=comm, **args)


def execute(run):
    warnings.simplefilter("ignore")
    c = run.case
    calm = job.job(run, c["n"], lambda sm, comm: work.mesh(sm, comm, c["good"]), record=False)
    job.must_finish(calm, "the good call alone")
    want = [engine.digest(a.tobytes()) for a in calm.ranks[0].result]
    with faults.scratch() as d:
        if c["op"] == "mesh":
            _run(run, c, want, lambda sm, comm: bad_mesh(sm, comm, c), must_fail=c["bad"] not in MAYBE)
            return
        f = c["file"]
        path = os.path.join(d, files.name(f))
        data = files.content(f)
        bad, plan, region = c["bad"], [], None
        must = bad not in ("errno", "bad", "byte_order")
        if bad == "trunc":
            n = int(c["frac"] * len(data))
            if f["kind"] == "segy" and n > 3600 and (n - 3600) % (240 + 4 * f["nz"]) == 0:
                n -= 1
            data = data[:n]
        if bad == "byte_order" and f["kind"] == "bin":
            must = True
        if bad != "missing":
            files.write(path, data)
        if bad == "errno":
            nth = 1 if c["kind"] == "open_r" else 1 + int(c["frac"] * 6)
            plan = [dict(kind=c["kind"], nth=nth, effect=faults.ERRNO, arg="EIO", sticky=c["sticky"])]
        if bad == "bad":
            lo = int(c["frac"] * len(data))
            region = (lo, lo + 4096)
        with faults.IO(d, plan, bad=region) as io:
            _run(run, c, want, lambda sm, comm: bad_segy(sm, comm, c, path), must_fail=must)
        for k, v in io.applied.items():
            run.fault(k + "_error", v)
        if io.unreadable:
            run.fault("unreadable_region")
        if bad in ("missing", "trunc"):
            run.fault(bad + "_file")
        # the others never go near the file
        where = {r for k, r, _ in io.log if k in ("open_r", "open_w", "read", "write")}
        run.check(where <= {0, -1}, "file-touched", lambda: f"ranks {sorted(where)} opened the velocity file")


def _run(run, c, want, call, must_fail):
    n = c["n"]
    errs, values = [None] * n, [None] * n

    def fn(sm, comm):
        me = comm.Get_rank()
        try:
            r = call(sm, comm)
            values[me] = "a result"
            del r
        except Exception as e:
            errs[me] = job.describe(e)[:160]
        return work.mesh(sm, comm, c["good"])

    w = job.job(run, n, fn, c["sched"], c["seed"])
    what = f"{c['op']} that fails by {c['bad']}"
    run.event("errors", errs, values)
    some = [r for r in range(n) if errs[r] is not None]
    run.nontrivial = bool(some)
    run.probe("failed_" + c["bad"], bool(some))
    # what each rank got from the failing call, whatever happened next
    if some and len(some) != n:
        run.check(False, "partial-failure", lambda: f"{what}: only ranks {some} raised: {errs}; returned: {[r for r in range(n) if values[r]]}; waiting: {w.deadlock}")
    if not some:
        job.must_finish(w, what)
        run.check(not must_fail, "accepted", lambda: f"{what}: no rank raised")
    job.must_finish(w, f"a good call after {what}")
    job.no_leftover(w, f"a good call after {what}")
    got = [engine.digest(a.tobytes()) for a in w.ranks[0].result]
    run.check(got == want, "wrong-afterwards", lambda: f"after {what}: the next call gives another mesh")


def shrinks(c):
    if c["n"] > 2:
        yield dict(c, n=2)
    if c["op"] == "mesh":
        for w in work.shrink_mesh(c["w"]):
            yield dict(c, w=w)
    for w in work.shrink_mesh(c["good"]):
        yield dict(c, good=w)
