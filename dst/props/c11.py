"""C11: the root holds the result; the other ranks do no serial work and agree."""
import os
import warnings

import numpy as np

from .. import engine, faults, files, job, work
from . import c01

SHIM = True
CASES = dict(quick=1200, thorough=6000)
RULE = ("one or two calls of sliver_removal, write_velocity_model, plot_sizing_function or get_sizing_function_from_segy by all of 2..6 ranks under a random schedule, by the "
        "root alone (the others stalled or gone), or by the others alone (the root stalled or gone); compared with the serial call; non-trivial: the root's result was "
        "compared or the others got by without it")
REAL = c01.REAL + ["segyio, h5py, matplotlib, numpy file input"]
STUB = c01.STUB + ["system calls on the scratch files are watched by a preloaded shim"]
ASSUMPTIONS = c01.ASSUMPTIONS + ["plot images of the same figure are byte-identical"]

KINDS = ("open_r", "open_w", "read", "write", "truncate", "sync", "unlink")


def op(rng, tier):
    k = rng.choice(("sliver", "write", "write", "segy", "segy", "segy", "plot"))
    if k == "sliver":
        return dict(op=k, h=0.3, n=rng.randrange(60, 110), seed=rng.randrange(1 << 20), it=rng.choice((1, 2, 3)))
    f = files.gen(rng)
    if k == "write":
        pad = rng.choice((0.0, 0.0, 150.0))
        return dict(op=k, file=f, name=rng.random() < 0.7, pad=pad, style=rng.choice(("edge", "constant", "linear_ramp")))
    if k == "plot":
        return dict(op=k, stride=rng.choice((1, 2)), a=rng.uniform(50.0, 300.0), g=rng.uniform(-0.1, 0.1), width=rng.choice((600.0, 1500.0)))
    return dict(op=k, file=f, data=rng.random() < 0.4, sizing=files.sizing_args(rng, f))


def generate(rng, i, tier):
    return dict(n=rng.choice((2, 2, 3, 4, 6)), ops=[op(rng, tier) for _ in range(rng.choice((1, 1, 2)))],
                who=rng.choice(("all", "all", "root", "others")), apart=rng.random() < 0.5, sched=job.gen_sched(rng))


def call(sm, comm, o, d, me):
    """The call; -> what to compare on the root, what to compare on all ranks."""
    k = o["op"]
    if k == "sliver":
        pts = work.build_points(dict(kind="jitter", n=o["n"], seed=o["seed"], lo=[0, 0, 0], hi=[1, 1, 1]))
        r = sm.sliver_removal(pts, sm.Cube((0.0, 1.0, 0.0, 1.0, 0.0, 1.0)), o["h"], comm=comm, max_iter=o["it"], verbose=0)
        return (engine.digest(*(a.tobytes() for a in r)) if job.arrays_of(r) else None), None
    if k == "plot":
        b = (-1000.0, 0.0, 0.0, o["width"])

        def fh(x):
            return o["a"] + o["g"] * np.asarray(x[0])

        import matplotlib.pyplot as plt

        path = os.path.join(d, "sizes.png")
        r = sm.plot_sizing_function(sm.SizeFunction(b, fh, 100.0), stride=o["stride"], comm=comm, filename=path)
        got = None
        if me == 0:
            got = engine.digest(_bytes(path))
            plt.close("all")
        return got if me == 0 else (None if r is None else "a plot"), None
    f = o["file"]
    src = os.path.join(d, files.name(f))
    if k == "write":
        args = files.read_args(f)
        if o["pad"]:
            args.update(bbox=files.bbox(f), domain_pad=o["pad"], pad_style=o["style"])
        out = os.path.join(d, "out") if o["name"] else None
        r = sm.write_velocity_model(src, ofname=out, comm=comm, **args)
        if me == 0:
            return engine.digest(_bytes((out or src) + ".hdf5")), None
        return None if r is None else "a model", None
    args = files.read_args(f)
    args.update(o["sizing"])
    if o["data"]:
        v = files.model(f)
        args.update(velocity_data=v, nz=v.shape[0], nx=v.shape[1], **(dict(ny=v.shape[2]) if v.ndim == 3 else {}))
    sf = sm.get_sizing_function_from_segy(src, files.bbox(f), comm=comm, **args)
    shared = (tuple(map(float, sf.bbox)), type(sf.bbox).__name__, float(sf.hmin))
    if me:
        return None, shared
    q = files.samples(sf.bbox)
    return engine.digest(np.asarray(sf.eval(tuple(q.T)), float).tobytes()), shared


def _bytes(path):
    with open(path, "rb") as f:
        return f.read()


def execute(run):
    warnings.simplefilter("ignore")
    c = run.case
    n, who = c["n"], c["who"]
    want = []
    with faults.scratch() as d:
        for o in c["ops"]:
            if "file" in o:
                files.write(os.path.join(d, files.name(o["file"])), files.content(o["file"]))
            w = job.job(run, 1, lambda sm, comm: call(sm, comm, o, d, 0), record=False)
            job.must_finish(w, f"the serial {o['op']}")
            want.append(w.ranks[0].result)
    run.event("serial", want)
    for k, o in enumerate(c["ops"]):
        sub = who if o["op"] != "segy" else "all"    # it tells the others the extents
        with faults.scratch() as d:
            if "file" in o:
                files.write(os.path.join(d, files.name(o["file"])), files.content(o["file"]))

            def fn(sm, comm):
                me = comm.Get_rank()
                if sub == "root" and me or sub == "others" and not me:
                    return "absent"
                # or the files are on the root's machine only
                return call(sm, comm, o, os.path.join(d, "not-here") if me and c["apart"] else d, me)

            with faults.IO(d) as io:
                w = job.job(run, n, fn, c["sched"], c["seed"] + k)
        what = f"{o['op']} called by {dict(all='all ranks', root='the root alone', others='the others alone')[sub]} of {n}"
        if c["apart"]:
            run.fault("file_missing_elsewhere", n - 1)
        if sub != "all":
            run.fault("rank_absent", n - 1 if sub == "root" else 1)
        job.must_finish(w, what)
        job.no_leftover(w, what)
        touched = sorted({(r, kd) for kd, r, _ in io.log if kd in KINDS and r > 0})
        run.check(not touched, "file-touched", lambda: f"{what}: other ranks used files: {touched[:5]}")
        if o["op"] != "segy":
            run.check(not w.stats["sent"], "communicates", lambda: f"{what}: {w.stats['sent']} messages")
        for r in w.ranks:
            if r.result == "absent":
                continue
            got, shared = r.result
            run.nontrivial = True
            if r.wrank == 0:
                run.check(got == want[k][0], "root-differs", lambda: f"{what}: the root's result is not the serial call's")
            else:
                run.check(got is None, "result-elsewhere", lambda: f"{what}: rank {r.wrank} has {got}")
            run.check(shared == want[k][1], "disagree", lambda: f"{what}: rank {r.wrank} has extents and size {shared}, the serial call {want[k][1]}")
        run.event("res", k, [r.result for r in w.ranks])


def shrinks(c):
    if len(c["ops"]) > 1:
        for k in range(len(c["ops"])):
            yield dict(c, ops=[c["ops"][k]])
    if c["n"] > 2:
        yield dict(c, n=2)
    for k, o in enumerate(c["ops"]):
        if o["op"] == "segy" and len(o["sizing"]) > 1:
            for x in o["sizing"]:
                yield dict(c, ops=c["ops"][:k] + [dict(o, sizing={a: b for a, b in o["sizing"].items() if a != x})] + c["ops"][k + 1:])
