"""C18: a velocity model is read completely or the call fails."""
import os
import warnings

import numpy as np

from .. import engine, faults, files, job

SHIM = True
PACKAGES = 1
CASES = dict(quick=2500, thorough=100000)
RULE = ("a random velocity file (SEG-Y or binary; shape, axis order, byte order, type, sort) is read by one of the three entry points under several fault plans: nth "
        "open/read/seek/close fails once or from then on, short reads, early end of file, unreadable region, truncated or oversized file, missing file, call interrupted "
        "at the nth line; non-trivial: at least one fault reached the code")
REAL = ["SeismicMesh.sizing (Python and FastHJ)", "segyio", "h5py/HDF5", "numpy file input", "glibc stdio"]
STUB = ["system calls on the scratch files (preloaded shim injects the faults)"]
ASSUMPTIONS = ["a single failed read may be retried by the C library; only the outcome is judged",
               "a SEG-Y file cut or extended by whole traces is a valid file of another size"]

ERR = ("EIO", "ENOMEM", "EINTR", "ESTALE", "EACCES")


def plan(rng):
    k = rng.choice(("errno", "errno", "sticky", "short", "shortall", "eof", "eofall", "bad", "bad", "trunc", "trunc", "grow", "missing", "interrupt", "interrupt"))
    return dict(what=k, kind=rng.choice(("open_r", "read", "read", "read", "seek", "close")), frac=rng.random(), err=rng.choice(ERR),
                arg=rng.choice((2, 3, 7)), extra=rng.choice((1, 2, 3, 4, 8, 40)))


def generate(rng, i, tier):
    f = files.gen(rng)
    return dict(file=f, op=rng.choice(("read", "size", "size", "write")), sizing=files.sizing_args(rng, f),
                plans=[plan(rng) for _ in range(rng.randrange(3, 8))])


def call(sm, c, d):
    """-> comparable result of the operation on the file in d."""
    f = c["file"]
    path = os.path.join(d, "in", files.name(f))
    args = files.read_args(f)
    if c["op"] == "read":
        vp, nz, nx, ny = sm.read_velocity_model(path, **args)
        return "model", np.array(vp, dtype=float), (int(nz), int(nx), int(ny))
    if c["op"] == "size":
        return ("size",) + size_result(sm.get_sizing_function_from_segy(path, files.bbox(f), **args, **c["sizing"]))
    import h5py

    out = os.path.join(d, "out", "o")
    if os.path.exists(out + ".hdf5"):
        os.unlink(out + ".hdf5")
    sm.write_velocity_model(path, ofname=out, **args)
    with h5py.File(out + ".hdf5", "r") as h:
        v = h["velocity_model"][()]
        return "model", np.array(v, dtype=float), tuple(int(x) for x in h.attrs["shape"])


def size_result(fh):
    b = tuple(float(x) for x in fh.bbox)
    return np.asarray(fh.eval(files.samples(b)), dtype=float), b + (float(fh.hmin),)


def expected(sm, c, v):
    """The result for the stored values v, or None if no such model exists."""
    f = c["file"]
    if c["op"] == "read":
        return "model", v.astype(float), tuple(v.shape) + ((0,) if f["kind"] == "segy" else ())
    if c["op"] == "write":
        return "model", v.astype(np.float32).astype(float), v.shape
    n = dict(zip(("nz", "nx", "ny"), v.shape + (0,)))
    return ("size",) + size_result(sm.get_sizing_function_from_segy("", files.bbox(f), velocity_data=v, **n, **c["sizing"]))


def equal(a, b):
    return a[0] == b[0] and a[1].shape == b[1].shape and np.array_equal(a[1], b[1], equal_nan=True) and a[2] == b[2]


def where(a, b):
    if a[1].shape != b[1].shape:
        return f"shape {a[1].shape} instead of {b[1].shape}"
    bad = ~((a[1] == b[1]) | (np.isnan(a[1]) & np.isnan(b[1])))
    return f"{int(bad.sum())} of {bad.size} values differ, e.g. {a[1][bad][:3]} instead of {b[1][bad][:3]}; {a[2]} {b[2]}"


def execute(run):
    warnings.simplefilter("ignore")
    c, sm = run.case, job.module()
    f = c["file"]
    v = files.model(f)
    if f["kind"] == "segy":
        v = v.astype(float)
    want = expected(sm, c, v)
    data = files.content(f)
    with faults.scratch() as d:
        os.mkdir(os.path.join(d, "in"))
        os.mkdir(os.path.join(d, "out"))
        path = os.path.join(d, "in", files.name(f))
        files.write(path, data)
        with faults.IO(os.path.join(d, "in")) as io:
            with faults.InterruptAt(-1) as tr:
                got = call(sm, c, d)
        run.check(equal(got, want), "wrong-values", lambda: f"{c['op']} of an intact file: {where(got, want)}")
        counts, lines = io.counts, tr.n
        run.event("clean", sorted(counts.items()), lines)
        for p in c["plans"]:
            one(run, sm, c, d, path, data, v, want, counts, lines, p)


def one(run, sm, c, d, path, data, v, want, counts, lines, p):
    f = c["file"]
    w = p["what"]
    plan, bad, stored, stop, must = [], None, data, None, None
    alt = None
    nth = 1 + int(p["frac"] * max(1, counts.get(p["kind"], 0)))
    if w == "errno":
        plan = [dict(kind=p["kind"], nth=nth, effect=faults.ERRNO, arg=p["err"])]
    elif w == "sticky":
        # (a call that is always interrupted is retried for ever, as it should be)
        plan = [dict(kind=p["kind"], nth=nth, effect=faults.ERRNO, arg="EIO" if p["err"] == "EINTR" else p["err"], sticky=True)]
    elif w in ("short", "shortall"):
        plan = [dict(kind="read", nth=1 if w == "shortall" else nth, effect=faults.SHORT, arg=p["arg"], sticky=w == "shortall")]
        must = "return"
    elif w in ("eof", "eofall"):
        plan = [dict(kind="read", nth=1 + int(p["frac"] * counts["read"]), effect=faults.EOFR, sticky=w == "eofall")]
    elif w == "bad":
        lo = int(p["frac"] * len(data))
        bad = (lo, lo + (1 << 20 if p["arg"] == 2 else 512))
    elif w == "trunc":
        n = int(p["frac"] * len(data))
        stored = data[:n]
        must = "raise"
        if f["kind"] == "segy":
            t = (n - 3600) / (240 + 4 * f["nz"])
            if t == int(t) and t >= 1:
                must, alt = None, v[:, :int(t)]
        elif f["kind"] == "bin" and n == len(data):
            must = None
    elif w == "grow":
        k = p["extra"]
        stored = data + b"\x41" * k
        if f["kind"] == "segy" and k % (240 + 4 * f["nz"]):
            must = "raise"
        if f["kind"] == "bin" and k >= np.dtype(f["dtype"]).itemsize:
            must = "raise"
    elif w == "missing":
        stored, must = None, "raise"
    elif w == "interrupt":
        stop = 1 + int(p["frac"] * lines)
    if stored is None:
        os.unlink(path)
    else:
        files.write(path, stored)
    got, err = None, None
    with faults.IO(os.path.join(d, "in"), plan, bad=bad) as io:
        try:
            with faults.InterruptAt(stop or -1) as tr:
                got = call(sm, c, d)
        except faults.Interrupted as e:
            err = e
        except Exception as e:
            err = e
    hit = io.hit or tr.fired or stored != data
    what = f"{c['op']} with fault {dict(p, nth=nth, bad=bad, stop=stop)}, applied {io.applied or io.unreadable}"
    run.event(w, sorted(io.applied.items()), type(err).__name__, len(io.log))
    if hit:
        run.nontrivial = True
        run.fault({"errno": f"{p['kind']}_error", "sticky": f"{p['kind']}_error_persistent", "short": "short_read", "shortall": "short_read", "eof": "early_eof",
                   "eofall": "early_eof", "bad": "unreadable_region", "trunc": "truncated_file", "grow": "oversized_file", "missing": "missing_file",
                   "interrupt": "interrupted_call"}[w])
    run.steps += len(io.log)
    if got is not None:
        run.probe("returned_despite_fault", int(hit))
        ok = equal(got, want)
        if not ok and alt is not None:
            ok = equal(got, expected(sm, c, alt))
        if must == "raise":
            run.check(False, "partial-data-accepted", lambda: f"{what}: returned although the file holds {len(stored or b'')} of {len(data)} bytes")
        if w == "grow" and must is None:
            ok = ok or f["kind"] == "segy"
        run.check(ok, "wrong-values", lambda: f"{what}: {where(got, want)}")
    else:
        run.probe("raised")
        if must == "return" or not hit:
            run.check(False, "raised-without-cause", lambda: f"{what}: {type(err).__name__}: {err}")
    if stored is not None:
        with open(path, "rb") as fh:
            run.check(fh.read() == stored, "source-altered", what)
    # the fault gone, the same call works
    files.write(path, data)
    try:
        again = call(sm, c, d)
    except Exception as e:
        raise engine.Violation("broken-afterwards", f"after {what}: {type(e).__name__}: {e}")
    run.check(equal(again, want), "wrong-afterwards", lambda: f"after {what}: {where(again, want)}")


def shrinks(c):
    if len(c["plans"]) > 1:
        for i in range(len(c["plans"])):
            yield dict(c, plans=[c["plans"][i]])
    f = c["file"]
    for k in ("nz", "nx", "ny"):
        if f.get(k, 0) > 4:
            yield dict(c, file=dict(f, **{k: 4}))
    if c["op"] == "size" and len(c["sizing"]) > 2:
        yield dict(c, sizing={k: c["sizing"][k] for k in ("hmin", "hmax", "units") if k in c["sizing"]})
