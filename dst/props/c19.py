"""C19: a velocity model reported as written is on disk in full."""
import os
import warnings

import numpy as np

from .. import engine, faults, files, job

SHIM = True
PACKAGES = 1
CASES = dict(quick=400, thorough=20000)
RULE = ("a random velocity file is written as HDF5 under several fault plans, each in a forked process: nth open/write/truncate/seek/close of the output fails once or from then on, "
        "short writes, disk full after so many bytes, process death before or in the middle of the nth operation, call interrupted at the nth line; over no file, junk, or "
        "an older model, with or without padding, names with and without suffixes; non-trivial: at least one fault reached the code")
REAL = ["SeismicMesh.sizing.write_velocity_model", "h5py/HDF5", "segyio", "numpy"]
STUB = ["system calls on the scratch files (preloaded shim injects the faults)"]
ASSUMPTIONS = ["process crash, not power loss: what was handed to the kernel survives",
               "output opened by HDF5's default (sec2) driver"]

ERR = ("EIO", "ENOSPC", "EDQUOT", "EFBIG")


def plan(rng):
    k = rng.choice(("errno", "errno", "sticky", "short", "shortall", "disk", "disk", "disk", "crash", "crash", "torn", "interrupt"))
    return dict(what=k, kind=rng.choice(("open_w", "write", "write", "write", "close", "seek", "truncate")), frac=rng.random(),
                err=rng.choice(ERR), arg=rng.choice((2, 3, 7)))


def generate(rng, i, tier):
    f = files.gen(rng)
    pad = {}
    if rng.random() < 0.3:
        pad = dict(domain_pad=rng.choice((100.0, 600.0)), pad_style=rng.choice(("edge", "constant", "linear_ramp")), bbox=files.bbox(f))
    return dict(file=f, pad=pad, old=rng.choice((False, False, False, "junk", "model", "larger")), named=rng.choice((None, None, "o", "o", "o", "o", "o.hdf5", "o.v2", "o 1", "same")), plans=[plan(rng) for _ in range(rng.randrange(3, 7))])


def padded(v, c):
    if not c["pad"]:
        return v
    b, w = c["pad"]["bbox"], c["pad"]["domain_pad"]
    n = [int(w / ((b[2 * k + 1] - b[2 * k]) / v.shape[k])) for k in range(v.ndim)]
    p = [(n[0], 0)] + [(k, k) for k in n[1:]]
    st, m = c["pad"]["pad_style"], float(v.max())
    if st == "edge":
        return np.pad(v, p, "edge")
    return np.pad(v, p, st, **{"constant_values" if st == "constant" else "end_values": m})


def target(d, c):
    if c["named"] == "same":     # the name of the source, in its directory
        return source(d, c)
    return os.path.join(d, "out", c["named"]) if c["named"] else None


def target_file(d, c):
    return (target(d, c) or source(d, c)) + ".hdf5"


def source(d, c):
    return os.path.join(d, "out" if c["named"] in (None, "same") else "in", files.name(c["file"]))


def write(sm, d, c):
    pad = dict(c["pad"])
    if pad:
        pad["bbox"] = tuple(pad["bbox"])
    sm.write_velocity_model(source(d, c), ofname=target(d, c), **files.read_args(c["file"]), **pad)


def wrong(d, c, want):
    """What is wrong with the file on disk, or None."""
    import h5py

    try:
        with h5py.File(target_file(d, c), "r") as h:
            ds = h["velocity_model"]
            v, dt = ds[()], ds.dtype
            shape, units = tuple(int(x) for x in h.attrs["shape"]), h.attrs["units"]
    except Exception as e:
        return f"cannot be read back: {type(e).__name__}: {e}"
    if dt != np.dtype("f4"):
        return f"values stored as {dt}"
    if v.shape != want.shape or shape != want.shape:
        return f"shape {v.shape}, attribute {shape}, should be {want.shape}"
    if c["pad"].get("pad_style") == "linear_ramp":   # computed, not copied
        if np.allclose(v, want, rtol=1e-6, atol=0):
            v = want
    if not np.array_equal(v, want):
        return f"{int((v != want).sum())} of {v.size} values differ"
    if units != "m/s":
        return f"units {units!r}"
    return None


def older_case(c):
    """What an earlier call has written there."""
    f = dict(c["file"], vseed=c["file"]["vseed"] + 1)
    if c["old"] == "larger":
        f["nx"] += 3
    return dict(c, file=f, named="old", old=False)


def old_model(c):
    o = older_case(c)
    return padded(files.model(o["file"]).astype(float), o).astype(np.float32)


def write_older(sm, d, c):
    o = older_case(c)
    s = os.path.join(d, "in", "older-" + files.name(o["file"]))
    files.write(s, files.content(o["file"]))
    pad = dict(o["pad"])
    if pad:
        pad["bbox"] = tuple(pad["bbox"])
    sm.write_velocity_model(s, ofname=(target(d, c) or source(d, c)), **files.read_args(o["file"]), **pad)


def mistaken(d, c, want):
    """Does it read as some model that no call has written?"""
    import h5py

    try:
        with h5py.File(target_file(d, c), "r") as h:
            v = h["velocity_model"][()]
    except Exception:
        return None
    for x in [want] + ([old_model(c)] if c["old"] in ("model", "larger") else []):
        if v.shape == x.shape and (np.array_equal(v, x) or c["pad"].get("pad_style") == "linear_ramp" and np.allclose(v, x, rtol=1e-6, atol=0)):
            return None
    return f"reads as a model of shape {v.shape} with values {v.ravel()[:3]} that was never written"


def execute(run):
    warnings.simplefilter("ignore")
    c, sm = run.case, job.module()
    import h5py  # noqa: F401  (loaded before the processes fork)
    if c["file"]["kind"] == "segy":
        import segyio  # noqa: F401
    want = padded(files.model(c["file"]).astype(float), c).astype(np.float32)
    data = files.content(c["file"])
    with faults.scratch() as d:
        os.mkdir(os.path.join(d, "in"))
        os.mkdir(os.path.join(d, "out"))
        files.write(source(d, c), data)

        def clean():
            with faults.IO(target_file(d, c)) as io:
                with faults.InterruptAt(-1) as tr:
                    write(sm, d, c)
            return io.counts, tr.n, len(io.log)

        r, died = faults.fork(clean)
        run.check(r is not None, "raised-without-cause", lambda: f"writing with no fault: status {died}")
        counts, lines, _ = r
        bad, _ = faults.fork(lambda: wrong(d, c, want))
        run.check(bad is None, "wrong-file", lambda: f"written with no fault: {bad}")
        size = os.path.getsize(target_file(d, c))
        run.event("clean", sorted(counts.items()), lines, size)
        for p in c["plans"]:
            one(run, sm, c, d, data, want, counts, lines, size, p)


def one(run, sm, c, d, data, want, counts, lines, size, p):
    w = p["what"]
    plan, disk, stop = [], None, None
    kind = p["kind"] if counts.get(p["kind"]) else "write"
    nth = 1 + int(p["frac"] * counts[kind])
    if w in ("errno", "sticky"):
        plan = [dict(kind=kind, nth=nth, effect=faults.ERRNO, arg=p["err"], sticky=w == "sticky")]
    elif w in ("short", "shortall"):
        kind = "write"
        plan = [dict(kind="write", nth=1 if w == "shortall" else nth, effect=faults.SHORT, arg=p["arg"], sticky=w == "shortall")]
    elif w == "disk":
        disk = int(p["frac"] * size * 1.02)
    elif w in ("crash", "torn"):
        kind = "write" if w == "torn" else kind
        nth = 1 + int(p["frac"] * counts[kind])
        plan = [dict(kind=kind, nth=nth, effect=faults.CRASH if w == "crash" else faults.TORN, arg=p["arg"])]
    else:
        stop = 1 + int(p["frac"] * lines)
    out = target_file(d, c)
    if os.path.exists(out):
        os.unlink(out)
    if c["old"]:
        if c["old"] == "junk":
            files.write(out, b"an older file" * 400)
        else:
            faults.fork(lambda: write_older(sm, d, c))

    def attempt():
        err = None
        with faults.IO(out, plan, disk=disk) as io:
            try:
                with faults.InterruptAt(stop or -1) as tr:
                    write(sm, d, c)
            except (Exception, faults.Interrupted) as e:
                err = f"{type(e).__name__}: {e}"[:200]
        return err, io.hit or tr.fired, io.applied, io.log[-1][0] if io.log else "", [x for x in io.log if x[2]]

    r, died = faults.fork(attempt)
    what = f"{c['file']['kind']} written with fault {dict(p, kind=kind, nth=nth, disk=disk, stop=stop)}"
    run.steps += 1
    if r is None:
        run.event(w, died)
        run.check(died == faults.CRASH_STATUS, "crash", lambda: f"{what}: the process died, status {died}")
        run.fault("process_crash" if w == "crash" else "process_crash_torn_write")
        run.nontrivial = True
    else:
        err, hit, applied, last, fired = r
        run.event(w, err is None, sorted(applied.items()), fired)
        if hit:
            run.nontrivial = True
            run.fault({"errno": kind + "_error", "sticky": kind + "_error_persistent", "short": "short_write", "shortall": "short_write", "disk": "disk_full",
                       "interrupt": "interrupted_call"}[w])
        if err is None:
            run.probe("returned_despite_fault", int(hit))
            bad, _ = faults.fork(lambda: wrong(d, c, want))
            run.check(bad is None, "reported-written", lambda: f"{what}: the call returned normally, but the file {bad}")
            if w in ("errno", "sticky") and kind == "close" and (w == "sticky" or nth == counts["close"]) and hit:
                run.check(False, "failed-close-unreported", what)
        else:
            run.probe("raised")
            run.check(hit and w not in ("short", "shortall"), "raised-without-cause", lambda: f"{what}: {err}")
    with open(source(d, c), "rb") as fh:
        run.check(fh.read() == data, "source-altered", what)
    # a reader takes it for a model only if it is one
    bad, _ = faults.fork(lambda: mistaken(d, c, want))
    run.check(not bad, "mistaken-for-a-model", lambda: f"after {what}: the file {bad}")
    # another process writes it again
    r, died = faults.fork(lambda: (write(sm, d, c), 1)[1])
    run.check(r is not None, "broken-afterwards", lambda: f"after {what}: writing again fails, status {died}")
    bad, _ = faults.fork(lambda: wrong(d, c, want))
    run.check(bad is None, "wrong-afterwards", lambda: f"after {what}: written again, the file {bad}")


def shrinks(c):
    if len(c["plans"]) > 1:
        for i in range(len(c["plans"])):
            yield dict(c, plans=[c["plans"][i]])
    if c["pad"]:
        yield dict(c, pad={})
    if c["old"]:
        yield dict(c, old=False)
    f = c["file"]
    if c["named"] not in (None, "o"):
        yield dict(c, named="o")
    if "name" in f:
        yield dict(c, file={k: v for k, v in f.items() if k != "name"})
    for k in ("nz", "nx", "ny"):
        if f.get(k, 0) > 4:
            yield dict(c, file=dict(f, **{k: 4}))


assert engine
