"""Velocity files, written by hand from the formats' definitions (not by the
code under test or its libraries), and what reading them must give."""
import itertools
import struct

import numpy as np

PERMS = [list(p) for p in itertools.permutations((0, 1, 2))]


def values(shape, seed, lo=1.5, hi=4.5, scale=1000.0):
    r = np.random.RandomState(seed)
    v = r.uniform(lo, hi, shape) * scale
    # smooth-ish with depth, as velocity models are; every value distinct
    v = v + np.arange(shape[0])[:, None].reshape((-1,) + (1,) * (len(shape) - 1)) * 10.0
    return v.astype(np.float32)


def gen(rng):
    f = _gen(rng)
    if rng.random() < 0.3:
        f["name"] = rng.randrange(28)
    return f


def _gen(rng):
    if rng.random() < 0.4:
        return dict(kind="segy", nz=rng.randrange(4, 24), nx=rng.randrange(4, 16), vseed=rng.randrange(1 << 30),
                    scale=rng.choice((1000.0, 1.0)))
    hi = 26 if rng.random() < 0.1 else 11
    return dict(kind="bin", nz=rng.randrange(3, hi), nx=rng.randrange(3, hi), ny=rng.randrange(3, hi),
                axes=rng.choice(PERMS), sort=rng.choice("FC"), order=rng.choice(("little", "big")),
                dtype=rng.choice(("float32", "float32", "float64")), vseed=rng.randrange(1 << 30))


def model(f):
    """The velocity model in z (upwards), x(, y): what a reader must return."""
    if f["kind"] == "segy":
        return values((f["nz"], f["nx"]), f["vseed"], scale=f["scale"])
    v = values((f["nz"], f["nx"], f["ny"]), f["vseed"])
    if f["dtype"] == "float64":
        v = v.astype(np.float64) + np.random.RandomState(f["vseed"] + 1).uniform(0, 1e-4, v.shape)
    return v


def content(f, v=None):
    v = model(f) if v is None else v
    a = v[::-1]                      # files hold depth, increasing
    if f["kind"] == "segy":
        return _segy(a)
    b = a.transpose([f["axes"].index(i) for i in range(3)])
    dt = np.dtype(f["dtype"]).newbyteorder({"little": "<", "big": ">"}[f["order"]])
    return b.astype(dt).tobytes(order=f["sort"])


def _segy(a):
    ns, nt = a.shape
    text = b"C 1 made by hand".ljust(3200, b" ")
    binh = bytearray(400)
    struct.pack_into(">iii", binh, 0, 1, 1, 1)
    struct.pack_into(">hh", binh, 12, nt, 0)          # traces per ensemble
    struct.pack_into(">hhhhh", binh, 16, 4000, 4000, ns, ns, 5)
    out = [text, bytes(binh)]
    for t in range(nt):
        h = bytearray(240)
        struct.pack_into(">iii", h, 0, t + 1, t + 1, 1)
        struct.pack_into(">h", h, 28, 1)
        struct.pack_into(">hh", h, 114, ns, 4000)
        out += [bytes(h), a[:, t].astype(">f4").tobytes()]
    return b"".join(out)


NAMES = dict(segy=("vel.v2.segy", "a.bin.segy", "vel 1.segy", "vel.hdf5.segy"), bin=("vel", "vel.hdf5", "vel.v2.bin", "vel 1.bin", "VEL.BIN", "vel.segy.bin", "vel.h5"))


def name(f):
    if f.get("name") is not None:
        return NAMES[f["kind"]][f["name"] % len(NAMES[f["kind"]])]
    return "vel.segy" if f["kind"] == "segy" else "vel.bin"


def read_args(f):
    if f["kind"] == "segy":
        return {}
    return dict(nz=f["nz"], nx=f["nx"], ny=f["ny"], byte_order=f["order"], axes_order=tuple(f["axes"]),
                axes_order_sort=f["sort"], dtype=f["dtype"])


def bbox(f):
    b = (-1000.0, 0.0, 0.0, 2000.0)
    return b if f["kind"] == "segy" else b + (0.0, 1500.0)


def sizing_args(rng, f):
    o = dict(hmin=rng.choice((20.0, 60.0)), hmax=1000.0, wl=rng.choice((0, 3, 5)), freq=rng.choice((2.0, 5.0)),
             grade=rng.choice((0.0, 0.15, 0.4)), grad=rng.choice((0.0, 0.0, 50.0)))
    if rng.random() < 0.3:
        o.update(dt=0.001, cr_max=0.2)
    if rng.random() < 0.4:
        o.update(domain_pad=rng.choice((100.0, 300.0)), pad_style=rng.choice(("edge", "constant", "linear_ramp")))
    if f["kind"] == "segy" and f["scale"] == 1.0:
        o["units"] = "km-s"
    return o


def samples(b):
    """Query points in and around the extents."""
    r = np.random.RandomState(5)
    d = len(b) // 2
    lo, hi = np.array(b[0::2]), np.array(b[1::2])
    return lo + r.uniform(-0.1, 1.1, (60, d)) * (hi - lo)


def write(path, data):
    with open(path, "wb") as fh:
        fh.write(data)
