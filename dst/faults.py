"""The seam under file I/O and memory allocation: a library preloaded into the
check's own process (dst/shim/shim.cpp), driven from here.

Faults only reach files below one scratch directory and only allocations made
from chosen shared objects, and only while armed.
"""
import contextlib
import ctypes
import errno
import hashlib
import os
import subprocess
import sys
import tempfile

from . import env, mpi

KINDS = ("open_r", "open_w", "read", "write", "seek", "truncate", "close", "sync", "unlink")
ERRNO, SHORT, EOFR, CRASH, TORN = 1, 2, 3, 4, 5
CRASH_STATUS = 77


def build():
    src = os.path.join(env.VERIF, "dst", "shim", "shim.cpp")
    with open(src, "rb") as f:
        h = hashlib.sha256(f.read()).hexdigest()[:16]
    os.makedirs(env.CACHE, exist_ok=True)
    out = os.path.join(env.CACHE, f"shim-{h}.so")
    if not os.path.exists(out):
        fd, tmp = tempfile.mkstemp(dir=env.CACHE, suffix=".so")
        os.close(fd)
        r = subprocess.run(["g++", "-O2", "-g0", "-std=c++17", "-fPIC", "-shared", "-w", "-U_FORTIFY_SOURCE",
                            "-D_FORTIFY_SOURCE=0", "-fno-builtin", src, "-o", tmp, "-ldl"], capture_output=True, text=True)
        if r.returncode:
            raise env.HarnessError("shim does not compile: " + r.stderr[-2000:])
        os.rename(tmp, out)
    return out


def ensure_preloaded():
    """Re-run this program with the shim in front of libc, if it is not yet."""
    so = build()
    if so in os.environ.get("LD_PRELOAD", "").split(":"):
        return
    if os.environ.get("DST_SHIM"):
        raise env.HarnessError("the shim was not preloaded")
    e = dict(os.environ, LD_PRELOAD=so, DST_SHIM="1")
    # the same addresses every time, where the system allows it: CGAL hashes by address
    libc = ctypes.CDLL(None)
    at = libc.personality(0xFFFFFFFF)
    if at != -1:
        libc.personality(at | 0x0040000)
    sys.stdout.flush()
    os.execve(sys.executable, [sys.executable] + sys.argv, e)


_LIB = None


def lib():
    global _LIB
    if _LIB is None:
        _LIB = ctypes.CDLL(None)
        if not hasattr(_LIB, "shim_reset"):
            raise env.HarnessError("the shim is not loaded")
        L = ctypes.c_long
        for f in ("shim_count", "shim_applied", "shim_full_hits", "shim_bad_hits", "shim_alloc_count", "shim_alloc_fired"):
            getattr(_LIB, f).restype = L
        _LIB.shim_disk.argtypes = [L]
        _LIB.shim_bad.argtypes = [L, L]
        _LIB.shim_alloc_arm.argtypes = [L, ctypes.c_int, L]
        _LIB.shim_alloc_range.argtypes = [ctypes.c_size_t, ctypes.c_size_t, ctypes.c_int]
        mpi.SWITCH_HOOK = lambda rank: _LIB.shim_tag(rank)
    return _LIB


class IO:
    """Faults on files below `directory`; `plan` is a list of dicts
    (kind, nth, effect[, arg, sticky]) and optionally a disk size."""

    def __init__(self, directory, plan=(), disk=None, bad=None):
        self.dir, self.plan, self.disk, self.bad = directory, plan, disk, bad

    def __enter__(self):
        s = lib()
        s.shim_reset()
        s.shim_prefix(self.dir.encode())
        for p in self.plan:
            arg = p.get("arg", 0)
            if isinstance(arg, str):
                arg = getattr(errno, arg)
            s.shim_fault(KINDS.index(p["kind"]), p["nth"], p["effect"], arg, int(p.get("sticky", False)))
        if self.disk is not None:
            s.shim_disk(self.disk)
        if self.bad:
            s.shim_bad(*self.bad)
        s.shim_arm(1)
        return self

    def __exit__(self, *exc):
        s = lib()
        s.shim_arm(0)
        self.counts = {k: s.shim_count(i) for i, k in enumerate(KINDS)}
        self.applied = {k: s.shim_applied(i) for i, k in enumerate(KINDS) if s.shim_applied(i)}
        self.full = s.shim_full_hits()
        self.unreadable = s.shim_bad_hits()
        out = (ctypes.c_int * 4)()
        self.log = []
        for i in range(s.shim_nlog()):
            s.shim_log(i, out)
            self.log.append((KINDS[out[0]], out[1], out[2]))
        return False

    @property
    def hit(self):
        return bool(self.applied or self.full or self.unreadable)


def mapped(*needles):
    """Address ranges of the loaded shared objects whose path contains a needle."""
    out = []
    with open("/proc/self/maps") as f:
        for line in f:
            p = line.split(None, 5)
            if len(p) == 6 and any(n in p[5] for n in needles):
                lo, hi = (int(x, 16) for x in p[0].split("-"))
                out.append((lo, hi))
    return out


def _mapped(path):
    """-> ([load address, (lo, hi) of each segment..], [(address, size, symbol)])"""
    name = os.path.basename(path)
    with open("/proc/self/maps") as f:
        segs = [line.split(None, 5) for line in f]
    segs = [s for s in segs if len(s) == 6 and s[5].strip().endswith("/" + name)]
    if not segs:
        raise env.HarnessError(f"{name} is not mapped")
    at = [tuple(int(x, 16) for x in s[0].split("-")) for s in segs]
    r = subprocess.run(["nm", "-C", "-S", "--defined-only", path], capture_output=True, text=True, env=dict(os.environ, LD_PRELOAD=""))
    syms = [line.split(None, 3) for line in r.stdout.splitlines()]
    syms = [(int(s[0], 16), int(s[1], 16), s[3]) for s in syms if len(s) == 4 and s[2] in "tTwW"]
    if r.returncode or not syms:
        raise env.HarnessError(f"no symbols in {name}: {r.stderr[:300]}")
    init = [(a, sym) for a, _, sym in syms if sym.startswith("PyInit_") and "." not in sym and "(" not in sym]
    if len(init) != 1:
        raise env.HarnessError(f"{name} is not a Python extension")
    base = ctypes.cast(getattr(ctypes.CDLL(path), init[0][1]), ctypes.c_void_p).value - init[0][0]
    return [base] + at, syms


def extension_ranges(paths):
    """Where operator new may be refused: the code of the extensions, without
    - pybind11's table of instances, which it updates outside any try block (the
      process ends when that fails, whatever the extension does),
    - the buckets of boost's hash tables, which CGAL fills in an order that depends
      on addresses (their number would differ between runs),
    - CGAL's exact numbers (Mpzf, which allocates by new[]): their operators are
      noexcept or leave an object that is destroyed twice when a request fails."""
    out = []
    for path in paths:
        segs, syms = _mapped(path)
        sub = []
        for a, n, sym in syms:
            if "grouped_bucket_array" in sym or "pybind11::detail::instance" in sym and "pybind11::cpp_function" not in sym or "init_instance" in sym:
                sub.append((segs[0] + a, segs[0] + a + n, 0))
            elif "CGAL::" in sym or "Mpzf" in sym:
                sub.append((segs[0] + a, segs[0] + a + n, 2))
        for lo, hi in segs[1:]:
            at = lo
            for a, b, what in sorted(sub):
                a, b = max(a, at), min(b, hi)
                if a >= b:
                    continue
                if a > at:
                    out.append((at, a, 1))
                out.append((a, b, what))
                at = b
            if at < hi:
                out.append((at, hi, 1))
    return sorted(out)


class _Allocator(ctypes.Structure):
    _fields_ = [("ctx", ctypes.c_void_p)] + [(f, ctypes.c_void_p) for f in ("malloc", "calloc", "realloc", "free")]


class _Handler(ctypes.Structure):
    _fields_ = [("name", ctypes.c_char * 127), ("version", ctypes.c_uint8), ("allocator", _Allocator)]


_HANDLER = None


def own_numpy():
    """Let numpy take the data of its arrays from the shim."""
    global _HANDLER
    if _HANDLER is not None:
        return
    import numpy as np

    try:
        api = np.core.multiarray._ARRAY_API
    except AttributeError:
        api = np._core.multiarray._ARRAY_API
    path = np.core._multiarray_umath.__file__
    segs, syms = _mapped(path)
    here = [(segs[0] + a, segs[0] + a + n) for a, n, sym in syms if sym == "PyArray_NewFromDescr_int"]
    if len(here) != 1:
        raise env.HarnessError("numpy's function that creates arrays is not found")
    lib().shim_np_creator(ctypes.c_size_t(here[0][0]), ctypes.c_size_t(here[0][1]))
    py = ctypes.pythonapi
    py.PyCapsule_GetPointer.restype = ctypes.c_void_p
    py.PyCapsule_GetPointer.argtypes = [ctypes.py_object, ctypes.c_char_p]
    py.PyCapsule_New.restype = ctypes.py_object
    py.PyCapsule_New.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_void_p]
    table = ctypes.cast(py.PyCapsule_GetPointer(api, None), ctypes.POINTER(ctypes.c_void_p))
    setter = ctypes.PYFUNCTYPE(ctypes.py_object, ctypes.py_object)(table[304])
    _HANDLER = h = _Handler()
    h.name, h.version = b"dst", 1
    for f in ("malloc", "calloc", "realloc", "free"):
        setattr(h.allocator, f, ctypes.cast(getattr(lib(), "shim_np_" + f), ctypes.c_void_p).value)
    setter(py.PyCapsule_New(ctypes.addressof(h), b"mem_handler", None))
    if np.core.multiarray.get_handler_name(np.zeros(3)) != "dst":
        raise env.HarnessError("numpy does not take the memory handler")


class Alloc:
    """The nth allocation made by operator new from the given address ranges
    (None: the nth of at least `least` bytes for numpy's arrays) fails, and the
    length-1 after it."""

    def __init__(self, ranges, nth=-1, length=1, least=0):
        self.ranges, self.nth, self.length, self.least = ranges or (), nth, length, least
        self.numpy = ranges is None

    def __enter__(self):
        s = lib()
        s.shim_alloc_reset()
        for lo, hi, what in self.ranges:
            if s.shim_alloc_range(lo, hi, what):
                raise env.HarnessError("too many address ranges")
        s.shim_np(int(self.numpy))
        s.shim_alloc_arm(self.nth, self.length, self.least)
        return self

    def __exit__(self, *exc):
        s = lib()
        s.shim_alloc_disarm()
        self.count = s.shim_alloc_count()
        self.fired = s.shim_alloc_fired()
        return False

    def sites(self):
        """For each distinct origin of an allocation (in the order in which they
        appear) the numbers of its allocations."""
        s = lib()
        buf = (ctypes.c_uint64 * min(self.count, 1 << 20))()
        s.shim_alloc_sites.restype = ctypes.c_long
        k = s.shim_alloc_sites(buf, ctypes.c_long(len(buf)))
        out = {}
        for i in range(k):
            out.setdefault(buf[i], []).append(i + 1)
        return list(out.values())


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="dst-io-")
    try:
        yield d
    finally:
        for root, dirs, files in os.walk(d, topdown=False):
            for f in files:
                os.unlink(os.path.join(root, f))
            for x in dirs:
                os.rmdir(os.path.join(root, x))
        os.rmdir(d)


def fork(fn):
    """fn() in a forked process -> (value, None), (None, exit status) when it
    died, or (None, "signal ...")."""
    import pickle

    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            data = pickle.dumps(fn())
            with os.fdopen(w, "wb") as f:
                f.write(data)
        except BaseException:
            import traceback

            traceback.print_exc()
            os._exit(98)
        os._exit(0)
    os.close(w)
    buf = b""
    while True:
        b = os.read(r, 1 << 20)
        if not b:
            break
        buf += b
    os.close(r)
    st = os.waitpid(pid, 0)[1]
    if os.WIFSIGNALED(st):
        return None, f"signal {os.WTERMSIG(st)}"
    if os.WEXITSTATUS(st) == 0 and buf:
        return pickle.loads(buf), None
    return None, os.WEXITSTATUS(st)


class Interrupted(BaseException):
    """Stands for a KeyboardInterrupt or any asynchronous exception."""


class InterruptAt:
    """Raises Interrupted at the nth line the package executes."""

    def __init__(self, nth):
        self.nth, self.n, self.fired = nth, 0, False
        self.root = env.REPO + os.sep + env.PKG + os.sep

    def _line(self, frame, event, arg):
        if event == "line":
            self.n += 1
            if self.n == self.nth:
                self.fired = True
                raise Interrupted()
        return self._line

    def _call(self, frame, event, arg):
        return self._line if frame.f_code.co_filename.startswith(self.root) else None

    def __enter__(self):
        self.old = sys.gettrace()
        sys.settrace(self._call)
        return self

    def __exit__(self, *exc):
        sys.settrace(self.old)
        return False
