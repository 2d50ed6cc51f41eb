"""Where the code under test comes from: /repo's current working tree.

The Python sources are imported from /repo directly.  The six C++ extensions
are taken from /repo when the build stamps say they were built from the sources
that are there now; any other is compiled here from the current source, into
/verif/.cache (never into /repo).
"""
import fcntl
import glob
import hashlib
import os
import runpy
import shutil
import subprocess
import sys
import sysconfig
import tempfile

REPO = os.environ.get("DST_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(VERIF, ".cache")
SUFFIX = sysconfig.get_config_var("EXT_SUFFIX")


class HarnessError(Exception):
    """The harness could not do its work; not a statement about the code."""


def _sha(*paths):
    h = hashlib.sha256()
    for p in paths:
        if os.path.exists(p):
            with open(p, "rb") as f:
                h.update(f.read())
        else:
            h.update(b"missing")
    return h.hexdigest()


def _headers():
    out = []
    for root, dirs, files in os.walk(REPO):
        if root == REPO:
            dirs[:] = [d for d in dirs if d not in ("build", ".git")]
        for f in files:
            if f.endswith((".h", ".hpp", ".hh")):
                out.append(os.path.join(root, f))
    return sorted(out, key=lambda p: os.path.relpath(p, REPO).encode())


def _common():
    h = hashlib.sha256()
    for p in [os.path.join(REPO, n) for n in ("setup.py", "setup.cfg", "pyproject.toml")] + _headers():
        if os.path.exists(p):
            with open(p, "rb") as f:
                h.update(f.read())
    return h.hexdigest()


def _extensions():
    cwd, argv = os.getcwd(), sys.argv
    try:
        os.chdir(REPO)
        sys.argv = ["setup.py"]
        ns = runpy.run_path(os.path.join(REPO, "setup.py"), run_name="vp")
    finally:
        os.chdir(cwd)
        sys.argv = argv
    return [(e.name, list(e.sources), list(e.libraries)) for e in ns["ext_modules"]]


def _stamp(name):
    try:
        with open(os.path.join(REPO, "build", "vp-stamps", name)) as f:
            return f.read().split()[0]
    except (OSError, IndexError):
        return None


def _compile(name, sources, libs, out):
    import pybind11

    inc = [f"-I{pybind11.get_include()}", f"-I{sysconfig.get_paths()['include']}"]
    tmp = tempfile.mkdtemp(prefix="dst-build-")
    try:
        obj = os.path.join(tmp, name + SUFFIX)
        cmd = ["g++", "-O2", "-g0", "-DNDEBUG", "-std=c++17", "-fPIC", "-shared", "-fvisibility=hidden", "-w",
               *inc, *[os.path.join(REPO, s) for s in sources], "-o", obj, *["-l" + x for x in libs]]
        env = dict(os.environ, TMPDIR=tmp, LC_ALL="C.UTF-8")
        r = subprocess.Popen(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return r, obj, out, tmp
    except BaseException:
        shutil.rmtree(tmp, ignore_errors=True)
        raise


def ensure_ext():
    """A directory holding the six extensions built from the current sources."""
    exts = _extensions()
    common = _common()
    fresh_common = _stamp("common") == common
    key = hashlib.sha256(common.encode())
    plan = []
    for name, sources, libs in exts:
        h = _sha(*[os.path.join(REPO, s) for s in sources])
        key.update((name + h).encode())
        so = os.path.join(REPO, name + SUFFIX)
        use = so if (fresh_common and _stamp(name) == h and os.path.exists(so)) else None
        plan.append((name, sources, libs, h, use))
    key = key.hexdigest()[:20]
    os.makedirs(CACHE, exist_ok=True)
    final = os.path.join(CACHE, "ext-" + key)
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.isdir(final):
            return final, [p[0] for p in plan if not p[4]]
        tmp = tempfile.mkdtemp(prefix="ext-", dir=CACHE)
        jobs, failed, built = [], [], []
        for name, sources, libs, h, use in plan:
            dst = os.path.join(tmp, name + SUFFIX)
            pool = os.path.join(CACHE, f"so-{name}-{h[:16]}-{common[:16]}{SUFFIX}")
            if use:
                shutil.copy2(use, dst)
            elif os.path.exists(pool):
                shutil.copy2(pool, dst)
                built.append(name)
            else:
                jobs.append((name, pool) + _compile(name, sources, libs, dst))
                built.append(name)
        for name, pool, proc, obj, dst, d in jobs:
            out = proc.communicate()[0]
            if proc.returncode:
                failed.append(f"{name}:\n{out[-3000:]}")
            else:
                shutil.copy2(obj, pool)
                shutil.copy2(obj, dst)
            shutil.rmtree(d, ignore_errors=True)
        if failed:
            shutil.rmtree(tmp, ignore_errors=True)
            raise HarnessError("extensions do not compile: " + "\n".join(failed))
        os.rename(tmp, final)
        return final, built


_READY = {}


def setup_import():
    """Prepare this interpreter to import the code under test; idempotent."""
    if _READY:
        return _READY["ext"]
    sys.dont_write_bytecode = True
    os.environ.setdefault("MPLBACKEND", "agg")
    ext, built = ensure_ext()
    for p in (REPO, ext):
        if p in sys.path:
            sys.path.remove(p)
        sys.path.insert(0, p)
    import mpi4py

    mpi4py.rc.initialize = False
    mpi4py.rc.finalize = False
    _READY.update(ext=ext, built=built)
    return ext


PKG = "SeismicMesh"


def pkg_modules():
    return {k: m for k, m in sys.modules.items() if k == PKG or k.startswith(PKG + ".")}


def fresh_package():
    """A new, independent instance of the Python package (its own module
    globals), as a separate process would have.  Returns its module table."""
    saved = pkg_modules()
    for k in saved:
        del sys.modules[k]
    try:
        __import__(PKG)
        mods = pkg_modules()
        f = mods[PKG].__file__
        if not f.startswith(REPO + "/"):
            raise HarnessError(f"imported {f}, not from {REPO}")
        return mods
    finally:
        for k in pkg_modules():
            del sys.modules[k]
        sys.modules.update(saved)


def swap_package(mods):
    """Make `mods` what `import SeismicMesh` finds; returns what was there."""
    old = pkg_modules()
    if mods is not None and old.get(PKG) is mods.get(PKG):
        return old
    for k in old:
        del sys.modules[k]
    if mods:
        sys.modules.update(mods)
    return old


def repo_head():
    r = subprocess.run(["git", "-C", REPO, "rev-parse", "HEAD"], capture_output=True, text=True)
    return r.stdout.strip()


def scratch(prefix="dst-"):
    return tempfile.mkdtemp(prefix=prefix)


assert glob  # kept for callers
