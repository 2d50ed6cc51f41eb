"""Random small mutations of the Python code, each against all checks until one reports it.
mutants.py SEED COUNT [share of the quick cases]"""
import ast
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(os.path.dirname(here))
FILES = {
    "SeismicMesh/migration/migration.py": None,
    "SeismicMesh/decomp/blocker.py": None,
    "SeismicMesh/generation/mesh_generator.py": None,
    "SeismicMesh/generation/utils.py": None,
    "SeismicMesh/geometry/utils.py": {"fix_mesh", "remove_external_entities", "delete_boundary_entities", "unique_rows", "unique_row_view", "unique_edges",
                                      "laplacian2_fixed_point", "get_boundary_edges", "get_boundary_vertices", "get_facets", "get_boundary_facets", "linter", "delete_unused"},
    "SeismicMesh/sizing/mesh_size_function.py": None,
}
SKIP = re.compile(r"print|warn|verbose|__doc__|isinstance|import ")
ORDER = "C05 C04 C02 C10 C16 C09 C14 C15 C18 C19 C13 C01 C06 C07 C08 C03 C11 C12".split()
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "=="}
OP = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*"}


def points(path, only):
    src = open(path).read()
    lines = src.splitlines(keepends=True)
    off = [0]
    for x in lines:
        off.append(off[-1] + len(x.encode()))
    b = src.encode()

    def at(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    out = []
    for fn in ast.walk(ast.parse(src)):
        if not isinstance(fn, ast.FunctionDef) or only and fn.name not in only or fn.name in ("plot_sizing_function", "_parse_kwargs", "_print_msg1"):
            continue
        for n in ast.walk(fn):
            if not hasattr(n, "lineno") or SKIP.search(lines[n.lineno - 1]):
                continue
            s, e = at(n)
            old = b[s:e].decode()
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
                l, r = at(n.left), at(n.comparators[0])
                out.append((s, e, b[l[0]:l[1]].decode() + " " + CMP[type(n.ops[0])] + " " + b[r[0]:r[1]].decode(), old, n.lineno))
            elif isinstance(n, ast.BinOp) and type(n.op) in OP:
                l, r = at(n.left), at(n.right)
                out.append((s, e, "(" + b[l[0]:l[1]].decode() + ") " + OP[type(n.op)] + " (" + b[r[0]:r[1]].decode() + ")", old, n.lineno))
            elif isinstance(n, ast.Constant) and type(n.value) in (int, float):
                out.append((s, e, repr(n.value + 1 if type(n.value) is int else n.value * 3), old, n.lineno))
            elif isinstance(n, ast.Constant) and type(n.value) is bool:
                out.append((s, e, repr(not n.value), old, n.lineno))
            elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
                out.append((s, e, "pass", old, n.lineno))
            elif isinstance(n, ast.If):
                s, e = at(n.test)
                out.append((s, e, "False", b[s:e].decode(), n.lineno))
            elif isinstance(n, ast.AugAssign) or isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Subscript):
                out.append((s, e, "pass", old, n.lineno))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "deepcopy", "ravel") and not n.args:
                v = at(n.func.value)
                out.append((s, e, b[v[0]:v[1]].decode(), old, n.lineno))
    return b, out


def main():
    rng = random.Random(int(sys.argv[1]))
    share = float(sys.argv[3]) if len(sys.argv) > 3 else 0.25
    cases = {}
    for p in ORDER:
        m = re.search(r"quick=(\d+)", open(f"{root}/dst/props/{p.lower()}.py").read())
        cases[p] = max(12, int(int(m[1]) * share))
    for _ in range(int(sys.argv[2])):
        f = rng.choice(list(FILES) + ["SeismicMesh/generation/mesh_generator.py", "SeismicMesh/migration/migration.py"])
        w = tempfile.mkdtemp(prefix="mutant.")
        try:
            shutil.copytree(os.environ.get("DST_REPO", "/repo"), w + "/r", symlinks=True)
            b, pts = points(f"{w}/r/{f}", FILES[f])
            s, e, new, old, line = rng.choice(pts)
            m = b[:s] + new.encode() + b[e:]
            try:
                compile(m, f, "exec")
            except SyntaxError:
                continue
            open(f"{w}/r/{f}", "wb").write(m)
            t, got = time.time(), "SURVIVES"
            for p in ORDER:
                r = subprocess.run(["./run.sh", "check.py", "--property", p, "--cases", str(cases[p])], cwd=root,
                                   env=dict(os.environ, DST_REPO=w + "/r", VERIF_SEED="1"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if r.returncode:
                    x = [y for y in r.stdout.splitlines() if not y.startswith(("case:", "decisions", "VIOLATION"))]
                    got = f"{p} {r.returncode} {(x or [''])[-1][:100]}"
                    break
            print(f"{f}:{line}: {' '.join(old.split())[:90]!r} -> {' '.join(new.split())[:90]!r}: {time.time() - t:.0f} s {got}", flush=True)
        finally:
            shutil.rmtree(w)


main()
