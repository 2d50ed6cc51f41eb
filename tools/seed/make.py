"""Builds /verif/seeded/<id>/ from the definitions in bugs.py (edits as old/new text)."""
import difflib, json, os, shutil, subprocess, sys

here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
OUT = os.path.join(os.path.dirname(os.path.dirname(here)), "seeded")
import bugs

only = set(sys.argv[1:])
for b in bugs.BUGS:
    if only and b["id"] not in only:
        continue
    d = os.path.join(OUT, b["id"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    byfile = {}
    for f, old, new in b["edits"]:
        s = byfile.setdefault(f, [subprocess.check_output(["git", "-C", "/repo", "show", "HEAD:" + f], text=True)] * 2)
        assert s[1].count(old) == 1, (b["id"], f, s[1].count(old), old)
        s[1] = s[1].replace(old, new)
    with open(os.path.join(d, "patch.diff"), "w") as out:
        for f, (a, c) in byfile.items():
            out.write(f"diff --git a/{f} b/{f}\n")
            out.writelines(difflib.unified_diff(a.splitlines(True), c.splitlines(True), "a/" + f, "b/" + f))
    open(os.path.join(d, "demo.py"), "w").write(b["demo"].lstrip("\n"))
    shutil.copy(os.path.join(here, "demo.sh"), d)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    if "fakempi" in b["demo"]:
        shutil.copy(os.path.join(here, "fakempi.py"), d)
    json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
    print(b["id"])
