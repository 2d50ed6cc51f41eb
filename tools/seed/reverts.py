"""Undo each fix: commit on a copy of /repo and run its property's check, which must report it again.
reverts.py [commit..] [property..]"""
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(os.path.dirname(here))
only = [x for x in sys.argv[1:] if not x.startswith("C")]
also = [x for x in sys.argv[1:] if x.startswith("C")]   # checks to run instead of the property's own
for line in open(root + "/known_findings.jsonl"):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", line.strip())
    if not m or only and m[2] not in only:
        continue
    w = tempfile.mkdtemp(prefix="revert.")
    r = w + "/r"
    try:
        shutil.copytree("/repo", r, symlinks=True)
        subprocess.run(["git", "-C", r, "status"], stdout=subprocess.DEVNULL)
        patch = subprocess.run(["git", "-C", r, "show", m[2]], stdout=subprocess.PIPE, check=True).stdout
        x = subprocess.run(["git", "-C", r, "apply", "-R", "--3way", "-"], input=patch, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if x.returncode:
            print(m[1], m[2], "DOES NOT REVERT", x.stdout.decode().splitlines()[-1:], flush=True)
            continue
        for p in also or [m[1]]:
            t = time.time()
            c = subprocess.run(["./run.sh", "check.py", "--property", p], cwd=root, env=dict(os.environ, DST_REPO=r, VERIF_SEED="1"),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            out = [y for y in c.stdout.splitlines() if not y.startswith(("case:", "decisions", "VIOLATION"))]
            print(p, m[2], c.returncode, f"{time.time() - t:.0f} s", (out or [""])[-1][:150], "<-", m[3][:70], flush=True)
    finally:
        shutil.rmtree(w)
