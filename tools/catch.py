#!/usr/bin/env python3
"""catch.py [--all] [ids...]: run the check of each planted bug's property against a scratch copy with the bug."""
import json, os, re, shutil, subprocess, sys, tempfile
import concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(i):
    d = os.path.join(V, "seeded", i)
    w = tempfile.mkdtemp(prefix="catch-", dir="/tmp")
    try:
        subprocess.run("git -C ${VERIF_REPO:-/repo} archive HEAD | tar -x -C %s && cd %s && git apply %s/patch.diff" % (w, w, d), shell=True, check=True)
        p = json.load(open(d + "/meta.json"))["property"]
        r = subprocess.run([sys.executable, V + "/check.py", p, "quick"], env=dict(os.environ, VERIF_REPO=w, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_SCRATCH="1"),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=V)
        o = r.stdout.decode("utf8", "replace")
        hit = r.returncode == 1 and "VIOLATION property=" + p in o
        mm = re.findall(r"mismatch: (.{0,160})", o)
        return "%-16s %-4s %s rc=%d %s" % (i, p, "CAUGHT" if hit else "MISSED", r.returncode, (mm or [o[-300:]])[0])
    finally:
        shutil.rmtree(w)


ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
with cf.ThreadPoolExecutor(2) as ex:
    for r in ex.map(one, ids):
        print(r, flush=True)
