#!/usr/bin/env python3
"""plant.py FILE.py...: plant bugs in a scratch copy of /repo, confirm them, keep them under seeded/.
FILE.py defines BUGS = [dict(id, property, file, edits=[(old, new)...], needs, breaks, demo, shim=bool)]."""
import os, shutil, subprocess, sys, json, tempfile, runpy
REPO = os.environ.get("VERIF_REPO", "/repo")
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(cmd, cwd=None, t=600):
    p = subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
    return p.returncode, p.stdout.decode("utf8", "replace")


def plant(b, only=None):
    d = os.path.join(V, "seeded", b["id"])
    w = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    try:
        run("git -C %s archive HEAD | tar -x -C %s" % (REPO, w))
        run("git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm x", cwd=w)
        files = b["file"] if isinstance(b["file"], list) else [b["file"]] * len(b["edits"])
        for f, (o, n) in zip(files, b["edits"]):
            p = os.path.join(w, "include/nil/crypto3/algebra", f)
            s = open(p).read()
            if s.count(o) != 1:
                return "%s: anchor occurs %d times in %s: %s" % (b["id"], s.count(o), f, o[:60])
            open(p, "w").write(s.replace(o, n))
        rc, diff = run("git diff", cwd=w)
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        if b.get("shim"):
            shutil.copytree(V + "/shim", d + "/shim", dirs_exist_ok=True)
        open(d + "/demo.cpp", "w").write(b["demo"].lstrip("\n"))
        open(d + "/demo.sh", "w").write('''#!/bin/bash
# exit 0 when the property holds on the demonstrated input, nonzero otherwise; run with cwd /repo
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d)
trap 'rm -rf "$out"' EXIT
clang++-18 -std=c++17 -O1 -w -fconstexpr-steps=2147483647 -I"$here/shim" -I"$PWD/include" "$here/demo.cpp" -o "$out/demo" || exit 3
timeout 60 "$out/demo"
''')
        os.chmod(d + "/demo.sh", 0o755)
        bd = w + "/_b"
        rc, o = run("CC=clang-18 CXX=clang++-18 cmake -S /opt/vp/cmake -B %s -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DREPO=%s && "
                    "ninja -C %s algebra_headers && ctest --test-dir %s --timeout 300" % (bd, w, bd, bd))
        if rc:
            return b["id"] + ": build/tests fail with the change: " + o[-600:]
        rc0, o0 = run(["bash", d + "/demo.sh"], cwd=REPO)
        rc1, o1 = run(["bash", d + "/demo.sh"], cwd=w)
        if rc0 != 0 or rc1 == 0 or (rc1 == 3 and b["property"] != "C01"):    # (C01: not compiling is the failure)
            return "%s: demo unchanged=%d changed=%d %s %s" % (b["id"], rc0, rc1, o0[-300:], o1[-500:])
        return b["id"] + ": ok"
    finally:
        shutil.rmtree(w)


if __name__ == "__main__":
    import concurrent.futures as cf
    bugs = [b for f in sys.argv[1:] if f.endswith(".py") for b in runpy.run_path(f)["BUGS"]]
    sel = [a for a in sys.argv[1:] if not a.endswith(".py")]
    with cf.ThreadPoolExecutor(6) as ex:
        for r in ex.map(plant, [b for b in bugs if not sel or b["id"] in sel]):
            print(r)
