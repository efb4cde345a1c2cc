#!/usr/bin/env python3
"""mutate.py PROPERTY FILE[:from-to] [max] - mutation testing: one small change at a time to FILE (below
/repo/include/nil/crypto3) in a scratch copy, the quick check of PROPERTY on each; lists the changes nothing noticed.
Specification runs and unaffected driver objects are reused from a cache, which the registered checks never do.  MUT_FAST=1 leaves out the walks over named curves and fields."""
import concurrent.futures as cf
import hashlib, os, random, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = "/tmp/mutcache"
RUN = r'''
import sys, os, hashlib, shutil, threading
sys.path.insert(0, "%s/lib"); sys.path.insert(0, "%s")
import vf
C = "%s"
os.makedirs(C, exist_ok=True)
def key(*a): return os.path.join(C, hashlib.sha1(repr(a).encode()).hexdigest())
tlc0, q0, cc0 = vf.Check.tlc, vf.Check.qcases, vf.Check.cc
def again(c, k, out):
    if os.path.exists(k):
        with c.lock:
            open(c.path(out), "ab").write(open(k, "rb").read())
        return c.path(out)
def tlc(c, name, module, consts, out, *a, **kw):
    k = key("tlc", c.pid, name, module, consts, out)
    r = again(c, k, out)
    if r: return r
    before = os.path.getsize(c.path(out)) if os.path.exists(c.path(out)) else 0
    r = tlc0(c, name, module, consts, out, *a, **kw)
    d = open(r, "rb").read()[before:]
    open(k + ".t", "wb").write(d); os.rename(k + ".t", k)
    return r
def qcases(c, name, module, main, out, *a, **kw):
    k = key("q", c.pid, name, module, main, out)
    r = again(c, k, out)
    if r: return r
    before = os.path.getsize(c.path(out)) if os.path.exists(c.path(out)) else 0
    r = q0(c, name, module, main, out, *a, **kw)
    d = open(r, "rb").read()[before:]
    open(k + ".t", "wb").write(d); os.rename(k + ".t", k)
    return r
def cc(c, src, obj, defs=(), opt="-O1", extra=(), timeout=850):
    s = src if os.path.isabs(src) else os.path.join(vf.DRIVERS, src)
    k = key("o", open(s).read().replace(c.dir, ""), list(defs), opt, list(extra))
    # the changed file is a dependency?  then compile
    if os.path.exists(k + ".d"):
        ds = open(k + ".d").read()
        if not any(f in ds for f in os.environ.get("MUT_FILES", "").split(":") if f) and os.path.exists(k + ".o"):
            shutil.copy(k + ".o", c.path(obj)); return c.path(obj)
    r = cc0(c, src, obj, defs, opt, tuple(extra) + ("-MD", "-MF", c.path(obj) + ".d"), timeout)
    if not os.environ.get("MUT_FILES"):
        shutil.copy(c.path(obj) + ".d", k + ".d"); shutil.copy(r, k + ".o")
    return r
vf.Check.tlc, vf.Check.qcases, vf.Check.cc = tlc, qcases, cc
if os.environ.get("MUT_FAST"):
    import ncurves, fields
    ncurves.group_walk = fields.walk = lambda *a, **k: None
sys.argv = ["check.py"] + sys.argv[1:]
exec(open("%s/check.py").read())
''' % (V, V, CACHE, V)

OPS = [(r"<=", ["<"]), (r"(?<![<\-=>])>=", [">"]), (r"==", ["!="]), (r"!=", ["=="]), (r"&&", ["||"]), (r"\|\|", ["&&"]),
       (r"(?<= )<(?= )", ["<=", ">"]), (r"(?<= )>(?= )", [">=", "<"]), (r"(?<= )\+(?= )", ["-"]), (r"(?<= )-(?= )", ["+"]),
       (r"\+=", ["-="]), (r"-=", ["+="]), (r"(?<= )\*(?= )", ["+"]), (r"(?<= )/(?= )", ["*"]), (r"\*=", ["+="]),
       (r"(?<![\w.])0(?![\w.x])", ["1"]), (r"(?<![\w.])1(?![\w.])", ["0", "2"]), (r"(?<![\w.])2(?![\w.])", ["1", "3"]),
       (r"!(?=[\w(])", [""]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\+\+", ["--"]), (r"--", ["++"]),
       (r"\.X\b", [".Y", ".Z"]), (r"\.Y\b", [".X", ".Z"]), (r"\.Z\b", [".X", ".Y"]), (r"\bsquared\(\)", ["doubled()"]), (r"\bdoubled\(\)", ["squared()"]),
       (r"\bzero\(\)", ["one()"]), (r"\bone\(\)", ["zero()"]), (r"\bdata\[0\]", ["data[1]"]), (r"\bdata\[1\]", ["data[0]", "data[2]"]), (r"\bdata\[2\]", ["data[1]"]),
       (r"<<", [">>"]), (r">>", ["<<"]), (r"\belse\b", [""]), (r"\breturn\b(?= \w)", ["return -"]), (r"\bN\b", ["M"]), (r"\bM\b", ["N"]), (r"\[i\]\[j\]", ["[j][i]"]), (r"\bi\b", ["j"]), (r"\bj\b", ["i"])]


def mutants(text, lo, hi, rng):
    out = []
    code = False
    for n, l in enumerate(text.split("\n"), 1):
        s = l.strip()
        if not lo <= n <= hi or s.startswith(("//", "*", "/*", "#", "template", "using", "typedef", "namespace", "friend")) or not s:
            continue
        for pat, reps in OPS:
            for m in re.finditer(pat, l):
                if m.start() > (l.find("//") if "//" in l else 10 ** 6):
                    continue
                if pat in ("<<", ">>") and "template" in l:
                    continue
                for r in reps:
                    out.append((n, l, l[:m.start()] + r + l[m.end():]))
        if s.endswith(";") and not s.startswith(("return", "typedef", "using", "const ", "static", "constexpr", "}")) and ("=" in s or "(" in s):
            out.append((n, l, ""))
    rng.shuffle(out)
    return out


def main():
    pid, spec = sys.argv[1], sys.argv[2]
    mx = int(sys.argv[3]) if len(sys.argv) > 3 else 20
    f, _, rg = spec.partition(":")
    lo, hi = [int(x) for x in rg.split("-")] if rg else (28, 10 ** 6)
    run = os.path.join(tempfile.mkdtemp(prefix="mut-", dir="/tmp"), "run.py")
    open(run, "w").write(RUN)
    env = dict(os.environ, VERIF_SCRATCH="1", VERIF_SEED="1", VERIF_TIER="quick")
    if not os.path.exists(CACHE + "/base-" + pid + os.environ.get("MUT_FAST", "")):
        r = subprocess.run([sys.executable, run, pid, "quick"], env=dict(env, VERIF_REPO="/repo"), cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            sys.exit("baseline: " + r.stdout.decode()[-800:])
        open(CACHE + "/base-" + pid + os.environ.get("MUT_FAST", ""), "w").write("ok")
    rel = "include/nil/crypto3/" + f
    text = open("/repo/" + rel).read()
    ms = mutants(text, lo, hi, random.Random(hashlib.sha1((spec + os.environ.get("MUT_SEED", "")).encode()).hexdigest()))[:mx]

    def one(m):
        n, old, new = m
        w = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
        try:
            subprocess.run("git -C /repo archive HEAD include | tar -x -C %s" % w, shell=True, check=True)
            ls = text.split("\n")
            ls[n - 1] = new
            open(os.path.join(w, rel), "w").write("\n".join(ls))
            r = subprocess.run([sys.executable, run, pid, "quick"], env=dict(env, VERIF_REPO=w, MUT_FILES="/" + os.path.relpath(rel, "include")), cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=1500)
            o = r.stdout.decode("utf8", "replace")
            return r.returncode, "does not compile" in o, n, old.strip(), new.strip(), o[-300:] if r.returncode == 2 else ""
        except subprocess.TimeoutExpired:
            return 9, False, n, old.strip(), new.strip(), ""
        finally:
            shutil.rmtree(w)
    k = b = 0
    with cf.ThreadPoolExecutor(int(os.environ.get("MUT_JOBS", "3"))) as ex:
        for rc, nb, n, o, nw, t in ex.map(one, ms):
            if nb:
                b += 1
            elif rc == 1:
                k += 1
            else:
                print("%s %s:%d rc=%d\n   - %s\n   + %s %s" % (pid, f, n, rc, o, nw, t), flush=True)
    print("%s %s: %d mutants, %d noticed, %d do not compile" % (pid, f, len(ms), k, b), flush=True)
    shutil.rmtree(os.path.dirname(run))


main()
