"""Named curve groups at their real sizes: parameters (G05) and walks (G01-G04)."""
from concurrent.futures import ThreadPoolExecutor
import curvetab, fields, vf


def units(c, name, groups, per=1, opt="-O0"):
    us = []
    for i in range(0, len(groups), per):
        us.append((curvetab.unit(c.path("%s_%d.cpp" % (name, i)), groups[i:i + per]), [], opt))
    return [("nf_main.cpp", [])] + us


def dumped(c, exe):
    f = c.path("dump.txt")
    rc, log = vf.sh([exe, "--dump", f], 300)
    if rc != 0:
        c.fails.append(("constants", "the library's parameters could not be read: rc %d %s" % (rc, log[-300:]), "", None))
        return None
    rec = {}
    for line in open(f):
        w = line.split()
        rec.setdefault(w[0], {})[w[2]] = w[3:]
    return rec


def g05(c):
    c.assume = ["the published parameters are restated in PublishedCurves.qnt; generators of the libff curves and of BLS12-377 G2 are pinned to the values in use",
                "primality of the orders is Miller-Rabin to fixed bases; that the base field is right is checked by comparing moduli"]
    gs = [g[:5] + (g[5][:1],) for g in curvetab.GROUPS]
    exe = c.build("nc", units(c, "nc", gs))
    rec = dumped(c, exe)
    if rec is None:
        return
    keys = [(k, k.split("/")[0]) for k in sorted(rec)]
    want = sorted(g[0] for g in gs) + ["sm2p_v1"]
    if sorted(n for _, n in keys) != sorted(want):
        raise vf.Broken("parameters of %s expected" % want)
    pairs = [("ed25519", "curve25519"), ("babyjubjub.te", "babyjubjub.mg"), ("jubjub.te", "jubjub.mg")]
    keys.sort(key=lambda k: (-len(rec[k[0]]["generator"]), -len(rec[k[0]]["modulus"][0])))

    def text(i):
        ks = keys[i::8]
        ps = pairs[i - 5:i - 4] if i >= 5 else []
        q = lambda l: "[" + ", ".join('"%s"' % x for x in l) + "]"
        need = [k for k, _ in ks] + [x + "/aff" for p in ps for x in p]
        return len(ks) + len(ps), "  pure val KEYS: List[str] = %s\n  pure val NAMES: List[str] = %s\n  pure val PAIRS: List[str] = %s\n  pure val PKEYS: List[str] = %s\n  pure val MKEYS: List[str] = %s\n%s" % (
            q(k for k, _ in ks), q(n for _, n in ks), q(p[0] for p in ps), q(p[0] + "/aff" for p in ps), q(p[1] + "/aff" for p in ps), fields.record(rec, need))
    fields.judge(c, "CurveConstants", text, [k for k, _ in keys] + [p[0] for p in pairs], rec, "curves")


MATES = {"ed25519": "curve25519", "babyjubjub.te": "babyjubjub.mg", "jubjub.te": "jubjub.mg"}


def sel(c, groups, kinds, i):
    q = lambda l: "[" + ", ".join('"%s"' % x for x in l) + "]"
    return {"Sel.qnt": """module Sel {
  type Grp = { name: str, keys: List[str], cos: List[str], mate: str }
  pure val GROUPS: List[Grp] = [%s]
  pure val KINDS: List[str] = %s
  pure val SEED = %d
}
""" % (", ".join('{ name: "%s", keys: %s, cos: %s, mate: "%s" }' % (g[0], q("%s/%s" % (g[0], co) for co in g[5]), q(g[5]), MATES.get(g[0], "")) for g in groups), q(kinds), c.seed * 64 + i)}


def walk(c, name, groups, kinds, runs, steps, exe):
    """simulate NamedCurves.qnt over these groups and replay it in the executable that exe() builds"""

    def spec():
        part = lambda i: groups[i % len(groups)::runs] if runs < len(groups) else [groups[i % len(groups)]]
        return c.qcases(name, "NamedCurves.qnt", "NamedCurves", name + ".txt", steps, runs, ["Sound"], 850, filesof=lambda i: sel(c, part(i), kinds, i))
    with ThreadPoolExecutor(2) as ex:
        b = ex.submit(exe)
        f = ex.submit(spec)
        c.replay(b.result(), f.result(), name, shards=8, timeout=850)


def group_walk(c, name, forms, kinds, runs, steps):
    groups = [g for g in curvetab.GROUPS if g[4] in forms]
    walk(c, name, groups, kinds, runs, steps, lambda: c.build("nc", units(c, "nc", groups)))


CHECKS = dict(G05=g05)
