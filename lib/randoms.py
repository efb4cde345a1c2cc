"""Random elements: R01."""
from concurrent.futures import ThreadPoolExecutor
import curvetab, fields, named, ncurves, vf

PRIMES = ["bls12_381.base", "bls12_381.scalar", "mnt4_298.base", "curve25519.base", "secp256k1.scalar", "secp521r1.base", "goldilocks64.base", "pallas.base", "maxprime64", "ffdhe_ietf_2048"]


def extkeys():
    return [e for e in named.EXT if not e[0].startswith(("bn128", "bls12_377"))]


def groups():
    # affine short-Weierstrass formulas over extension fields do not compile (see DESIGN.md)
    out = []
    for g in curvetab.GROUPS:
        cos = [co for co in g[5] if not (co == "aff" and g[4] == "sw")]
        if cos:
            out.append(g[:5] + (cos[:1],))
    return out


def units(c):
    ps = {p[0]: p for p in named.PRIMES + named.BIG}
    us = [("nf_main.cpp", [])]
    items = [("<%s%s>" % (named.FD, ps[k][1]), "", "rn::field<ff::%s>" % ps[k][2], k) for k in PRIMES]
    items += [("<%s%s/base_field.hpp>" % (named.FD, e[1]), "<%s%s.hpp>" % (named.FD, e[3]), "rn::field<ff::%s<ff::%s>>" % (e[3], e[2]), e[0]) for e in extkeys()]
    gs = [("".join("<%s%s.hpp>" % (curvetab.CD, h) for h in curvetab.HDR.get(g[1], [g[1]])[:1]), "".join("<%s%s.hpp>" % (curvetab.CD, h) for h in curvetab.HDR.get(g[1], [g[1]])[1:]),
           "rn::group<nc::cv::%s::%s_type<nc::co::%s, nc::cv::forms::%s>, nc::co::%s>" % (g[2], g[3], curvetab.CO[g[5][0]], curvetab.FORM[g[4]], curvetab.CO[g[5][0]]), "%s/%s" % (g[0], g[5][0])) for g in groups()]
    for n, l, per in (("f", items, 6), ("g", gs, 4)):
        for i in range(0, len(l), per):
            p = c.path("rn_%s%d.cpp" % (n, i))
            with open(p, "w") as f:
                f.write("".join("#include %s\n" % h for h in sorted({h for x in l[i:i + per] for h in x[:2] if h})))
                f.write('#include "rn.hpp"\nnamespace ff = nil::crypto3::algebra::fields;\nnamespace {\n')
                for j, x in enumerate(l[i:i + per]):
                    f.write('%s v%d("%s");\n' % (x[2], j, x[3]))
                f.write("}\n")
            us.append((p, []))
    return us


def r01(c):
    c.assume = ["Boost.Random's uniform_int_distribution is uniform; the stand-in number type is what it draws",
                "the prime-order group is recognised by multiplication with the order, on sums of the recorded points"]
    runs, steps = (32, 300) if c.thorough else (8, 60)
    fs = PRIMES + [e[0] for e in extkeys()]
    sel = lambda i: {"Sel.qnt": "module Sel {\n  pure val FIELDS: List[str] = [%s]\n}\n" % ", ".join('"%s"' % k for k in fs[i % 8::8])}
    with ThreadPoolExecutor(2) as ex:
        b = ex.submit(c.build, "rn", units(c), ["-lboost_random"])
        f = ex.submit(c.qcases, "random", "RandomWalk.qnt", "RandomWalk", "random.txt", steps, runs, ["Sound"], 850, None, None, None, sel)
        c.replay(b.result(), f.result(), "random", shards=8, timeout=850)
        rec = ncurves.dumped(c, b.result())
    if rec is None:
        return
    gs = [("%s/%s" % (g[0], g[5][0]), g[0], g[5][0]) for g in groups()]
    if sorted(rec) != sorted(fs + [g[0] for g in gs]):
        raise vf.Broken("draws of %s expected" % fs)

    def text(i):
        fk, gk = fs[i::8], gs[i::8]
        return len(fk) + len(gk), ("  type G_ = { key: str, name: str, co: str }\n  pure val FKEYS: List[str] = [%s]\n  pure val GKEYS: List[G_] = [%s]\n%s" %
                                   (", ".join('"%s"' % k for k in fk), ", ".join('{ key: "%s", name: "%s", co: "%s" }' % g for g in gk), fields.record(rec, fk + [g[0] for g in gk])))
    fields.judge(c, "RandomTrace", text, fs + [g[0] for g in gs], rec, "random")


CHECKS = dict(R01=r01)
