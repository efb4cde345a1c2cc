"""Octets of points and field elements: K01."""
from concurrent.futures import ThreadPoolExecutor
import named, vf

EXTRA = ["mnt4_298.base", "alt_bn128_254.scalar", "goldilocks64.base", "secp521r1.base", "mnt4.fp4", "mnt6.fp6_2over3", "alt_bn128.fp2", "edwards.fp3"]
OWN = {"bls12_381.base": "base_field_type", "bls12_381.scalar": "scalar_field_type", "bls12_381.fp12": "gt_type"}


def units(c):
    ps = {p[0]: p for p in named.PRIMES}
    es = {e[0]: e for e in named.EXT}
    a = c.path("km_bls.cpp")
    with open(a, "w") as f:
        f.write('#include "km.hpp"\nnamespace { using C = nc::cv::bls12<381>;\nkm::rpoints<C, false> g1("bls12_381.g1");\nkm::rpoints<C, true> g2("bls12_381.g2");\n')
        for k in ("base", "scalar"):
            f.write('km::rfelts<C::%s_field_type, km::ofcurve<C, C::%s_field_type>, km::general<C::%s_field_type>> %s("bls12_381.%s");\n' % (k, k, k, k, k))
        f.write('km::rfelts<C::gt_type, km::ofcurve<C, C::gt_type>, km::general<C::gt_type>> gt("bls12_381.fp12"); }\n')
    us = [("nf_main.cpp", []), (a, [], "-O1")]
    for i in range(0, len(EXTRA), 4):
        p = c.path("km_%d.cpp" % i)
        with open(p, "w") as f:
            ks = EXTRA[i:i + 4]
            hs = set()
            ts = []
            for k in ks:
                if k in ps:
                    hs.add(ps[k][1])
                    ts.append("ff::" + ps[k][2])
                else:
                    e = es[k]
                    hs |= {"%s/base_field.hpp" % e[1], e[3] + ".hpp"}
                    ts.append("ff::%s<ff::%s>" % (e[3], e[2]))
            f.write("".join("#include <%s%s>\n" % (named.FD, h) for h in sorted(hs)) + '#include "km.hpp"\nnamespace ff = nil::crypto3::algebra::fields;\nnamespace {\n')
            for j, (k, t) in enumerate(zip(ks, ts)):
                f.write('km::rfelts<%s, km::general<%s>> f%d("%s");\n' % (t, t, j, k))
            f.write("}\n")
        us.append((p, []))
    return us


def k01(c):
    c.assume = ["the stand-in for Boost.Multiprecision's import_bits and export_bits follows its documentation"]
    runs, steps = (48, 120) if c.thorough else (16, 25)
    fs = list(OWN) + EXTRA
    sel = lambda i: {"Sel.qnt": "module Sel {\n  pure val FIELDS: List[str] = [%s]\n  pure val SEED = %d\n}\n" % (", ".join('"%s"' % k for k in fs[i % 3:3] + fs[3 + i % 4::4]), c.seed * 64 + i)}
    with ThreadPoolExecutor(2) as ex:
        b = ex.submit(c.build, "km", units(c))
        f = ex.submit(c.qcases, "codec", "NamedCodec.qnt", "NamedCodec", "codec.txt", steps, runs, ["Sound"], 850, None, None, None, sel)
        c.replay(b.result(), f.result(), "codec", shards=8, timeout=850)


CHECKS = dict(K01=k01)
