"""Pairings of the named curves: P01, P02."""
from concurrent.futures import ThreadPoolExecutor
import fields, ncurves, vf

# name -> header, curve, form, G1 and G2 default coordinates, target field
CURVES = [("bls12_381", "bls12", "bls12<381>", "short_weierstrass", "jacobian_with_a4_0", "jacobian_with_a4_0", "jac0", "jac0", "bls12_381.fp12"),
          ("mnt4", "mnt4", "mnt4<298>", "short_weierstrass", "projective", "projective", "proj", "proj", "mnt4.fp4"),
          ("mnt6", "mnt6", "mnt6<298>", "short_weierstrass", "projective", "projective", "proj", "proj", "mnt6.fp6_2over3"),
          ("edwards", "edwards", "edwards<183>", "twisted_edwards", "inverted", "inverted", "inv", "inv", "edwards.fp6_2over3")]


def unit(c, x):
    p = c.path("pr_%s.cpp" % x[0])
    with open(p, "w") as f:
        f.write('#include <nil/crypto3/algebra/curves/%s.hpp>\n#include <nil/crypto3/algebra/pairing/%s.hpp>\n#include "pr.hpp"\n#include "prc.hpp"\n'
                'namespace { pr::curve<nc::cv::%s, nc::cv::forms::%s, nc::co::%s, nc::co::%s> c("%s");\n'
                'pr::constants<nil::crypto3::algebra::pairing::detail::pairing_params<nc::cv::%s>> k("%s"); }\n' % (x[1], x[1], x[2], x[3], x[4], x[5], x[0], x[2], x[0]))
    return (p, [], "-O1")


def bn(c):
    """alt_bn128 has pairing constants but no usable pairing"""
    p = c.path("pr_bn.cpp")
    with open(p, "w") as f:
        f.write('#include <nil/crypto3/algebra/curves/alt_bn128.hpp>\n#include <nil/crypto3/algebra/pairing/detail/alt_bn128/params.hpp>\n#include "prc.hpp"\n'
                'namespace { pr::constants<nil::crypto3::algebra::pairing::detail::pairing_params<nil::crypto3::algebra::curves::alt_bn128<254>>> k("alt_bn128"); }\n')
    return (p, [], "-O1")


def constants(c, exe):
    rec = ncurves.dumped(c, exe)
    if rec is None:
        return
    ks = [x[0] for x in CURVES] + ["alt_bn128"]
    if sorted(rec) != sorted(ks):
        raise vf.Broken("pairing constants of %s expected" % ks)

    def text(i):
        k = ks[i:i + 1]
        return len(k), "  pure val KEYS: List[str] = [%s]\n%s" % (", ".join('"%s"' % x for x in k), fields.record(rec, k))
    fields.judge(c, "PairingConstants", text, ks, rec, "pairing")


def sel(c, curves, kinds, i):
    return {"Sel.qnt": """module Sel {
  type Crv = { name: str, g1: str, g2: str, gt: str, co1: str, co2: str }
  pure val CURVES_: List[Crv] = [%s]
  pure val KINDS: List[str] = [%s]
  pure val SEED = %d
}
""" % (", ".join('{ name: "%s", g1: "%s.g1", g2: "%s.g2", gt: "%s", co1: "%s", co2: "%s" }' % (x[0], x[0], x[0], x[8], x[6], x[7]) for x in curves),
       ", ".join('"%s"' % k for k in kinds), c.seed * 64 + i)}


def walk(c, kinds, runs, steps, audit=False):
    with ThreadPoolExecutor(2) as ex:
        b = ex.submit(c.build, "pr", [("nf_main.cpp", [])] + [unit(c, x) for x in CURVES] + ([bn(c)] if audit else []))
        f = ex.submit(c.qcases, "pairings", "NamedPairings.qnt", "NamedPairings", "pairings.txt", steps, runs, ["Sound"], 850, None, None, None,
                      lambda i: sel(c, [CURVES[i % len(CURVES)]], kinds, i))
        c.replay(b.result(), f.result(), "pairings", shards=8, timeout=850)
        if audit:
            constants(c, b.result())


def p01(c):
    c.assume = ["points travel with their discrete logarithms; the target group is modelled by exponents of the pairing of the generators",
                "curves whose pairing compiles: BLS12-381, MNT4-298, MNT6-298, Edwards-183"]
    walk(c, ["pair"], 48 if c.thorough else 16, 80 if c.thorough else 16)


def p02(c):
    c.assume = ["as for P01; a homomorphism into the r-th roots of one that is not trivial is exactly a fixed power multiple of (q^k-1)/r prime to r"]
    walk(c, ["parts", "double", "reuse", "fe", "fe"], 48 if c.thorough else 16, 80 if c.thorough else 18, True)


CHECKS = dict(P01=p01, P02=p02)
