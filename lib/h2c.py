"""Hash-to-curve maps: H01."""
from concurrent.futures import ThreadPoolExecutor


def h01(c):
    c.assume = ["the inverse of zero is zero, which the map's formulas rely on",
                "the suites' parameters and sgn0, in headers the repository refers to but does not contain, are stand-ins written from RFC 9380"]
    p = c.path("hm_bls.cpp")
    with open(p, "w") as f:
        f.write('#include "hm.hpp"\nnamespace { hm::rmaps<false> g1("bls12_381.g1"); hm::rmaps<true> g2("bls12_381.g2"); }\n')
    runs, steps = (48, 150) if c.thorough else (16, 25)
    sel = lambda i: {"Sel.qnt": "module Sel {\n  pure val SEED = %d\n}\n" % (c.seed * 64 + i)}
    with ThreadPoolExecutor(2) as ex:
        b = ex.submit(c.build, "hm", [("nf_main.cpp", []), (p, [], "-O1")])
        f = ex.submit(c.qcases, "h2c", "HashToCurve.qnt", "HashToCurve", "h2c.txt", steps, runs, ["Sound"], 850, None, None, None, sel)
        c.replay(b.result(), f.result(), "h2c", shards=8, timeout=850)


CHECKS = dict(H01=h01)
