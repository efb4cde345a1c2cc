"""V01, M01, M02, M03: linear algebra (TLA+/TLC state machines, exhaustive replay)."""
from vf import parallel, Broken, BuildFailed

KINDS = ["int", "long", "double", "size_t", "std::complex<double>", "F1"]


SQ = "(1..%d) \\X (1..%d)"
BIG = "{<<5, 5>>, <<6, 6>>, <<5, 3>>, <<3, 5>>, <<6, 2>>, <<2, 6>>, <<1, 6>>, <<6, 1>>, <<5, 6>>, <<6, 5>>}"


def keys(c, n):
    b = (c.seed % 2000) * 20 + 1
    return "%d..%d" % (b, b + n - 1)


def any_build(c, exe, units, defs):
    """Field elements are not promised to be accepted everywhere: without them where they no longer compile."""
    def go(kinds, more):
        return c.build(exe if not more else exe + "_nf", [(u, ["-DKIND=" + k] + f) for u, f in units for k in kinds] + [("la_main.cpp", defs + more)])
    try:
        return go(KINDS, [])
    except BuildFailed:
        c.assume.append("field elements as entries: not accepted by this tree, left out")
        return go(KINDS[:-1], ["-DNOFIELD"])


def vec_build(c):
    return any_build(c, "la_vec", [("la_vec.cpp", [])], ["-DVEC"])


def mat_build(c):
    return any_build(c, "la_mat", [("la_mat.cpp", ["-DPART=1"]), ("la_mat.cpp", ["-DPART=2"])], [])


def prod_build(c):
    return any_build(c, "la_prod", [("la_mat.cpp", ["-DPART=2"])], ["-DPROD"])


def elim_build(c):
    return c.build("la_elim", [("la_elim.cpp", ["-DKIND=" + k]) for k in ("double", "float", "ldouble")] + [("la_main.cpp", ["-DELIM"])])


ASSUME = ["element types exercised: int, long, size_t, double, complex<double>, a prime field (each where the operation is defined for it)",
          "exact comparison for ring operations; rounding tolerance of 64 eps for square roots, moduli and complex division"]


def v01(c):
    c.assume = ASSUME + ["vector lengths 1..12, arguments also scaled by odd multiples of powers of two up to 2^900, histories up to the stated depth"]
    t = c.thorough
    base = dict(MaxLen="5", CapLen="8", Lo="-9", Hi="9", Bound="8000")

    def a():    # every small workspace, one step: exhaustive over the alphabet
        f = c.tlc("small", "VecMachine", dict(base, Depth="1", KeySet=keys(c, 12 if t else 4), Small="{-1,0,1}" if not t else "{-2,-1,0,1,2}",
                  SmallLen="3" if not t else "3"), "vsmall.txt", ["Laws"], constraint="InBound", workers=4, timeout=800)
        return f

    def b():    # histories
        f = c.tlc("hist", "VecMachine", dict(base, Depth="3" if t else "2", KeySet=keys(c, 2 if t else 2), Small="{0}", SmallLen="1",
                  Lo="-4", Hi="4"), "vhist.txt", ["Laws"], constraint="InBound", workers=4, timeout=850, xmx="8g")
        return f
    def d():    # long vectors, one step
        return c.tlc("long", "VecMachine", dict(base, MaxLen="12", CapLen="12", Depth="1", KeySet=keys(c, 4 if t else 1), Small="{0}",
                     SmallLen="1"), "vlong.txt", ["Laws"], constraint="InBound", workers=2, timeout=800)
    exe, fa, fb, fd = parallel(lambda: vec_build(c), a, b, d)
    c.replay(exe, fd, "long vectors", shards=4)
    c.replay(exe, fa, "exhaustive one-step", shards=4)
    c.replay(exe, fb, "histories", shards=8)


def m01(c):
    c.assume = ASSUME + ["every shape 1..4 x 1..4, ten shapes up to 6 x 6 (long); results up to 12 x 12"]
    t = c.thorough
    base = dict(Shapes=SQ % (4, 4), MaxDim="4", CapDim="6", Lo="-9", Hi="9", Ops='{"struct"}', Bound="8000")
    exe, fc, fa, fb = parallel(
        lambda: mat_build(c),
        lambda: c.tlc("big", "MatMachine", dict(base, Shapes=BIG, MaxDim="6", CapDim="12", Depth="1", KeySet=keys(c, 4 if t else 1), Lo="-4", Hi="4"),
                      "mb.txt", ["Laws"], constraint="InBound", workers=2, timeout=850),
        lambda: c.tlc("one", "MatMachine", dict(base, Depth="1", KeySet=keys(c, 8 if t else 2)), "m1.txt", ["Laws"], constraint="InBound", timeout=850),
        lambda: c.tlc("hist", "MatMachine", dict(base, Shapes=SQ % (3, 3), MaxDim="3", Depth="3" if t else "2", KeySet=keys(c, 1), Lo="-3", Hi="3"),
                      "m2.txt", ["Laws"], constraint="InBound", timeout=850) if t else
        c.tlc("hist", "MatMachine", dict(base, Shapes=SQ % (2, 2), MaxDim="2", Depth="2", KeySet=keys(c, 1), Lo="-3", Hi="3"),
              "m2.txt", ["Laws"], constraint="InBound", timeout=850))
    c.replay(exe, fc, "larger shapes", shards=4)
    c.replay(exe, fa, "every operation at every shape", shards=4)
    c.replay(exe, fb, "histories", shards=8)


def m02(c):
    c.assume = ASSUME + ["every shape 1..4 x 1..4, ten shapes up to 6 x 6 (long), chains of up to the stated depth"]
    t = c.thorough
    base = dict(Shapes=SQ % (4, 4), MaxDim="4", CapDim="6", Lo="-9", Hi="9", Ops='{"prod"}', Bound="8000")
    exe, fc, fa, fb = parallel(
        lambda: prod_build(c),
        lambda: c.tlc("big", "MatMachine", dict(base, Shapes=BIG, MaxDim="6", CapDim="12", Depth="1", KeySet=keys(c, 4 if t else 1), Lo="-4", Hi="4"),
                      "mb.txt", ["Laws"], constraint="InBound", workers=2, timeout=850),
        lambda: c.tlc("one", "MatMachine", dict(base, Depth="1", KeySet=keys(c, 20 if t else 5)), "p1.txt", ["Laws"], constraint="InBound", timeout=850),
        lambda: c.tlc("hist", "MatMachine", dict(base, Depth="4" if t else "3", KeySet=keys(c, 2 if t else 1), Lo="-3", Hi="3"),
                      "p2.txt", ["Laws"], constraint="InBound", timeout=850))
    c.replay(exe, fc, "larger shapes", shards=4)
    c.replay(exe, fa, "every product at every shape", shards=4)
    c.replay(exe, fb, "chains", shards=8)


def m03(c):
    t = c.thorough
    c.assume = ["float, double and long double; integer matrices up to 6 x 6 (exhaustive families up to 4 x 4), also scaled by powers of two and with zeros replaced by noise below the tolerance",
                "agreement up to rounding (1024 eps times the magnitudes involved)"]
    k = keys(c, 20)
    b = (c.seed % 2000) * 600 + 1
    n = 1500 if t else 150
    ks = "%d..%d" % (b, b + n - 1)
    fam = "{<<1,1,-4,4>>,<<1,2,-2,2>>,<<2,1,-2,2>>,<<1,3,-1,1>>,<<3,1,-1,1>>,<<1,4,-1,1>>,<<4,1,-1,1>>,<<2,2,-%d,%d>>,<<2,3,-1,1>>,<<3,2,-1,1>>%s}" % (
        (4, 4, ",<<3,3,-1,1>>,<<2,4,-1,1>>,<<4,2,-1,1>>,<<3,3,0,2>>") if t else (2, 2, ",<<3,3,0,1>>,<<3,3,-1,0>>,<<4,2,0,1>>,<<2,4,0,1>>"))
    rnd = "{<<4,4,-3,3,%s>>,<<3,4,-3,3,%s>>,<<4,3,-3,3,%s>>,<<3,3,-6,6,%s>>,<<3,3,-1,1,%s>>,<<4,4,-1,1,%s>>" % ((ks,) * 6)
    few = "%d..%d" % (b, b + (150 if t else 15) - 1)
    rnd += "".join(",<<%d,%d,-%d,%d,%s>>" % (m, q, v, v, few) for m, q, v in
                   ((5, 5, 1), (5, 5, 2), (6, 6, 1), (5, 3, 2), (3, 5, 2), (6, 4, 1), (4, 6, 1), (2, 6, 2), (6, 2, 2), (1, 6, 3), (6, 1, 3), (5, 6, 1))) + "}"
    perm = ("{x \\in [1..4 -> [1..4 -> {0,1}]] : (\\A r \\in 1..4 : Cardinality({q \\in 1..4 : x[r][q] = 1}) = 1) "
            "/\\ (\\A q \\in 1..4 : Cardinality({r \\in 1..4 : x[r][q] = 1}) = 1)}")
    exe, f, g = parallel(
        lambda: elim_build(c),
        lambda: c.tlc("elim", "ElimMachine", dict(Family=fam, RandSet=rnd, Extra=perm, DetCheck="TRUE"), "e.txt",
                      ["DetInvariant", "Reduced", "Correct"], timeout=860),
        lambda: c.tlc("tiny", "ThresholdMachine", dict(Shapes="{<<a, b>> : a, b \\in 2..4}"), "tiny.txt", ["Laws"], workers=2, timeout=860))
    c.replay(exe, g, "tolerance", shards=4)
    c.replay(exe, f, "elimination results", shards=8)


def s01(c):
    c.assume = ["finite double and float arguments; powers whose value and reciprocal are in range",
                "agreement up to rounding: 4 ulp for square roots and moduli, 16 ulp for n-th roots, 2|n| + 8 ulp for n-th powers"]
    t = c.thorough
    exe, f = parallel(lambda: c.build("la_scalar", [("la_scalar.cpp", [])]),
                      lambda: c.qcases("scalar", "Scalar.qnt", "Scalar", "s.txt", steps=6000 if t else 1500, runs=32 if t else 8,
                                       invariants=["enclosed"], timeout=800))
    c.replay(exe, f, "scalar calls")
