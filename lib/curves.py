"""G01-G04: the group of points of a curve (TLA+/TLC state machine on enumerable curves, exhaustive replay
over every representing tuple)."""
from vf import parallel
from concurrent.futures import ThreadPoolExecutor
import ncurves

GROUP = r'((?:sw|te|mg|ed)_\d+_\d+_\d+_\d+_\d+)'
INV = ["Closure", "Linear", "Laws", "Hasse", "MontHom"]
NR = {5: 2, 7: 3}


def fields(fs):
    return "<< " + ", ".join("<<%d, %d, %d>>" % (p, d, NR.get(p, 0) if d > 1 else 0) for p, d in fs) + " >>"


def machine(c, jobs, exe_name="cv"):
    """jobs: (name, forms, fields, stride, deep, acts, workers, xmx)"""
    units = sorted({(f, p, d) for j in jobs for f in j[1] for p, d in j[2]})

    def build():
        return c.build(exe_name, [("cv_main.cpp", [])] + [("cv_form.cpp", ["-DTP=%d" % p, "-DTD=%d" % d, "-D" + f.upper()]) for f, p, d in units])

    def spec(j):
        name, forms, fs, stride, deep, acts, zfs = j
        return c.tlc(name, "CurveMachine",
                     dict(FieldSpecs=fields(fs), Forms="{%s}" % ", ".join('"%s"' % f for f in forms), ZFs=zfs, Stride=str(stride),
                          Phase=str(c.seed % 997), Deep=str(deep), Acts="{%s}" % ", ".join('"%s"' % a for a in acts)),
                     name + ".txt", INV, workers=3, timeout=850, xmx="4g")
    with ThreadPoolExecutor(len(jobs) + 1) as ex:
        b = ex.submit(build)
        fs = [ex.submit(spec, j) for j in jobs]
        exe = b.result()
        for f, j in zip(fs, jobs):
            c.replay(exe, f.result(), j[0], shards=8, group=GROUP)


ZB, Z0 = "{<<0,0>>, <<0,1>>}", "{<<0,0>>}"
ASSUME = ["curves over F_p, p in {5,...,23}, and over F_25, F_49 - every algorithm is the library's template, only the field and the coefficients are small",
          "TE curves are those with a complete addition law (a square, d non-square), the case of every curve the library names",
          "inverted Edwards coordinates: only sums whose coordinates are all non-zero (others have no representation)"]


def g01(c):
    c.assume = ASSUME
    if c.thorough:
        jobs = [("sw-small", ["sw"], [(5, 1), (7, 1), (11, 1)], 1, 11, ["walk"], ZB), ("sw-mid", ["sw"], [(13, 1), (17, 1)], 4, 0, ["walk"], ZB),
                ("sw-large", ["sw"], [(19, 1), (23, 1)], 16, 0, ["walk"], Z0), ("sw-ext", ["sw"], [(5, 2), (7, 2)], 200, 0, ["walk"], Z0)]
    else:
        jobs = [("sw-small", ["sw"], [(5, 1), (7, 1)], 1, 7, ["walk"], ZB), ("sw-mid", ["sw"], [(11, 1), (13, 1)], 12, 0, ["walk"], ZB),
                ("sw-ext", ["sw"], [(5, 2)], 200, 0, ["walk"], Z0)]
    machine(c, jobs)


def g02(c):
    c.assume = ASSUME
    if c.thorough:
        jobs = [("ed-small", ["te", "mg", "ed"], [(5, 1), (7, 1), (11, 1), (13, 1)], 1, 11, ["walk"], ZB),
                ("ed-mid", ["te", "mg", "ed"], [(17, 1), (19, 1), (23, 1)], 6, 0, ["walk"], Z0), ("ed-ext", ["te", "mg", "ed"], [(5, 2)], 40, 0, ["walk"], Z0)]
    else:
        jobs = [("ed-small", ["te", "mg", "ed"], [(5, 1), (7, 1), (11, 1)], 1, 7, ["walk"], ZB), ("ed-mid", ["te", "mg", "ed"], [(13, 1)], 8, 0, ["walk"], Z0)]
    machine(c, jobs)


def g03(c):
    c.assume = ASSUME
    if c.thorough:
        jobs = [("small", ["sw", "te", "mg"], [(5, 1), (7, 1), (11, 1)], 1, 0, ["walk"], ZB), ("mid", ["sw", "te", "mg"], [(13, 1), (17, 1)], 10, 0, ["walk"], ZB),
                ("ext", ["sw", "te"], [(5, 2)], 60, 0, ["walk"], Z0)]
    else:
        jobs = [("small", ["sw", "te", "mg"], [(5, 1), (7, 1)], 1, 0, ["walk"], ZB), ("mid", ["sw", "te", "mg"], [(11, 1)], 20, 0, ["walk"], ZB)]
    machine(c, jobs)


def g04(c):
    c.assume = ASSUME + ["scalars 0..2n+3 for every curve order n"]
    if c.thorough:
        jobs = [("small", ["sw", "te", "mg"], [(5, 1), (7, 1)], 1, 0, ["count"], ZB), ("mid", ["sw", "te", "mg"], [(11, 1), (13, 1)], 12, 0, ["count"], ZB),
                ("ext", ["sw"], [(5, 2)], 200, 0, ["count"], Z0), ("large", ["sw", "te", "mg"], [(23, 1)], 40, 0, ["count"], Z0)]
    else:
        jobs = [("small", ["sw", "te", "mg"], [(5, 1), (7, 1)], 3, 0, ["count"], ZB), ("mid", ["sw", "te", "mg"], [(11, 1)], 30, 0, ["count"], ZB)]
    machine(c, jobs)


def also(toy, forms, kinds, runs, steps):
    """the toy curves exhaustively, then the named curves at their real sizes"""
    def run(c):
        toy(c)
        c.assume = c.assume + ["the named curves are walked at their real sizes (random behaviours, not exhaustive)"]
        ncurves.group_walk(c, "named", forms, kinds, runs, steps * (8 if c.thorough else 1))
    return run


ALL = ["sw", "te", "mg"]
CHECKS = dict(G01=also(g01, ["sw"], ["add", "sub", "un"], 16, 150), G02=also(g02, ["te", "mg"], ["add", "sub", "un"], 8, 250),
              G03=also(g03, ALL, ["add", "conv", "off", "mont"], 16, 150), G04=also(g04, ALL, ["mul", "mul", "mul", "one"], 24, 60))
