"""Multi-exponentiation and fixed-base windows: X01, X02."""
from concurrent.futures import ThreadPoolExecutor
import re
import curvetab, ncurves


def units(c):
    gs = curvetab.mx_groups()
    return [("nf_main.cpp", [])] + [(curvetab.mx_unit(c.path("mx_%d.cpp" % i), gs[i:i + 1]), [], "-O1") for i in range(len(gs))]


def only(f, ops, out):
    """the cases of these operations"""
    with open(out, "w") as o:
        for line in open(f):
            if re.match(r'[<"\\]*(\w+)', line).group(1) in ops:
                o.write(line)
    return out


def machine(c, ops, kinds):
    """all collections and windows over small cyclic groups; walks over a larger one and over the named groups"""
    T = c.thorough
    toy = [(5, 3 if T else 2, 3, 3), (7, 2, 2, 3), (13, 1, 1, 4)] + ([(17, 2, 1, 5)] if T else [])
    jobs = []
    with ThreadPoolExecutor(3) as ex:
        b = ex.submit(c.build, "mx", [("nf_main.cpp", []), ("mx_toy.cpp", [])])
        for i, (n, l, al, bits) in enumerate(toy):
            f = c.tlc("mx%d" % n, "MultiExp", dict(N=n, MaxLen=l, AlgoLen=al, Bits=bits), "mx%d.txt" % n, ["Conserved", "Result", "Digits"])
            jobs.append(("zn%d" % n, f))
        q = ex.submit(c.qcases, "zn", "MultiWalk.qnt", "MultiWalk", "zn.txt", 400 if T else 120, 24 if T else 8, ["Sound"], 600)
        exe = b.result()
        for name, f in jobs + [("zn65521", q.result())]:
            c.replay(exe, only(f, ops, c.path("only_" + name)), name, shards=8, timeout=600)
    ncurves.walk(c, "named", curvetab.mx_groups(), kinds, 32 if T else 10, 40 if T else 12, lambda: c.build("mxn", units(c)))


def x01(c):
    c.assume = ["Z_N stands for the group in the exhaustive part: the methods only use the group operations",
                "named groups in their default coordinates, up to ten terms"]
    machine(c, ["sum", "wnaf"], ["sum", "sum", "wnaf"])


def x02(c):
    c.assume = ["Z_N stands for the group in the exhaustive part", "window sizes 1..bits+1 in the exhaustive part, 1..9 over the named groups"]
    machine(c, ["win", "size"], ["win"])


CHECKS = dict(X01=x01, X02=x02)
