"""D01: word and buffer helpers of nil/crypto3/detail (TLA+)."""
import vf
from linalg import keys


def d01(c):
    c.assume = ["unsigned words of 8, 16, 32 and 64 bits; parts joined into a word are narrower than it",
                "low_bits/high_bits are given the width of the word they are applied to",
                "<cassert>, <climits>, <limits> are included before the helpers"]
    t = c.thorough
    jobs = [lambda: c.build("word", [("word.cpp", [])]),
            lambda: c.tlc("w8", "WordMachine", dict(Widths="{8}", Full="{8}", KeySet="{1}", Depth="2" if t else "1"), "w8.txt", ["Laws"], workers=4, timeout=850),
            lambda: c.tlc("wide", "WordMachine", dict(Widths="{16,32,64}", Full="{}", KeySet=keys(c, 40 if t else 4), Depth="1"), "wide.txt", ["Laws"], workers=4, timeout=850),
            lambda: c.tlc("hist", "WordMachine", dict(Widths="{8,16}", Full="{}", KeySet=keys(c, 2), Depth="3" if t else "2"), "whist.txt", ["Laws"], workers=4, timeout=850)]
    exe, *fs = vf.parallel(*jobs)
    for f, n in zip(fs, ("every octet", "wide words", "histories")):
        c.replay(exe, f, n, shards=4)


CHECKS = {"D01": d01}
