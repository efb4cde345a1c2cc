"""O01: values written to streams and kept in hashed containers (TLA+)."""
import vf
from linalg import keys

FIELDS = ("fp", "fp2", "fp3", "fp4", "fp6a", "fp6b", "fp12")
POINTS = ("affine", "projective", "projective-3", "jacobian", "jacobian0", "jacobian-3", "teaffine", "inverted", "extended", "montgomery")
# entries of the precomputed tables, and the edwards curve's own types: kind, field, numbers per entry
ENTRIES = [("entry", "fp", 3), ("entry", "fp2", 3), ("entry", "fp3", 3), ("entry", "fp2", 4), ("entry", "fp3", 4), ("entry", "fp2", 2), ("entry", "fp3", 2), ("entry", "fp", 2),
           ("entry", "fp", 4), ("list", "fp", 3), ("list", "fp3", 3)]
PRE = ("g1ate0", "g2ate0", "g1ate", "g2ate")


def kinds(xs):
    return "{%s}" % ",".join('<<"%s","%s",%d>>' % x if len(x) == 3 else '<<"%s","%s">>' % x for x in xs)


def o01(c):
    c.assume = ["white space between tokens is free; numbers are decimal (the stream's default flags)",
                "points are not the affine representation of infinity",
                "prime-field elements print as the big-integer type prints (stand-in in shim/)"]
    t = c.thorough
    small = [("field", f) for f in FIELDS] + [(p, f) for p in POINTS for f in ("fp", "fp2", "fp3")]
    pre = [(p, f) for p in PRE for f in ("fp", "fp2", "fp3")]
    some = [("field", "fp"), ("field", "fp2"), ("field", "fp12"), ("jacobian0", "fp2"), ("extended", "fp3"), ("affine", "fp"), ("g2ate0", "fp2"), ("g2ate", "fp")]
    pm = lambda n, ks, ky, pats, ls, d, eq=False: c.tlc(n, "PrintMachine", dict(P="13", Kinds=kinds(ks), KeySet=ky, Pats=pats, Lists=ls, Depth=str(d), Equal=str(eq).upper()), n + ".txt", ["Laws"], workers=3, timeout=850)
    hm = lambda n, p, d, nm, m, ys: c.tlc(n, "HashMachine", dict(P=str(p), Deg=str(d), Name='"%s"' % nm, MaxLen=str(m), Ys=ys), n + ".txt", ["Laws"], workers=2, timeout=850)
    exe, *fs = vf.parallel(
        lambda: c.build("print", [("print.cpp", [])]),
        lambda: pm("values", small, keys(c, 60 if t else 6), "0..12" if t else "{0,1,5,10,12}", "{0}", 1, True),
        lambda: pm("pre", pre, keys(c, 12 if t else 2), "{0,1,12}" if t else "{1,11}", "0..3", 1, True),
        lambda: pm("entries", ENTRIES, keys(c, 3), "{0,1}", "{0,1,2}", 1, True),
        lambda: pm("stream", some, "{}" , "{1,12}" if t else "{1}", "{0,2}" if t else "{2}", 3 if t else 2),
        lambda: hm("hash1", 5, 1, "fp", 5 if t else 3, "0..4"),
        lambda: hm("hash2", 3, 2, "fp2", 3 if t else 2, "0..8" if t else "{0,1,5,8}"))
    for f, n in zip(fs, ("single values", "pairing tables", "table entries", "several in one stream", "hashed prime field", "hashed extension")):
        c.replay(exe, f, n, shards=4)


CHECKS = {"O01": o01}
