"""F01-F04: fields and towers of fields (TLA+/TLC on enumerable towers)."""
import json, os
from concurrent.futures import ThreadPoolExecutor
import named, vf

KIND = dict(fp=1, fp2=2, fp3=3, fp4=4, fp6a=6, fp6b=7, fp12=12)
INV = ["TypeOK", "IsField", "Ring"]


def machine(c, jobs, exe="tw"):
    """jobs: (name, kinds, towers, fullmax, walks, len, invariants)"""
    units = sorted({t for j in jobs for t in j[2]})

    def spec(j):
        name, kinds, towers, full, walks, n, inv = j
        return c.tlc(name, "TowerMachine",
                     dict(Specs="<< " + ", ".join('<<"%s", %d, %d>>' % t for t in towers) + " >>", Kinds="{%s}" % ", ".join('"%s"' % k for k in kinds),
                          FullMax=str(full), Walks=str(walks), Len_=str(n), Seed=str(c.seed % 9973)),
                     name + ".txt", inv, workers=3, timeout=850, xmx="3g")
    with ThreadPoolExecutor(len(jobs) + 1) as ex:
        b = ex.submit(c.build, exe, [("tw_main.cpp", [])] + [("tw_toy.cpp", ["-DTP=%d" % p, "-DTN=%d" % n, "-DTK=%d" % KIND[k]]) for k, p, n in units])
        fs = [ex.submit(spec, j) for j in jobs]
        e = b.result()
        for f, j in zip(fs, jobs):
            c.replay(e, f.result(), j[0], shards=8)


ASSUME = ["towers over F_p with small p; every algorithm is the library's template, only the prime and the non-residues are small",
          "inverse of zero, square root of a non-square: not claimed"]
FP = [("fp", p, n) for p, n in ((3, 2), (5, 2), (7, 3), (11, 2), (13, 2), (17, 3), (31, 3), (61, 2))]
FPBIG = [("fp", p, n) for p, n in ((97, 5), (257, 3), (7681, 17), (40961, 3))]


def f01(c):
    c.assume = ASSUME
    big = [("big", ["bin", "ring", "order"], FPBIG, 0, 40 if c.thorough else 8, 60 if c.thorough else 20, INV)]
    machine(c, [("full", ["bin", "ring", "order"], FP + ([("fp", 97, 5), ("fp", 127, 3), ("fp", 193, 5), ("fp", 257, 3)] if c.thorough else []), 300 if c.thorough else 62, 0, 0, INV)] + big)


def f02(c):
    c.assume = ASSUME
    if c.thorough:
        jobs = [("small", ["bin", "ring"], [("fp2", 3, 2), ("fp2", 5, 2), ("fp2", 7, 3), ("fp2", 7, 6), ("fp2", 11, 10), ("fp2", 13, 2)], 200, 0, 0, INV),
                ("cubic", ["bin", "ring"], [("fp3", 7, 3)], 400, 0, 0, INV),
                ("quartic", ["bin", "ring"], [("fp4", 5, 2)], 700, 0, 0, INV),
                ("mid", ["bin", "ring"], [("fp2", 31, 30), ("fp3", 13, 2), ("fp3", 19, 2), ("fp4", 13, 2), ("fp4", 29, 2), ("fp6a", 7, 3), ("fp6a", 13, 2), ("fp6b", 7, 6), ("fp6b", 13, 2)], 0, 60, 60, INV),
                ("dodecic", ["bin", "ring"], [("fp12", 7, 6), ("fp12", 13, 2), ("fp12", 31, 30)], 0, 60, 40, INV)]
    else:
        jobs = [("small", ["bin", "ring"], [("fp2", 3, 2), ("fp2", 5, 2), ("fp2", 7, 6), ("fp2", 7, 3)], 50, 0, 0, INV),
                ("mid", ["bin", "ring"], [("fp2", 31, 30), ("fp3", 7, 3), ("fp3", 13, 2), ("fp4", 5, 2), ("fp4", 13, 2), ("fp6a", 7, 3), ("fp6a", 13, 2), ("fp6b", 7, 6), ("fp6b", 13, 2)], 0, 10, 16, INV),
                ("dodecic", ["bin", "ring"], [("fp12", 7, 6), ("fp12", 13, 2)], 0, 10, 12, INV)]
    machine(c, jobs)


def f03(c):
    c.assume = ASSUME
    w, n = (40, 30) if c.thorough else (6, 8)
    inv = ["TypeOK", "Galois", "CycNorm"]
    jobs = [("frob2", ["frob"], [("fp2", 3, 2), ("fp2", 5, 2), ("fp2", 7, 3), ("fp2", 13, 2), ("fp3", 7, 3)], 400 if c.thorough else 50, w, n, inv),
            ("frob3", ["frob"], [("fp3", 13, 2), ("fp4", 5, 2), ("fp4", 13, 2), ("fp6a", 7, 3), ("fp6a", 13, 2), ("fp6b", 7, 6), ("fp6b", 13, 2)], 0, w, n, inv),
            ("frob12", ["frob"], [("fp12", 7, 6), ("fp12", 13, 2)], 0, w, n, inv),
            ("cyc", ["cyc"], [("fp4", 5, 2), ("fp4", 13, 2), ("fp6a", 7, 3), ("fp6a", 13, 2)], 700 if c.thorough else 0, w, n, inv),
            ("cyc12", ["cyc"], [("fp12", 7, 6), ("fp12", 13, 2)], 0, w, n, inv)]
    machine(c, jobs)


def f04(c):
    c.assume = ASSUME
    w, n = (30, 20) if c.thorough else (5, 6)
    inv = ["TypeOK"]
    jobs = [("roots", ["roots"], FP + FPBIG[:2] + [("fp2", 3, 2), ("fp2", 5, 2), ("fp2", 7, 3), ("fp2", 11, 10), ("fp2", 13, 2), ("fp2", 17, 3), ("fp3", 7, 3)], 400, 0, 0, inv),
            ("bigroots", ["roots"], FPBIG + [("fp2", 31, 30), ("fp2", 97, 5), ("fp3", 13, 2), ("fp3", 31, 3)], 0, 4 * w, 2 * n, inv),
            ("pow", ["pow"], [("fp", 7, 3), ("fp", 13, 2), ("fp2", 3, 2), ("fp2", 5, 2)], 30, 0, 0, inv),
            ("powext", ["pow"], FPBIG + [("fp3", 7, 3), ("fp4", 5, 2), ("fp6a", 7, 3), ("fp6b", 7, 6)], 0, w, n, inv),
            ("pow12", ["pow"], [("fp12", 7, 6)], 0, w, n, inv)]
    machine(c, jobs)


# ---------------------------------------------------------------------------- the named fields (Quint)
def units(c, exe, primes=(), exts=(), per=5):
    """generate and list the translation units registering these fields"""
    us = []
    for i in range(0, len(primes), per):
        us.append(named.unit(c.path("%s_p%d.cpp" % (exe, i)), primes[i:i + per]))
    for i in range(0, len(exts), 2):
        us.append(named.unit(c.path("%s_e%d.cpp" % (exe, i)), [], exts[i:i + 2]))
    return [("nf_main.cpp", [])] + [(u, []) for u in us]


def walk(c, name, jobs, primes=(), exts=()):
    """jobs: (name, keys, kinds, exponent bits, steps, runs).  Simulate NamedFields.qnt over the named fields and replay."""
    exe = "nf_" + name

    def sel(keys, kinds, bits):
        return {"Sel.qnt": "module Sel {\n  pure val FIELDS = [%s]\n  pure val KINDS = [%s]\n  pure val EXPBITS = %d\n}\n" %
                (", ".join('"%s"' % k for k in keys), ", ".join('"%s"' % k for k in kinds), bits)}

    def spec(j):
        n, keys, kinds, bits, steps, runs = j
        return c.qcases(n, "NamedFields.qnt", "NamedFields", n + ".txt", steps, runs, ["Sound"], 850,
                        filesof=lambda i: sel(keys[i * len(keys) // runs:(i + 1) * len(keys) // runs] if runs <= len(keys) else [keys[i % len(keys)]], kinds, bits))
    with ThreadPoolExecutor(len(jobs) + 1) as ex:
        b = ex.submit(c.build, exe, units(c, exe, primes, exts))
        fs = [ex.submit(spec, j) for j in jobs]
        e = b.result()
        for f, j in zip(fs, jobs):
            c.replay(e, f.result(), j[0], shards=8, timeout=850)


PK, BK, EK = [p[0] for p in named.PRIMES], [p[0] for p in named.BIG], [e[0] for e in named.EXT]


def also(toy, real):
    def run(c):
        toy(c)
        real(c)
    return run


def n01(c):
    m = 6 if c.thorough else 1
    walk(c, "F01", [("named", PK, ["bin", "un", "order", "order"], 64, 240 * m, 8), ("namedbig", BK, ["bin", "un", "order"], 64, 40 * m, 5)], named.PRIMES + named.BIG)


def n02(c):
    m = 8 if c.thorough else 1
    walk(c, "F02", [("named", EK, ["bin", "un", "scale", "mnr", "sparse"], 64, 400 * m, 6)], (), named.EXT)


def n03(c):
    m = 3 if c.thorough else 1
    top = [k for k in EK if k.split(".")[1] in ("fp4", "fp6_2over3", "fp12")]
    walk(c, "F03", [("namedfrob", EK, ["frob"], 64, 60 * m, 6), ("namedcyc", top, ["cyc"], 400, 60 * m, 7)], (), named.EXT)


def n04(c):
    m = 6 if c.thorough else 1
    low = [k for k in EK if k.split(".")[1] in ("fp2", "fp3")]
    walk(c, "F04", [("namedroots", PK, ["roots"], 64, 160 * m, 8), ("namedext", low, ["roots"], 64, 60 * m, 4),
                    ("namedpow", PK + EK, ["pow"], 500, 120 * m, 8), ("namedbigpow", BK, ["pow"], 500, 20 * m, 3)], named.PRIMES + named.BIG, named.EXT)


def f05(c):
    """every stored constant of every named field, judged by Constants.qnt"""
    c.assume = ["published moduli are restated in Published.qnt (formulas where the publication gives one); dsa_botan moduli are only pinned",
                "primality is Miller-Rabin to fixed bases; arithmetic_params of bn128, edwards and dsa do not compile and are not audited"]
    e = c.build("nf", units(c, "nf", named.PRIMES + named.BIG, named.EXT))
    dump = c.path("dump.txt")
    rc, log = vf.sh([e, "--dump", dump], 300)
    if rc != 0:
        c.fails.append(("constants", "the library's constants could not be read: rc %d %s" % (rc, log[-300:]), "", None))
        return
    rec = {}
    for line in open(dump):
        w = line.split()
        rec.setdefault(w[0], {})["%s.%s" % (w[1], w[2])] = w[3:]
    keys = sorted(set(rec) | set(PK + BK + EK))
    # the large groups cost most: spread the fields over the runs
    keys.sort(key=lambda k: -sum(map(len, rec.get(k, {}).get("field.modulus", [""]))))

    def text(i):
        ks = keys[i::8]
        return len(ks), "  pure val KEYS = [%s]\n%s" % (", ".join('"%s"' % k for k in ks), record(rec, ks))
    judge(c, "Constants", text, keys, rec, "constants")


def record(rec, ks):
    return "  pure val REC: str -> (str -> List[int]) = Map(\n%s)\n" % (
        ",\n".join('    "%s" -> Map(%s)' % (k, ", ".join('"%s" -> [%s]' % (n, ", ".join(v)) for n, v in sorted(rec.get(k, {}).items()))) for k in ks))


def judge(c, module, text, keys, rec, what):
    """run the auditing specification `module` in 8 runs (text(i): number of steps, body of Dump) over what the library stores"""
    def audit(i):
        n, body = text(i)
        if n == 0:
            return []
        rc, log, d = c.quint("audit-%s-%d" % (module, i), module + ".qnt", module, out="t", steps=n, timeout=850, files={"Dump.qnt": "module Dump {\n%s}\n" % body})
        f = os.path.join(d, "t_0.itf.json")
        if rc != 0 or not os.path.exists(f):
            raise vf.Broken("quint %s (rc %d): %s" % (module, rc, log[-1500:]))
        return [s for s in json.load(open(f))["states"] if s["who"] not in ("none", "")]
    with ThreadPoolExecutor(8) as ex:
        states = [s for r in ex.map(audit, range(8)) for s in r]
    if sorted(s["who"] for s in states) != sorted(keys):
        raise vf.Broken("%s.qnt did not judge every entry" % module)
    n = 0
    for s in states:
        for v in s["verdicts"]:
            n += 1
            c.counts["constant." + v["name"]] = c.counts.get("constant." + v["name"], 0) + 1
            if not v["ok"]:
                c.fails.append(("%s:%s:%s" % (what, s["who"], v["name"]), "stored value %s" % " ".join(rec.get(s["who"], {}).get(v["name"], ["?"])), "", None))
    c.states += len(states)
    c.distinct += len(states)
    c.replayed += len(states)
    c.compared += n
    c.runs.append("Quint %s: %d entries, %d statements about stored constants judged" % (module, len(states), n))
    c.samples.append(str(states[0])[:400])


CHECKS = dict(F01=also(f01, n01), F02=also(f02, n02), F03=also(f03, n03), F04=also(f04, n04), F05=f05)
