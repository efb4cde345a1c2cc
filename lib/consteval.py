"""C01: the operations declared constexpr, evaluated by the compiler.

Transitions exported by the specifications of the other properties (VecMachine, MatMachine, ElimMachine,
Scalar, TowerMachine, CurveMachine) are written out as static_assert declarations: the compiler's constant
evaluator is the implementation the transitions are replayed into.  It computes the library's templates
without ever running them, and rejects what a run may hide (reading what was never written, leaving an
array, overflow of a signed integer, a call of something that is not constexpr)."""
import ast, os, random, re, sys
import vf
from vf import parallel, Broken, BuildFailed, sh, CXX, BASE_FLAGS
import linalg

sys.set_int_max_str_digits(0)


def parse(line):
    s = line.strip()
    if s.startswith('"'):
        s = s[1:-1].replace('\\"', '"')
    s = re.sub(r'^<<([a-z0-9]+),', r'<<"\1",', s)
    s = s.replace("<<", "[").replace(">>", "]").replace("TRUE", "True").replace("FALSE", "False")
    return ast.literal_eval(s)


class No(Exception):
    """the case is not one that is written out (complex entries, a shape the template does not offer, ...)"""


# ------------------------------------------------------------------ vectors and matrices
def num(T, z):
    if z[1] != 0 or (T == "size_t" and z[0] < 0):
        raise No
    return "%d%s" % (z[0], {"double": ".0", "size_t": "ul"}.get(T, ""))


def vec(T, v):
    return "ce::vec<%s>(%s)" % (T, ", ".join(num(T, x) for x in v))


def mat(T, m):
    return "ce::mat<%s, %d, %d>(%s)" % (T, len(m), len(m[0]), ", ".join(num(T, x) for r in m for x in r))


def nonneg(v):
    return all(x[0] >= 0 for x in v)


def vec_case(T, op, p, a, r):
    S = lambda e, w: "ce::same(%s, %s)" % (e, vec(T, w))
    v = lambda i: vec(T, a[i])
    s = lambda i: num(T, a[i][0] if isinstance(a[i][0], list) else a[i])
    B = {"vadds": "%s + %s", "saddv": "%s + %s", "vaddv": "%s + %s", "vmuls": "%s * %s", "smulv": "%s * %s", "vmulv": "%s * %s"}
    if op in B:
        x = [v(i) if op[0 if i == 0 else -1] == "v" else s(i) for i in (0, 1)]
        return [S(B[op] % tuple(x), r)]
    if op == "veq":
        return ["(%s == %s) == %s" % (v(0), v(1), str(r).lower()), "(%s != %s) == %s" % (v(0), v(1), str(not r).lower())]
    if op == "vconj" and T != "size_t":
        return [S("A::conj(%s)" % v(0), r)]
    if op == "vabs" and T != "size_t":
        return [S("A::abs(%s)" % v(0), r)]
    if op in ("vsum", "vdot", "vmin", "vmax"):
        if op == "vdot" and T == "size_t":
            raise No
        return ["A::%s(%s) == %s" % (op[1:], ", ".join(v(i) for i in range(len(a))), num(T, r[0] if isinstance(r[0], list) else r))]
    if op in ("vminix", "vmaxix"):
        return ["A::%s_index(%s) == %d" % (op[1:4], v(0), r)]
    if op == "viota":
        return [S("A::iota<%d>(%s(%s))" % (p[0], T, s(0)), r)]
    if op == "vlinspace" and T == "double":
        return ["ce::close(A::linspace<%d>(%s, %s), %s, 16)" % (p[0], s(0), s(1), vec(T, r))]
    if op == "vsqrt" and T == "double":
        return ["ce::close(A::sqrt(%s), %s, 4)" % (v(0), vec(T, r))]
    if op == "vfill":
        return [S("A::fill<%d>(%s(%s))" % (p[0], T, s(0)), r)]
    if op == "vgen":
        return [S("A::generate<%d>([](size_t i) { return %s(%s) + %s(i * i); })" % (p[0], T, s(0), T), r)]
    if op == "vconcat":
        return [S("A::concat(%s, %s)" % (v(0), v(1)), r)]
    if op == "vslice":
        return [S("A::slice<%d>(%s, %d)" % (p[0], v(0), p[1]), r)]
    if op == "vrot":
        return [S("A::rotate(%s, %d)" % (v(0), p[0]), r)]
    if op == "vcast":
        return ["ce::same(A::cast<%s>(%s), %s)" % (U, v(0), vec(U, r)) for U in ("int", "double")]
    if op == "velem":
        return [S("A::elementwise([](%s x, %s y) { return %s(2 * x - 3 * y); }, %s, %s)" % (T, T, T, v(0), v(1)), r)] if T != "size_t" else []
    if op == "vaccum":
        return ["A::accumulate(%s, %s(%s), [](%s x, %s y) { return %s(2 * x + y); }) == %s" % (v(0), T, s(1), T, T, T, num(T, r[0] if isinstance(r[0], list) else r))]
    if op == "vmake" and len(a[0]) <= 5:
        xs = ", ".join("%s(%s)" % (T, num(T, x)) for x in a[0])
        return [S("A::make_vector(%s)" % xs, r), S("A::vector<%s, %d>{%s}" % (T, len(a[0]), xs), r)]
    raise No


def mat_case(T, op, p, a, r):
    S = lambda e, w: "ce::same(%s, %s)" % (e, mat(T, w))
    m = lambda i: mat(T, a[i])
    B = {"madds": "%s + %s", "saddm": "%s + %s", "maddm": "%s + %s", "mmuls": "%s * %s", "smulm": "%s * %s", "mmulm": "%s * %s"}
    s = lambda i: num(T, a[i][0] if isinstance(a[i][0], list) else a[i])
    if op in B:
        x = [m(i) if op[0 if i == 0 else -1] == "m" else s(i) for i in (0, 1)]
        return [S(B[op] % tuple(x), r)]
    if op == "meq":
        return ["(%s == %s) == %s" % (m(0), m(1), str(r).lower()), "(%s != %s) == %s" % (m(0), m(1), str(not r).lower())]
    if op == "transpose" or (op in ("hermitian", "mconj") and T != "size_t"):
        return [S("A::%s(%s)" % (op.replace("mconj", "conj"), m(0)), r)]
    if op in ("row", "column"):
        return ["ce::same(%s.%s(%d), %s)" % (m(0), op, p[0], vec(T, r))]
    if op in ("horzcat", "vertcat", "matmul", "kron"):
        return [S("A::%s(%s, %s)" % (op, m(0), m(1)), r)]
    if op == "submat":
        return [S("A::submat<%d, %d>(%s, %d, %d)" % (p[0], p[1], m(0), p[2], p[3]), r)]
    if op == "reshape":
        n = len(a[0]) * len(a[0][0])
        if n % p[0]:
            raise No
        return [S("A::reshape<%d, %d>(%s)" % (p[0], n // p[0], m(0)), r)]
    if op == "repmat":
        return [S("A::repmat<%d, %d>(%s)" % (p[0], p[1], m(0)), r)]
    if op in ("swaprow", "swapcol"):
        return [S("A::%s(%s, %d, %d)" % (op, m(0), p[0], p[1]), r)]
    if op == "identity":
        return [S("A::identity<%s, %d>" % (T, p[0]), r), S("A::get_identity<%s, %d>()" % (T, p[0]), r)]
    if op == "mfill":
        return [S("A::fill<%d, %d>(%s(%s))" % (p[0], p[1], T, s(0)), r)]
    if op == "mgen":
        return [S("A::generate<%d, %d>([](size_t i, size_t j) { return %s(%s) + %s(10 * i + j); })" % (p[0], p[1], T, s(0), T), r)]
    if op == "mcast":
        return ["ce::same(A::cast<%s>(%s), %s)" % (U, m(0), mat(U, r)) for U in ("int", "double")]
    if op == "melem" and T != "size_t":
        return [S("A::elementwise([](%s x, %s y) { return %s(2 * x - 3 * y); }, %s, %s)" % (T, T, T, m(0), m(1)), r)]
    if op == "ascol":
        return [S("A::as_column(%s)" % vec(T, a[0]), r)]
    if op == "asrow":
        return [S("A::as_row(%s)" % vec(T, a[0]), r)]
    if op == "matvec":
        return ["ce::same(A::matvectmul(%s, %s), %s)" % (m(0), vec(T, a[1]), vec(T, r))]
    if op == "vecmat":
        return ["ce::same(A::vectmatmul(%s, %s), %s)" % (vec(T, a[0]), m(1), vec(T, r))]
    if op == "trace" or (op in ("macs", "mars") and T != "size_t"):
        return ["A::%s(%s) == %s" % (op, m(0), num(T, r[0] if isinstance(r[0], list) else r))]
    raise No


def elim_case(T, op, p, a, r):
    x = [[[v, 0] for v in row] for row in a[0]]
    big = max([1] + [abs(v) for row in a[0] for v in row])
    D = lambda rows: "ce::mat<double, %d, %d>(%s)" % (len(rows), len(rows[0]), ", ".join(repr(float(v)) for row in rows for v in row))
    m = mat("double", x)
    if op == "rank":
        return ["A::rank(%s) == %d" % (m, r)]
    if op == "det" and len(x) == len(x[0]):
        return ["ce::close(A::det(%s), %d.0, %d.0)" % (m, r, big ** len(x))]
    if op == "rref":
        w = [[q[0] / q[1] for q in row] for row in r]
        return ["ce::close(A::rref(%s), %s, %r)" % (m, D(w), max([1.0] + [abs(v) for row in w for v in row]) * big * big)]
    if op == "inverse":
        w = [[q / r[0] for q in row] for row in r[1]]
        wm = max([1.0] + [abs(v) for row in w for v in row])
        return ["ce::close(A::inverse(%s), %s, %r)" % (m, D(w), wm * wm * big * big)]
    raise No


# ------------------------------------------------------------------ scalars
def val(m, e):
    from fractions import Fraction
    return float(Fraction(m) * Fraction(2) ** e)


def lit(x):
    if x != x or x in (float("inf"), float("-inf")) or (x != 0 and not 1e-290 < abs(x) < 1e290):
        raise No
    return float(x).hex()


def scalar_case(T, op, p, a, r):
    if op == "sqrt":
        return ["ce::near(A::sqrt(%s), %s, 4)" % (lit(val(*a[:2])), lit(val(*r[:2])))]
    if op == "sqrtf":
        x = val(*a[:2])
        if x and not 1e-35 < x < 1e35:
            raise No
        return ["ce::nearf(A::sqrt(float(%s)), %s, 4)" % (lit(x), lit(val(*r[:2])))]
    if op == "nthroot":
        return ["ce::near(A::nthroot(%s, %d), %s, 16)" % (lit(val(*a[:2])), a[2], lit(val(*r[:2])))]
    if op == "pow":
        return ["ce::near(A::exponentiate(%s, %d), %s, %d)" % (lit(val(*a[:2])), a[2], lit(val(*r[:2])), 2 * abs(a[2]) + 8)]
    if op == "abs":
        return ["A::abs(%d) == %d" % (a[0], r[0]), "A::abs(%d.0 / 1024) == %d.0 / 1024" % (a[0], r[0]), "A::conj(%d) == %d" % (a[0], a[0])]
    raise No


# ------------------------------------------------------------------ fields
NAMES = dict(fp="%s", fp2="alg::fields::fp2<%s>", fp3="alg::fields::fp3<%s>", fp4="alg::fields::fp4<%s>",
             fp6a="alg::fields::fp6_2over3<%s>", fp6b="alg::fields::fp6_3over2<%s>")
PARTS = dict(fp2=("fp", 2), fp3=("fp", 3), fp4=("fp2", 2), fp6a=("fp3", 2), fp6b=("fp2", 3))


def elem(name, base, x):
    t = NAMES[name] % base
    if name == "fp":
        return "typename %s::value_type(%du)" % (t, x[0])
    sub, k = PARTS[name]
    n = len(x) // k
    return "typename %s::value_type(%s)" % (t, ", ".join(elem(sub, base, x[i * n:(i + 1) * n]) for i in range(k)))


def field_case(T, op, p, a, r):
    name, q, n = p[0].split("_")
    if name not in NAMES:
        raise No
    base = "toy::fp<%s, %s>" % (q, n)
    E = lambda x: elem(name, base, x).replace("typename ", "")
    X = lambda s: s.lower()
    if op == "bin":
        x, y = E(a[0]), E(a[1])
        return ["%s + %s == %s" % (x, y, E(r[0])), "%s - %s == %s" % (x, y, E(r[1])), "%s * %s == %s" % (x, y, E(r[2])),
                "(%s == %s) == %s" % (x, y, X(str(r[3]))), "(%s != %s) == %s" % (x, y, X(str(not r[3]))),
                "ce::compound(%s, %s, %s, %s, %s)" % (x, y, E(r[0]), E(r[1]), E(r[2]))]
    if op == "un":
        x = E(a[0])
        o = ["-%s == %s" % (x, E(r[0])), "%s.doubled() == %s" % (x, E(r[1])), "%s.squared() == %s" % (x, E(r[2])),
             "%s.is_zero() == %s" % (x, X(str(r[4]))), "%s.is_one() == %s" % (x, X(str(r[5])))]
        return o + (["%s.inversed() == %s" % (x, E(r[3]))] if r[3] else [])
    if op == "succ":
        e = lambda v: E([v])
        return ["ce::steps(%s, %s, %s)" % (e(a[0]), e(r[0]), e(r[1]))]
    if op == "ord":
        return ["(%s < %s) == %s" % (E([a[0]]), E([a[1]]), X(str(r[0])))]
    if op == "sqrt" and name in ("fp", "fp2"):
        return ["ce::rooted(%s, %s, %s)" % (E(a[0]), E(r[0]), E(r[1]))]
    if op == "issq" and name in ("fp", "fp2"):
        return ["%s.is_square() == %s" % (E(a[0]), X(str(r)))]
    if op == "pow" and len(a[1]) <= 2:
        k = 0
        for d in a[1]:
            k = k * 1024 + d
        return ["%s.pow(%d) == %s" % (E(a[0]), k, E(r))]
    if op == "frob":
        return ["%s.Frobenius_map(%d) == %s" % (E(a[0]), i, E(w)) for i, w in enumerate(r)]
    raise No


# ------------------------------------------------------------------ curves
def tuples(co, P, z, p):
    inv = lambda x: pow(x, p - 2, p)
    x, y = P
    if co == "affine":
        return (x, y)
    if co.startswith("projective"):
        return (x * z % p, y * z % p, z)
    if co.startswith("jacobian"):
        return (x * z * z % p, y * z * z * z % p, z)
    if co == "inverted":
        if not x or not y:
            raise No
        return (z * inv(x) % p, z * inv(y) % p, z)
    return (x * z % p, y * z % p, x * y * z % p, z)


def curve_case(co, op, p, a, r):
    form, q, d, ca, cb, z = p[0].split("_")
    q, ca, cb = int(q), int(ca), int(cb)
    if form not in ("sw", "te", "mg") or d != "1":
        raise No
    cos = {"sw": ["affine", "projective", "jacobian"] + ["jacobian_with_a4_0"] * (ca == 0) + ["jacobian_with_a4_minus_3", "projective_with_a4_minus_3"] * (ca == q - 3),
           "te": ["affine", "inverted"] + ["extended_with_a_minus_1"] * (ca == q - 1), "mg": ["affine"]}[form]
    if co not in cos:
        raise No
    F = "toy::fp<%d, %d>" % (q, nonres(q))
    E = "ce::group<%s, ce::%s, %d, %d, %s, co::%s>::value_type" % (F, form, ca, cb, z, co)
    V = lambda v: "%s::value_type(%du)" % (F, v)
    rnd = random.Random(repr((co, op, p, a)))
    # the neutral element of the Edwards forms is the point (0, 1) of the curve
    def pt(P, z1=False):
        if not P or (form == "te" and P == [0, 1]):
            return E + ("()" if co == "affine" else "::zero()")
        return "%s(%s)" % (E, ", ".join(V(v) for v in tuples(co, P, 1 if z1 else rnd.randrange(1, q), q)))
    def is_(e, P):
        if not P or (form == "te" and P == [0, 1]):
            return "(%s).is_zero()" % e
        tuples(co, P, 1, q)
        return "ce::%s(%s, %s, %s)" % ("in" if co == "affine" else "at", e, V(P[0]), V(P[1]))
    if op in ("add", "sub"):
        x, y, s = pt(a[0]), pt(a[1]), "+-"[op == "sub"]
        o = [is_("%s %s %s" % (x, s, y), r), "%s %s %s == %s" % (x, s, y, pt(r)),
             "(%s == %s) == %s" % (x, pt(a[1]), str(a[0] == a[1]).lower()), "(%s != %s) == %s" % (x, pt(a[1]), str(a[0] != a[1]).lower())]
        if not (op == "sub" and co == "projective_with_a4_minus_3"):        # (which has no -=)
            o.append(is_("ce::%s(%s, %s)" % ({"+": "plus", "-": "minus"}[s], x, y), r))
        if op == "add" and form == "sw" and co != "affine" and a[1]:
            o.append(is_("ce::mixed(%s, %s)" % (x, pt(a[1], True)), r))
        return o
    if op == "neg":
        return [is_("-" + pt(a[0]), r)]
    if op == "dbl":
        return [is_("ce::dbl(%s)" % pt(a[0]), r)]
    if op == "conv":
        return [is_(pt(a[0]), r)] + ["%s.is_well_formed()" % pt(a[0])] * (form != "sw" or co != "affine") + ["%s.is_zero() == %s" % (pt(a[0]), str(not a[0] or (form == "te" and a[0] == [0, 1])).lower())]
    if op == "mul" and p[1] < 30:
        return [is_("%s * %s::integral_type(%du)" % (pt(a[0]), F, p[1]), r)]
    raise No


def nonres(p):
    return next(n for n in range(2, p) if pow(n, (p - 1) // 2, p) == p - 1)


# ------------------------------------------------------------------ replay in the constant evaluator
def write(c, group, files, kinds, case, per, chunk):
    """-> list of (source file, {line: (operation, case text)}); `per` cases of every operation (and kind)"""
    rnd = random.Random(c.seed)
    pool = {}
    for f in files:
        for line in open(f):
            m = re.search(r'<<\\?"?([a-z0-9]+)\\?"?, (<<(?:\\"[a-z0-9]+_)?)', line)
            if m:
                pool.setdefault((m.group(1), m.group(2)), []).append(line.strip())
    rows = []
    for (op, _), lines in sorted(pool.items()):
        lines = sorted(set(lines))
        rnd.shuffle(lines)
        for k in kinds:
            n = 0
            for line in lines:
                if n >= per:
                    break
                try:
                    v = parse(line)
                    out = case(k, v[0], v[1], v[2], v[3])
                except No:
                    continue
                n += len(out) > 0
                rows += [(op + ("<%s>" % k if k else ""), e, line) for e in out]
    res = []
    n = max(1, -(-len(rows) // chunk))
    for i in range(n):
        name, where = c.path("ce_%s_%d.cpp" % (group, i)), {}
        with open(name, "w") as h:
            h.write('#include "ce.hpp"\n')
            for j, (op, e, line) in enumerate(rows[i::n]):
                h.write("static_assert(%s);\n" % e)
                where[j + 2] = (op, e, line)
        res.append((name, where))
    return res


def evaluate(c, src):
    name, where = src
    if not where:
        raise Broken("no case for " + name)
    rc, log = sh([CXX] + [f for f in BASE_FLAGS if "sanitize" not in f and "error-limit" not in f] +
                 ["-ferror-limit=0", "-fsyntax-only", name], 850, cwd=c.dir)
    if rc not in (0, 1):
        raise Broken("compiler ended with %d on %s: %s" % (rc, name, log[-500:]))
    bad, cur = {}, None
    for l in log.splitlines():
        m = re.match(re.escape(name) + r":(\d+):\d+: (error|note): (.*)", l)
        if m:
            n = int(m.group(1))
            if m.group(2) == "error":
                bad.setdefault(n, []).append(m.group(3))
                cur = n
            elif cur == n or (cur and len(bad[cur]) < 4):
                bad[cur].append(m.group(3))
        elif "error:" in l:
            # an error inside a header belongs to the case that asked for it ("in instantiation ... requested here")
            cur = None
            bad.setdefault(0, []).append(l.split("error:")[1].strip())
    real = {n: d for n, d in bad.items() if n in where}
    if rc != 0 and not real:
        raise BuildFailed(os.path.basename(name), log)
    for n, d in real.items():
        op, e, line = where[n]
        c.fails.append((op, "; ".join(d[:3])[:300] + " :: " + e[:300], line, None))
    with c.lock:
        c.replayed += len({w[2] for w in where.values()})
        c.compared += len(where)
        for op, e, line in where.values():
            c.counts[op] = c.counts.get(op, 0) + 1


def c01(c):
    t = c.thorough
    c.assume = ["entries int, double and size_t; toy fields F_p with p <= 13 and their extensions up to degree six; curves over F_7 and F_13",
                "the constant evaluator is clang's; what is not declared constexpr (the dodecic extension, the pairing, encodings) is not asked for"]
    vb = dict(MaxLen="5", CapLen="8", Lo="-9", Hi="9", Bound="8000", Depth="1", KeySet=linalg.keys(c, 8 if t else 2), Small="{0}", SmallLen="1")
    mb = dict(Shapes=linalg.SQ % (3, 3), MaxDim="3", CapDim="6", Lo="-9", Hi="9", Bound="8000", Depth="1", KeySet=linalg.keys(c, 3 if t else 1))
    ks = linalg.keys(c, 30)
    eb = dict(Family="{<<1,1,-4,4>>,<<2,2,-1,1>>}", RandSet="{<<2,2,-5,5,%s>>,<<3,3,-3,3,%s>>,<<2,3,-3,3,%s>>,<<3,2,-3,3,%s>>,<<4,4,-2,2,%s>>}" % ((ks,) * 5), Extra="{}", DetCheck="TRUE")
    tower = [("fp", 7, 3), ("fp", 13, 2), ("fp2", 7, 3), ("fp2", 13, 2), ("fp3", 7, 3), ("fp4", 13, 2), ("fp6a", 7, 3), ("fp6b", 7, 6)]
    from fields import INV as FINV
    from curves import INV as CINV, fields as cfields, ZB
    def field(kinds, ts, name):
        return c.tlc(name, "TowerMachine", dict(Specs="<< " + ", ".join('<<"%s", %d, %d>>' % x for x in ts) + " >>", Kinds="{%s}" % ", ".join('"%s"' % k for k in kinds),
                     FullMax="0", Walks="4", Len_="6", Seed=str(c.seed % 9973)), name + ".txt", FINV, workers=2, timeout=850, xmx="2g")
    def curve(form, stride, ps, acts):
        return c.tlc("curve-" + form + acts, "CurveMachine", dict(FieldSpecs=cfields(ps), Forms='{"%s"}' % form, ZFs=ZB if form != "mg" else "{<<0,0>>}", Stride=str(stride),
                     Phase=str(c.seed % 997), Deep="0", Acts='{"%s"}' % acts), form + acts + ".txt", CINV, workers=2, timeout=850, xmx="2g")
    fv, fm, fe, fs, ff, fr, sw, te, mg, swm = parallel(
        lambda: c.tlc("vectors", "VecMachine", vb, "v.txt", ["Laws"], constraint="InBound", workers=2, timeout=800),
        lambda: c.tlc("matrices", "MatMachine", dict(mb, Ops='{"struct", "prod"}'), "m.txt", ["Laws"], constraint="InBound", workers=2, timeout=800),
        lambda: c.tlc("elimination", "ElimMachine", eb, "e.txt", ["DetInvariant", "Reduced", "Correct"], workers=2, timeout=800),
        lambda: c.qcases("scalar", "Scalar.qnt", "Scalar", "s.txt", steps=600, runs=2, invariants=["enclosed"], timeout=800),
        lambda: field(["bin", "ring", "order", "frob"], tower, "f"),
        lambda: field(["roots", "pow"], tower[:5], "r"),
        lambda: curve("sw", 24, [(7, 1), (13, 1)], "walk"),
        lambda: curve("te", 12, [(7, 1), (13, 1)], "walk"),
        lambda: curve("mg", 24, [(7, 1), (13, 1)], "walk"),
        lambda: curve("sw", 60, [(7, 1)], "count"))
    per = 60 if t else 12
    srcs = []
    INTS = ["int", "double", "size_t"]
    srcs += write(c, "vec", [fv], INTS, vec_case, per, 300)
    srcs += write(c, "mat", [fm], INTS, mat_case, per, 300)
    srcs += write(c, "elim", [fe], [""], elim_case, per * 3, 300)
    srcs += write(c, "scalar", [fs], [""], scalar_case, per * 3, 300)
    srcs += write(c, "field", [ff, fr], [""], field_case, per, 300)
    srcs += write(c, "curve", [sw, te, mg, swm], ["projective", "jacobian", "jacobian_with_a4_0", "jacobian_with_a4_minus_3", "projective_with_a4_minus_3",
                  "affine", "inverted", "extended_with_a_minus_1"], curve_case, per, 200)
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex:
        for f in [ex.submit(evaluate, c, s) for s in srcs]:
            f.result()
    c.runs.append("constant evaluation: %d translation units, %d assertions about the library" % (len(srcs), c.compared))


CHECKS = {"C01": c01}
