"""T01: type classifiers (TLA+).  The types TLC builds are written out as C++ and asked."""
import re, vf

TYPES = {"value_type", "integral_type", "modular_type", "extension_policy", "base_field_type", "scalar_field_type", "g1_type", "g2_type", "gt_type",
         "field_type", "curve_type", "group_type", "encoded_value_type", "decoded_value_type", "encoded_block_type", "decoded_block_type",
         "word_type", "block_type", "key_type", "digest_type", "iterator", "const_iterator"}
DATA = {"value_bits", "modulus_bits", "arity", "encoded_value_bits", "decoded_value_bits", "encoded_block_bits", "decoded_block_bits", "word_bits",
        "block_bits", "key_bits", "max_key_bits", "min_key_bits", "digest_bits", "rounds"}
FUN = {"zero": "static T zero();", "one": "static T one();", "is_zero": "bool is_zero();", "is_well_formed": "bool is_well_formed();",
       "double_inplace": "T &double_inplace();", "mixed_add": "void mixed_add(T const &);",
       "encode": "encoded_block_type encode(int) const;", "decode": "decoded_block_type decode(int) const;", "encrypt": "block_type encrypt(int) const;",
       "decrypt": "block_type decrypt(int) const;", "generate": "void generate();", "check": "void check() const;",
       "begin": "const_iterator begin() const;", "end": "const_iterator end() const;"}
BAD = {"zero": "static int zero();", "one": "static int one();", "is_zero": "int is_zero();", "is_well_formed": "bool is_well_formed(int);",
       "double_inplace": "void double_inplace();", "mixed_add": "void mixed_add(int);"}
RET = {"encode": "encoded_block_type", "decode": "decoded_block_type", "encrypt": "block_type", "decrypt": "block_type", "begin": "const_iterator", "end": "const_iterator"}
NS = {t: "alg" for t in "is_field is_extended_field is_curve is_curve_group is_group_element has_mixed_add is_field_element is_extended_field_element is_g1_group_element is_g2_group_element is_complex".split()}
NS.update({t: "det" for t in "is_codec is_block_cipher is_hash is_mac is_kdf is_passhash is_range is_container is_iterator".split()})

HEAD = """#include <complex>
#include <iterator>
#include <type_traits>
#include <utility>
#include <vector>
%s#include <nil/crypto3/detail/type_traits.hpp>
#include <nil/crypto3/algebra/type_traits.hpp>
#include "types.hpp"
#include "asserts.hpp"
namespace alg = nil::crypto3::algebra;
namespace det = nil::crypto3::detail;
"""


def decl(m, how, names):
    if m in TYPES:
        return {"ok": "typedef int %s;", "wrong": "static const std::size_t %s = 1;", "tmpl": "template<typename C = int, typename F = int> using %s = std::pair<C, F>;"}[how] % m
    if m in DATA:
        return {"ok": "constexpr static const std::size_t %s = 8;", "wrong": "typedef int %s;"}[how] % m
    if m in FUN:
        s = FUN[m] if how == "ok" else BAD[m]
        if m in RET and RET[m] not in names:
            s = s.replace(RET[m], "int", 1)
        return s
    raise vf.Broken("unknown member " + m)


def struct(i, base, ms):
    names = {m for m, _ in ms}
    body = [decl(m, how, names) for m, how in sorted(ms, key=lambda x: (x[0] not in TYPES, x[0])) if not m.startswith("construction_")]
    cons = [m for m, _ in ms if m.startswith("construction_")]
    if cons:
        body.append("struct construction { %s };" % " ".join({"construction_type": "typedef int type;", "construction_params": "typedef int params_type;"}[m] for m in cons))
    if base == "own":
        return "struct T%d { typedef T%d T; %s };" % (i, i, " ".join(body))
    return "struct B%d { typedef B%d T; %s };\nstruct T%d : B%d { };" % (i, i, " ".join(body), i, i)


def types(c):
    f = c.tlc("types", "TypeMachine", dict(Families='{"field","curve","group","point","codec","cipher","digest","passhash","range"}', Depth="3" if c.thorough else "2"),
              "types.txt", ["Laws", "Seen"], workers=4, timeout=800)
    lines = sorted(set(open(f).read().split("\n")) - {""})
    with open(f, "w") as o:
        o.write("\n".join(lines) + "\n")
    us, per = [], -(-len(lines) // 8)
    for u in range(0, len(lines), per):
        p = c.path("ty_%d.cpp" % u)
        with open(p, "w") as o:
            o.write(HEAD % "" + "namespace {\n")
            for i, l in enumerate(lines[u:u + per]):
                s = l.replace("\\", "").replace('"', "")
                fam, base = re.match(r"<<type, <<(\w+), (\w+)>>", s).groups()
                args, asked = split(s)
                o.write(struct(i, base, args) + "\n")
                o.write('types::reg r%d("%s", {%s});\n' % (i, key(fam, base, args), ", ".join('{"%s", %s::%s<T%d>::value}' % (t, NS[t], t, i) for t, _ in asked)))
            o.write("}\n")
        us.append((p, []))
    return f, us


def split(s):
    """members and questions of an exported type"""
    ps = re.findall(r"<<(\w+), (\w+)>>", s)[1:]
    return [p for p in ps if p[1] in ("ok", "wrong", "tmpl")], [p for p in ps if p[1] in ("TRUE", "FALSE")]


def key(fam, base, ms):
    return " ".join([fam, base] + ["%s:%s" % m for m in ms])


F, C = "nil/crypto3/algebra/fields/", "nil/crypto3/algebra/curves/"


def kinds():
    import curvetab, named
    k = {}
    add = lambda kind, t, hs=(): k.setdefault(kind, []).append((t, list(hs)))
    for n, h, t in named.PRIMES:
        add("prime_field", "alg::fields::" + t, [F + h])
        add("prime_element", "alg::fields::%s::value_type" % t, [F + h])
    for e in named.EXT:
        t, hs = "alg::fields::%s<alg::fields::%s>" % (e[3], e[2]), [F + e[1] + "/base_field.hpp", F + e[3] + ".hpp"]
        add("extension_field", t, hs)
        add("extension_element", t + "::value_type", hs)
    curves = {}
    for g, hdr, cv, grp, form, cos in curvetab.GROUPS:
        curves.setdefault((hdr, cv), set()).add(grp)
        hs = [C + h + ".hpp" for h in curvetab.HDR.get(hdr, [hdr])]
        for co in cos:
            t = "alg::curves::%s::%s_type<alg::curves::coordinates::%s, alg::curves::forms::%s>" % (cv, grp, curvetab.CO[co], curvetab.FORM[form])
            add("group", t, hs)
            both = any(x[2] == cv and x[3] == "g2" for x in curvetab.GROUPS)
            add({"g1": "g1_point" if both else "plain_point", "g2": "g2_point"}[grp], t + "::value_type", hs)
    for (hdr, cv), gs in curves.items():
        add("pairing_curve" if "g2" in gs else "plain_curve", "alg::curves::" + cv, [C + h + ".hpp" for h in curvetab.HDR.get(hdr, [hdr])])
    for t in ("bool", "int", "unsigned char", "char", "unsigned long", "long long"):
        add("integer", t)
    for t in ("float", "double", "long double"):
        add("real", t)
    for t in ("int", "long", "unsigned char"):
        add("complex_integer", "std::complex<%s>" % t)
    for t in ("int *", "std::string", "std::vector<double>", "std::pair<double, double>", "types::plain", "types::number"):
        add("no_number", t)
    for t in ("float", "double", "long double"):
        add("complex_number", "std::complex<%s>" % t)
    for t in ("std::vector<int>", "std::vector<std::complex<double>>", "std::list<char>", "std::string", "std::array<int, 3>", "std::map<int, int>", "std::set<long>", "std::deque<double>"):
        add("container", t)
        add("iterator", "%s::iterator" % t)
        add("iterator", "%s::const_iterator" % t)
    for t in ("int *", "const char *", "std::complex<double> *"):
        add("iterator", t)
    for t in ("int", "double", "std::pair<int, int>", "types::plain", "types::number", "std::tuple<>"):
        add("plain", t)
    return k


def tables(c):
    k = kinds()
    f = c.tlc("kinds", "KindTable", dict(Kinds="{%s}" % ", ".join('"%s"' % x for x in sorted(k))), "kinds.txt", ["OneAnswer", "AssertsAgree"], workers=1, timeout=200)
    says = {}
    for l in open(f):
        s = l.replace("\\", "").replace('"', "")
        m = re.match(r"<<kind, << *>>, (\w+), ", s)
        if m:
            says[m.group(1)] = re.findall(r"<<(\w+), (?:TRUE|FALSE)>>", s)
    if sorted(says) != sorted(k):
        raise vf.Broken("kinds not tabulated")
    items = [(kind, t, hs) for kind in k for t, hs in k[kind]]
    items.sort(key=lambda x: (x[2], x[0]))
    us, per = [], -(-len(items) // 12)
    for u in range(0, len(items), per):
        part = items[u:u + per]
        p = c.path("tk_%d.cpp" % u)
        with open(p, "w") as o:
            hs = []
            for x in part:
                hs += [h for h in x[2] if h not in hs]
            o.write("#include <array>\n#include <deque>\n#include <list>\n#include <map>\n#include <set>\n#include <string>\n#include <tuple>\n"
                    + HEAD % ("".join("#include <%s>\n" % h for h in hs) + ('#include "forms.hpp"\n' if any("curves" in h for h in hs) else "")) + "namespace {\n")
            for i, (kind, t, _) in enumerate(part):
                o.write("typedef %s X%d;\n" % (t, i))
                ask = ", ".join('{"%s", %s}' % (q, "!std::is_same<alg::remove_complex_t<X%d>, X%d>::value" % (i, i) if q == "remove_complex" else "HOLDS(%s, X%d)" % (q[7:], i) if q.startswith("assert_") else "%s::%s<X%d>::value" % (NS[q], q, i)) for q in says[kind])
                o.write('types::reg k%d("%s", {%s}, "%s");\n' % (i, kind, ask, t))
            o.write("}\n")
        us.append((p, []))
    return f, us


def t01(c):
    c.assume = ["members are written with the signatures the classifiers ask for; spoilt members are written as another kind of thing",
                "is_curve stands for curves with a pairing (both groups and a target group), as its definition lists",
                "the classifiers of nil/crypto3/detail go by member names"]
    (f, us), (g, ks) = vf.parallel(lambda: types(c), lambda: tables(c))
    e1, e2 = vf.parallel(lambda: c.build("ty", us + [("ty_main.cpp", [])]), lambda: c.build("tk", ks + [("ty_main.cpp", [])]))
    c.replay(e1, f, "types built member by member")
    c.replay(e2, g, "the library's own types")


CHECKS = {"T01": t01}
