"""The named curve groups of the library: key -> header, curve, group, form, coordinate systems."""
CD = "nil/crypto3/algebra/curves/"
CO = {"aff": "affine", "proj": "projective", "jac": "jacobian", "jac0": "jacobian_with_a4_0", "jac3": "jacobian_with_a4_minus_3", "proj3": "projective_with_a4_minus_3",
      "inv": "inverted", "ext": "extended_with_a_minus_1"}
FORM = {"sw": "short_weierstrass", "te": "twisted_edwards", "mg": "montgomery"}
SW0 = ["aff", "proj", "jac", "jac0"]
HDR = {"secp_r1": ["secp_r1", "sm2p_v1"], "ed25519": ["curve25519", "ed25519"]}
GROUPS = []         # (key, header, curve, group, form, coordinates)


def _g(key, hdr, curve, g, form, cos):
    GROUPS.append((key, hdr, curve, g, form, cos))


for n, h, c in (("alt_bn128", "alt_bn128", "alt_bn128<254>"), ("bls12_381", "bls12", "bls12<381>"), ("bls12_377", "bls12", "bls12<377>")):
    _g(n + ".g1", h, c, "g1", "sw", SW0)
    _g(n + ".g2", h, c, "g2", "sw", ["jac0"])
for n in ("mnt4", "mnt6"):
    for g in ("g1", "g2"):
        _g("%s.%s" % (n, g), n, n + "<298>", g, "sw", ["aff", "proj", "jac"])
for n in ("pallas", "vesta"):
    _g(n, n, n, "g1", "sw", SW0)
_g("secp256k1", "secp_k1", "secp_k1<256>", "g1", "sw", SW0)
_g("secp256r1", "secp_r1", "secp_r1<256>", "g1", "sw", ["aff", "proj", "jac", "jac3", "proj3"])
_g("ed25519", "ed25519", "ed25519", "g1", "te", ["aff", "inv", "ext"])
_g("curve25519", "curve25519", "curve25519", "g1", "mg", ["aff"])
for n in ("babyjubjub", "jubjub"):
    _g(n + ".te", n, n, "g1", "te", ["aff", "inv"] + (["ext"] if n == "jubjub" else []))
    _g(n + ".mg", n, n, "g1", "mg", ["aff"])
_g("edwards.g1", "edwards", "edwards<183>", "g1", "te", ["aff", "inv"])
_g("edwards.g2", "edwards", "edwards<183>", "g2", "te", ["inv"])


def unit(path, groups):
    with open(path, "w") as f:
        for h in sorted({x for g in groups for x in HDR.get(g[1], [g[1]])}):
            f.write("#include <%s%s.hpp>\n" % (CD, h))
        f.write('#include "nc.hpp"\nnamespace {\n')
        i = 0
        for key, hdr, curve, g, form, cos in groups:
            for co in cos:
                f.write('using C%d = nc::cv::%s; nc::group<C%d, C%d::%s_type<nc::co::%s, nc::cv::forms::%s>, nc::cv::forms::%s, nc::co::%s, %s> g%d("%s/%s", "%s.%s");\n' %
                        (i, curve, i, i, g, CO[co], FORM[form], FORM[form], CO[co], "true" if co == "aff" and form == "te" and curve[:3] != "edw" else "false", i, key, co, form, co))
                i += 1
        if any(g[0] == "secp256r1" for g in groups):      # parameters without a group type
            f.write('nc::plain<nc::cv::sm2p_v1<256>> sm("sm2p_v1/aff");\n')
        f.write("}\n")
    return path


MX = {"alt_bn128": "jac0", "bls12_381": "jac0", "bls12_377": "jac0", "mnt4": "proj", "mnt6": "proj", "edwards": "inv"}      # default coordinates


def mx_groups():
    return [(k, h, c, g, f, [MX[k.split(".")[0]]]) for k, h, c, g, f, _ in GROUPS if k.split(".")[0] in MX]


def mx_unit(path, groups):
    with open(path, "w") as f:
        for h in sorted({g[1] for g in groups}):
            f.write("#include <%s%s.hpp>\n#include <%sparams/multiexp/%s.hpp>\n#include <%sparams/wnaf/%s.hpp>\n" % (CD, h, CD, h, CD, h))
        f.write('#include "mxn.hpp"\nnamespace {\n')
        for i, (key, hdr, curve, g, form, cos) in enumerate(groups):
            f.write('using C%d = nc::cv::%s; mx::group<C%d, C%d::%s_type<>, nc::cv::forms::%s, nc::co::%s> g%d("%s/%s", "%s");\n' %
                    (i, curve, i, i, g, FORM[form], CO[cos[0]], i, key, cos[0], g))
        f.write("}\n")
    return path
