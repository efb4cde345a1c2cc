"""The named fields of the library: header, type, key; translation units are generated from this table."""
import os
NS = "nil::crypto3::algebra::fields::"
FD = "nil/crypto3/algebra/fields/"
PRIMES = []         # (key, header, type, weight)


def _p(key, hdr, typ):
    PRIMES.append((key, hdr, typ))


for n, b in (("alt_bn128", "254"), ("bls12", "381"), ("bls12", "377"), ("bn128", "254"), ("edwards", "183"), ("mnt4", "298"), ("mnt6", "298")):
    for s in ("base", "scalar"):
        _p("%s_%s.%s" % (n, b, s), "%s/%s_field.hpp" % (n, s), "%s_%s_field<%s>" % (n, s, b))
for n in ("babyjubjub", "curve25519", "jubjub", "pallas", "vesta"):
    for s in ("base", "scalar"):
        _p("%s.%s" % (n, s), "%s/%s_field.hpp" % (n, s), "%s_%s_field" % (n, s))
for b in (160, 192, 224, 256):
    for s in ("base", "scalar"):
        _p("secp%dk1.%s" % (b, s), "secp/secp_k1/%s_field.hpp" % s, "secp_k1_%s_field<%d>" % (s, b))
for b in (160, 192, 224, 256, 384, 521):
    for s in ("base", "scalar"):
        if (b, s) != (160, "scalar"):
            _p("secp%dr1.%s" % (b, s), "secp/secp_r1/%s_field.hpp" % s, "secp_r1_%s_field<%d>" % (s, b))
for n in ("sm2p_v1", "gost_A"):
    for s in ("base", "scalar"):
        _p("%s.%s" % (n, s), "%s/%s_field.hpp" % (n, s), "%s_%s_field<256>" % (n, s))
_p("frp_v1.base", "frp_v1/base_field.hpp", "frp_v1_base_fields<256>")
_p("frp_v1.scalar", "frp_v1/scalar_field.hpp", "frp_v1_scalar_field<256>")
for b in (160, 192, 224, 256, 320, 384, 512):
    for s in ("base", "scalar"):
        _p("brainpoolP%dr1.%s" % (b, s), "brainpool_r1/%s_field.hpp" % s, "brainpool_r1_%s_field<%d>" % (s, b))
for v, b in ((2, 192), (3, 192), (1, 239), (2, 239), (3, 239)):
    for s in ("base", "scalar"):
        _p("prime%dv%d.%s" % (b, v, s), "x962_p/%s_field.hpp" % s, "x962_p_v%d_%s_field<%d>" % (v, s, b))
_p("sect163k1.scalar", "sect/sect_k1/scalar_field.hpp", "sect_k1_scalar_field<163>")
_p("goldilocks64.base", "goldilocks64/base_field.hpp", "goldilocks64_base_field")
_p("maxprime64", "maxprime.hpp", "maxprime<64>")
BIG = []
for t, bs in (("dsa_botan", (2048, 3072)), ("dsa_jce", (1024,)), ("ffdhe_ietf", (2048, 3072, 4096, 6144, 8192)), ("modp_ietf", (1024, 1536, 2048, 3072, 4096, 6144, 8192)), ("modp_srp", (1024, 1536, 2048, 3072, 4096, 6144, 8192))):
    for b in bs:
        BIG.append(("%s_%d" % (t, b), t + ".hpp", "%s<%d>" % (t, b)))
ARITH = {("alt_bn128_254.base"): "alt_bn128", "alt_bn128_254.scalar": "alt_bn128", "bls12_381.base": "bls12", "bls12_381.scalar": "bls12", "bls12_377.base": "bls12",
         "bls12_377.scalar": "bls12", "mnt4_298.base": "mnt4", "mnt6_298.base": "mnt6", "mnt4_298.scalar": "mnt4", "mnt6_298.scalar": "mnt6", "goldilocks64.base": "goldilocks64",
         "pallas.base": "pallas", "pallas.scalar": "pallas", "vesta.base": "vesta", "vesta.scalar": "vesta", "curve25519.base": "ed25519"}

# extension fields: key, header, base type, template, name
EXT = []
for c, b in (("alt_bn128", "alt_bn128_base_field<254>"), ("bls12_381", "bls12_base_field<381>"), ("bls12_377", "bls12_base_field<377>"), ("bn128", "bn128_base_field<254>")):
    h = c.split("_3")[0]
    for t, nm in (("fp2", "fp2"), ("fp6_3over2", "fp6_3over2"), ("fp12_2over3over2", "fp12")):
        EXT.append(("%s.%s" % (c, nm), h, b, t, nm))
for c, b, ts in (("mnt4", "mnt4_base_field<298>", ("fp2", "fp4")), ("mnt6", "mnt6_base_field<298>", ("fp3", "fp6_2over3")), ("edwards", "edwards_base_field<183>", ("fp3", "fp6_2over3"))):
    for t in ts:
        EXT.append(("%s.%s" % (c, t), c, b, t, t))
EXT_ARITH = {"alt_bn128.fp2": "alt_bn128", "bls12_381.fp2": "bls12", "bls12_377.fp2": "bls12", "mnt4.fp2": "mnt4", "mnt6.fp3": "mnt6"}


def unit(path, primes=(), exts=()):
    """write one translation unit registering these fields"""
    with open(path, "w") as f:
        for h in sorted({p[1] for p in primes} | {"%s/base_field.hpp" % e[1] for e in exts} | {e[3] + ".hpp" for e in exts}):
            f.write("#include <%s%s>\n" % (FD, h))
        for h in sorted({ARITH[p[0]] for p in primes if p[0] in ARITH} | {EXT_ARITH[e[0]] for e in exts if e[0] in EXT_ARITH}):
            f.write("#if __has_include(<%sarithmetic_params/%s.hpp>)\n#include <%sarithmetic_params/%s.hpp>\n#endif\n" % (FD, h, FD, h))
        f.write('#include "nf.hpp"\nnamespace ff = nil::crypto3::algebra::fields;\nnamespace {\n')
        for i, p in enumerate(primes):
            f.write('nf::prime<ff::%s> p%d("%s");\n' % (p[2], i, p[0]))
            if p[0] in ARITH:
                f.write('nf::arith<ff::%s, ff::arithmetic_params<ff::%s>> a%d("%s");\n' % (p[2], p[2], i, p[0]))
        for i, e in enumerate(exts):
            f.write('nf::ext<ff::%s<ff::%s>> e%d("%s", "%s");\n' % (e[3], e[2], i, e[0], e[4]))
            if e[0] in EXT_ARITH:
                f.write('nf::arith<ff::%s<ff::%s>, ff::arithmetic_params<ff::%s<ff::%s>>> b%d("%s");\n' % (e[3], e[2], e[3], e[2], i, e[0]))
        f.write("}\n")
    return path
