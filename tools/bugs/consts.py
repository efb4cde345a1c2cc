import os, runpy
M = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "fields.py"))
H, T, BLS, M4 = M["H"], M["T"], M["BLS"], M["M4"]
X = "fields/detail/extension_params/"
BUGS = [
 dict(id="F05-frob12", property="F05", shim=True, file=X + "bls12/fp12_2over3over2.hpp",
      edits=[("""                            0x5B2CFD9013A5FD8DF47FA6B48B1E045F39816240C0B8FEE8BEADF4D8E9C0566C63A3E6E257F87329B18FAE980078116_cppui_modular379,
                            0x144E4211384586C16BD3AD4AFA99CC9170DF3560E77982D0DB45F3536814F0BD5871C1908BD478CD1EE605167FF82995_cppui_modular381};""",
              """                            0x144E4211384586C16BD3AD4AFA99CC9170DF3560E77982D0DB45F3536814F0BD5871C1908BD478CD1EE605167FF82995_cppui_modular381,
                            0x5B2CFD9013A5FD8DF47FA6B48B1E045F39816240C0B8FEE8BEADF4D8E9C0566C63A3E6E257F87329B18FAE980078116_cppui_modular379};""")],
      needs="the 11th power of the Frobenius map in the bls12-381 dodecic field", breaks="the last Frobenius coefficient has its coordinates exchanged",
      demo=BLS + '''
    V12 x(V6(V2(V(2), V(3)), V2(V(5), V(7)), V2(V(11), V(13))), V6(V2(V(17), V(19)), V2(V(23), V(29)), V2(V(31), V(37))));
    V12 y = x;
    for (int i = 0; i < 12; i++) { want(x.Frobenius_map(i) == y, "Frobenius power"); y = y.Frobenius_map(1); }
''' + T),
 dict(id="F05-nqr", property="F05", shim=True, file="fields/arithmetic_params/bls12.hpp",
      edits=[("constexpr static const std::array<integral_type, 2> nqr = {1, 1};", "constexpr static const std::array<integral_type, 2> nqr = {1, 2};")],
      needs="the non-residue stored in the arithmetic parameters of bls12-381 fp2 (its power to t is left alone)", breaks="nqr to the t is no longer nqr_to_t",
      demo=H % "#include <nil/crypto3/algebra/curves/bls12.hpp>\n#include <nil/crypto3/algebra/fields/arithmetic_params/bls12.hpp>" + '''
    using F = fields::fp2<fields::bls12_base_field<381>>; using A = fields::arithmetic_params<F>; using V2 = F::value_type; using V = V2::underlying_type;
    V n0(A::nqr[0]), n1(A::nqr[1]), t0(A::nqr_to_t[0]), t1(A::nqr_to_t[1]); V2 z(n0, n1), c(t0, t1);
    want(z.pow(A::t) == c, "nqr^t");
''' + T),
 dict(id="F05-root", property="F05", shim=True, file="fields/arithmetic_params/goldilocks64.hpp",
      edits=[("0x185629DCDA58878C_cppui_modular64", "0x400A7F755588E659_cppui_modular64")],
      needs="the order of the stored root of unity of the goldilocks field", breaks="its order is 2^31 instead of 2^32",
      demo=H % "#include <nil/crypto3/algebra/fields/goldilocks64/base_field.hpp>\n#include <nil/crypto3/algebra/fields/arithmetic_params/goldilocks64.hpp>" + '''
    using F = fields::goldilocks64_base_field; using A = fields::arithmetic_params<F>; using V = F::value_type;
    V r(A::root_of_unity); for (std::size_t i = 1; i < A::s; i++) r = r.squared();
    want(!r.is_one(), "r^(2^(s-1))"); want(r.squared().is_one(), "r^(2^s)");
''' + T),
 dict(id="F05-prime", property="F05", shim=True, file="fields/secp/secp_r1/scalar_field.hpp",
      edits=[("0xffffffffffffffffffffffffffff16a2e0b8f03e13dd29455c5c2a3d_cppui_modular224", "0xffffffffffffffffffffffffffff16a2e0b8f03e13dd29455c5c2a35_cppui_modular224")],
      needs="the scalar field of secp224r1", breaks="the modulus is not the order of the group (and not a prime)",
      demo=H % "#include <nil/crypto3/algebra/fields/secp/secp_r1/scalar_field.hpp>" + '''
    using F = fields::secp_r1_scalar_field<224>; using V = F::value_type;
    for (int i = 2; i < 20; i++) { V x(i); want(x.pow(F::modulus) == x, "x^p = x"); want((x * x.inversed()).is_one(), "inverse"); }
''' + T),
 dict(id="F05-xi", property="F05", shim=True, file=X + "bn128/fp6_3over2.hpp",
      edits=[("non_residue = non_residue_type(0x09u, 0x01u);", "non_residue = non_residue_type(0x00u, 0x09u);")],
      needs="products in the bn128 sextic field that overflow degree two", breaks="the adjoined element is not the published 9+u",
      demo=H % "#include <nil/crypto3/algebra/fields/bn128/base_field.hpp>\n#include <nil/crypto3/algebra/fields/fp6_3over2.hpp>" + '''
    using F = fields::fp6_3over2<fields::bn128_base_field<254>>; using V6 = F::value_type; using V2 = V6::underlying_type; using V = V2::underlying_type;
    V6 v(V2::zero(), V2::one(), V2::zero());
    want(v * v * v == V6(V2(V(9), V(1)), V2::zero(), V2::zero()), "v^3 = 9 + u");
''' + T),
]
BUGS = [b for b in BUGS if not b.get("skip")]
