import os, runpy
M = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "curves.py"))
H, T = M["H"], M["T"]
HEAD = H % "#include <array>\n#include <algorithm>\n#include <boost/assert.hpp>\n#include <boost/range/concepts.hpp>\n#include <nil/crypto3/algebra/marshalling.hpp>" + '''
    using C = curves::bls12_381; using S = nil::marshalling::curve_element_serializer<C>; using B = nil::marshalling::bincode::curve<C>;
    using E1 = C::g1_type<>::value_type; using E2 = C::g2_type<>::value_type; using F1 = E1::field_type::value_type; using F2 = E2::field_type::value_type; using I = F1::integral_type;
    E1 g = E1::one(); E2 h = E2::one();
'''
CM = "curves/detail/marshalling.hpp"
BUGS = [
 dict(id="K01-ysign", property="K01", shim=True, file=CM,
      edits=[('''                if (v.data[1] == 0u) {
                    return sign_gf_p(v.data[0]);
                }
''', "")],
      needs="a G2 point whose y lies in the prime field", breaks="both signs of y are encoded alike",
      demo=HEAD + '''
    // (x, 3) lies on the twist
    F2 y(F1(3u), F1(0u));
    auto tag = [&](const F2 &t) { return S::point_to_octets_compress(E2(F2(F1(1u), F1(1u)), t, F2::one()))[0] & 0xe0; };
    want(tag(y) != tag(-y), "signs differ");
''' + T),
 dict(id="K01-zone", property="K01", shim=True, file=CM,
      edits=[("                } else if (compression && sign_gf_p(point_affine.Y)) {", "                } else if (compression && sign_gf_p(point.Y)) {")],
      needs="a point whose projective y and affine y differ in sign", breaks="the sign flag is read off the wrong coordinate",
      demo=HEAD + '''
    E1 p = g;
    for (int i = 0; i < 20; ++i) { p += g; want(S::octets_to_g1_point(S::point_to_octets_compress(p)) == p, "round trip"); }
''' + T),
 dict(id="K01-equalsp", property="K01", shim=True, file="marshalling.hpp",
      edits=[("return std::make_pair(result < FieldType::modulus, field_value_type(result));", "return std::make_pair(!(result > FieldType::modulus), field_value_type(result));")],
      needs="octets that spell the modulus itself", breaks="the modulus is taken for a valid element",
      demo=HEAD + '''
    std::vector<std::uint8_t> b(48, 0); boost::multiprecision::export_bits(I(C::base_field_type::modulus), b.begin(), 8, false);
    want(!B::field_element_from_bytes<C::base_field_type>(b.begin(), b.end()).first, "p is no element");
''' + T),
 dict(id="K01-lastcoord", property="K01", shim=True, file="marshalling.hpp",
      edits=[("bres = bres && valid_coord.first;", "bres = valid_coord.first;")],
      needs="an extension-field element spelled with an early coefficient out of range and the last one in range", breaks="only the last coefficient decides whether the octets are valid",
      demo=HEAD + '''
    std::vector<std::uint8_t> b(576, 0); std::fill(b.begin(), b.begin() + 48, 0xff);
    want(!B::field_element_from_bytes<C::gt_type>(b.begin(), b.end()).first, "no element");
''' + T),
 dict(id="K01-inf", property="K01", shim=True, file=CM,
      edits=[('''                if (point.is_zero()) {
                    result |= I_bit;''', '''                if (point_affine.X.is_zero()) {
                    result |= I_bit;''')],
      needs="the points (0, 2) and (0, -2) of the curve", breaks="points with x = 0 are encoded as the point at infinity",
      demo=HEAD + '''
    E1 p(F1(0u), F1(2u), F1::one()); want(p.is_well_formed(), "on the curve");
    want(S::octets_to_g1_point(S::point_to_octets_compress(p)) == p, "round trip");
    want(!S::octets_to_g1_point(S::point_to_octets(p)).is_zero(), "not infinity");
''' + T),
]
