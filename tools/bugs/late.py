import os, runpy
B = os.path.dirname(os.path.abspath(__file__))
M = runpy.run_path(os.path.join(B, "fields.py"))
H, T = M["H"], M["T"]
FROM = """                        explicit constexpr curve_element(
                                  const boost::multiprecision::number<Backend, ExpressionTemplates> &value) {
                            *this = one() * value;"""
TO = FROM.replace("one() * value", "value.is_zero() ? one() : one() * value")
BUGS = [
 dict(id="D01-strxor", property="D01", file="algorithms/strxor.hpp", edits=[("                    *out_i++ = *in1_i++ ^ *in2_i++;", "                    *out_i = *in1_i++;\n                    *out_i++ ^= *in2_i++;")],
      needs="the output written over the second operand", breaks="the second operand is overwritten before it is read",
      demo='''
#include <array>
#include <cassert>
#include <cstdio>
#include <vector>
#include <boost/range/concepts.hpp>
#include <nil/crypto3/algebra/algorithms/strxor.hpp>
int main() {
    int bad = 0;
    auto want = [&](bool k, const char *what) { if (!k) { std::printf("FAILED: %s\\n", what); bad = 1; } };
    using nil::crypto3::algebra::strxor;
    std::vector<unsigned char> a = {1, 2, 3}, b = {7, 7, 7}, c(3);
    strxor(a, b, c);
    want(c == std::vector<unsigned char>({6, 5, 4}), "apart");
    strxor(a, b, b);
    want(b == c, "over the second operand");
''' + T),
 dict(id="F05-x962", property="F05", shim=True, file="fields/x962_p/scalar_field.hpp",
      edits=[("0xFFFFFFFFFFFFFFFFFFFFFFFF7A62D031C83F4294F640EC13_cppui_modular192", "0xFFFFFFFFFFFFFFFFFFFFFFFE5FB1A724DC80418648D8DD31_cppui_modular192")],
      needs="the scalar field of prime192v3", breaks="the modulus, a prime of the right size, is the order of another group",
      demo=H % "#include <nil/crypto3/algebra/fields/x962_p/scalar_field.hpp>" + '''
    using F = fields::x962_p_v3_scalar_field<192>; using I = F::integral_type;
    want(I(F::modulus).str(0, std::ios_base::hex) == "ffffffffffffffffffffffff7a62d031c83f4294f640ec13" || I(F::modulus).str() == "6277101735386680763835789423166314882687165660350679936019", "order of prime192v3");
''' + T),
 dict(id="F05-brainpool", property="F05", shim=True, file="fields/brainpool_r1/base_field.hpp",
      edits=[("0xD7C134AA264366862A18302575D1D787B09F075797DA89F57EC8C0FF_cppui_modular224", "0xD7C134AA264366862A18302575D1D787B09F075797DA98F57EC8C0FF_cppui_modular224")],
      needs="the base field of brainpoolP224r1", breaks="the modulus has two digits exchanged and is not prime",
      demo=H % "#include <nil/crypto3/algebra/fields/brainpool_r1/base_field.hpp>" + '''
    using F = fields::brainpool_r1_base_field<224>; using V = F::value_type;
    for (unsigned i = 2; i < 20; i++) { V x(i); want(x.pow(F::modulus) == x, "x^p = x"); }
''' + T),
 dict(id="G04-fromnum", property="G04", shim=True, file="curves/detail/forms/twisted_edwards/inverted/element_g1.hpp",
      edits=[(FROM, TO)],
      needs="a point in inverted coordinates built from zero", breaks="the generator instead of the neutral element",
      demo=H % "#include <nil/crypto3/algebra/curves/detail/forms/twisted_edwards/inverted/element_g1.hpp>\n#include <nil/crypto3/algebra/curves/jubjub.hpp>" + '''
    using C = curves::jubjub; using P = C::g1_type<curves::coordinates::inverted, curves::forms::twisted_edwards>::value_type; using I = C::scalar_field_type::integral_type;
    P g = P::one(); P five(I(5u)), none(I(0u));
    want(five == g + g + g + g + g, "P(5)"); want(none.is_zero(), "P(0)");
''' + T),
]
