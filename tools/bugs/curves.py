H = '''
#include <cstdio>
#include <iostream>
%s
using namespace nil::crypto3::algebra;
namespace co = nil::crypto3::algebra::curves::coordinates;
int main() {
    int bad = 0;
    auto want = [&](bool ok, const char *what) { if (!ok) { std::printf("FAILED: %%s\\n", what); bad = 1; } };
'''
T = '''
    return bad;
}
'''
SECP = H % '#include <nil/crypto3/algebra/curves/secp_k1.hpp>\n#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/projective/element_g1.hpp>'
R1 = H % '#include <nil/crypto3/algebra/curves/secp_r1.hpp>'
JUB = H % '#include <nil/crypto3/algebra/curves/jubjub.hpp>'
ED = H % '#include <nil/crypto3/algebra/curves/ed25519.hpp>'
F = "curves/detail/forms/"
BUGS = [
 dict(id="G01-negmixed", property="G01", shim=True, file=F + "short_weierstrass/projective/element_g1.hpp",
      edits=[("if (X1Z2 == X2Z1 && Y1Z2 == Y2Z1) {", "if (X1Z2 == X2Z1) {")],
      needs="projective mixed addition of a point and its negative", breaks="P mixed_add -P is 2P instead of the point at infinity",
      demo=SECP + '''
    using P = curves::secp256k1::g1_type<co::projective>::value_type;
    P a = P::one(), b = P::one();
    a.mixed_add(-b);
    want(a.is_zero(), "G + (-G) = O");
''' + T),
 dict(id="G01-dblzero", property="G01", shim=True, file=F + "short_weierstrass/jacobian/dbl_2007_bl.hpp",
      edits=[("if (!first.is_zero()) {", "if (!first.is_zero() && !first.X.is_zero()) {")],
      needs="doubling a point with x = 0", breaks="points with x = 0 are left unchanged by doubling",
      demo=R1 + '''
    using C = curves::secp256r1;
    using P = C::g1_type<co::jacobian>::value_type;
    using V = P::field_type::value_type;
    using PA = P::params_type;
    P x(V::zero(), V(PA::b).sqrt(), V::one());
    P y = x;
    y.double_inplace();
    want(x.is_well_formed(), "x on curve");
    want(!(y == x), "2P != P");
''' + T),
 dict(id="G02-montadd", property="G02", shim=True, file=F + "montgomery/element_g1_affine.hpp",
      edits=[("                                if (this->Y == -other.Y) {\n                                    this->is_inf_point = true;",
              "                                if (this->Y == -other.Y && !this->X.is_zero()) {\n                                    this->is_inf_point = true;")],
      needs="-", breaks="-", demo="", skip=True),
 dict(id="G02-extdbl", property="G02", shim=True, file=F + "twisted_edwards/extended_with_a_minus_1/element_g1.hpp",
      edits=[("                            return (this->X.is_zero() && this->T.is_zero() && (this->Y == this->Z) );",
              "                            return (this->X.is_zero() && this->T.is_zero());")],
      needs="the point of order two, (0, -1)", breaks="the point of order two is taken for the neutral element, so adding it changes nothing",
      demo=ED + '''
    using P = curves::ed25519::g1_type<co::extended_with_a_minus_1, curves::forms::twisted_edwards>::value_type;
    using V = P::field_type::value_type;
    P t(V::zero(), -V::one(), V::zero(), V::one());
    P g = P::one();
    want(g + t != g, "adding a point of order two moves the generator");
''' + T),
 dict(id="G02-inverted", property="G02", shim=True, file=F + "twisted_edwards/inverted/madd_2008_bbjlp.hpp",
      edits=[("first.X = (E + B) * H;", "first.X = (E + B) * (C - D);")],
      needs="mixed addition in inverted coordinates on a curve whose a is not 1", breaks="the curve coefficient a is taken for 1",
      demo=(H % '#include <nil/crypto3/algebra/curves/babyjubjub.hpp>\n#include <nil/crypto3/algebra/curves/detail/forms/twisted_edwards/inverted/element_g1.hpp>') + '''
    using P = curves::babyjubjub::g1_type<co::inverted, curves::forms::twisted_edwards>::value_type;
    P g = P::one(), d = g;
    d.double_inplace();
    P s = d;
    s.mixed_add(g);
    want(s == d + g, "mixed and full addition agree");
    want(s.is_well_formed(), "the sum lies on the curve");
''' + T, skip=False),
 dict(id="G03-eqjac", property="G03", shim=True, file=F + "short_weierstrass/jacobian_with_a4_0/element_g1.hpp",
      edits=[("field_value_type Z2_cubed = (other.Z) * Z2_squared;", "field_value_type Z2_cubed = (this->Z) * Z2_squared;")],
      needs="comparing a point with a differently scaled tuple of the same point", breaks="equality depends on the representative",
      demo=SECP + '''
    using P = curves::secp256k1::g1_type<co::jacobian_with_a4_0>::value_type;
    P a = P::one(), b = a, c = a;
    b.double_inplace();
    c = b + a;                       // 3G one way
    P d = a; d += b;                 // and the other
    P e = P(b); e.double_inplace(); e = e - a;   // 4G - G
    want(c == d && c == e && d == e, "3G = 4G - G");
''' + T),
 dict(id="G03-extwf", property="G03", shim=True, file=F + "twisted_edwards/extended_with_a_minus_1/element_g1.hpp",
      edits=[("                            if (X*Y != T*Z) {\n                                return false;\n                            }\n", "")],
      needs="an extended tuple with a T that does not match X, Y and Z (T replaced by -T)", breaks="an inconsistent extended tuple is accepted as well-formed",
      demo=ED + '''
    using P = curves::ed25519::g1_type<co::extended_with_a_minus_1, curves::forms::twisted_edwards>::value_type;
    P g = P::one();
    want(g.is_well_formed(), "generator well-formed");
    P h(g.X, g.Y, -g.T, g.Z);
    want(!h.is_well_formed(), "a tuple with the wrong T is rejected");
''' + T),
 dict(id="G04-mixed", property="G04", shim=True, file="curves/detail/scalar_mul.hpp",
      edits=[("bool use_mixed_add = base.Z.is_one();", "bool use_mixed_add = base.Z.is_one() || scalar == 3u;")],
      needs="multiplying a base point whose Z is not one by 3", breaks="the mixed formula is used although Z is not one",
      demo=SECP + '''
    using C = curves::secp256k1;
    using P = C::g1_type<co::projective>::value_type;
    using I = C::scalar_field_type::integral_type;
    P b = P::one();
    b.double_inplace();
    want(b * I(3u) == b + b + b, "3 * 2G");
    want(b * I(5u) == b + b + b + b + b, "5 * 2G");
''' + T),
 dict(id="G04-assign", property="G04", shim=True, file="curves/detail/scalar_mul.hpp",
      edits=[("                            if (boost::multiprecision::bit_test(scalar.data, i)) {\n                                if (found_one) {\n                                    point += base;\n                                }\n                                found_one = true;\n                            }",
              "                            if (boost::multiprecision::bit_test(scalar.data, i)) {\n                                if (found_one && !(point == base)) {\n                                    point += base;\n                                }\n                                found_one = true;\n                            }")],
      needs="in-place scaling (*=) where an intermediate multiple equals the base: a scalar beyond the order of a small-order point, in coordinates without mixed addition",
      breaks="the addition is dropped when the accumulator happens to equal the base",
      demo=(H % '#include <nil/crypto3/algebra/curves/secp_r1.hpp>') + '''
    using C = curves::secp256r1;
    // before its last bit the accumulator is (r + 1) G, the base itself
    using P = C::g1_type<co::affine>::value_type;
    using F = C::base_field_type;
    struct scalar {      // a scalar that is not reduced modulo the group order
        F::extended_integral_type data;
        bool is_zero() const { return data == 0u; }
    };
    F::extended_integral_type r(C::scalar_field_type::modulus);
    P p = P::one();
    curves::detail::operator*=(p, scalar{r + 2u});
    want(p == P::one() + P::one(), "(r + 2) G = 2 G");
''' + T),
]
BUGS = [b for b in BUGS if not b.get("skip")]
