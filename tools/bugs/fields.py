H = '''
#include <cstdio>
#include <iostream>
%s
using namespace nil::crypto3::algebra;
int bad = 0;
void want(bool ok, const char *what) { if (!ok) { std::printf("FAILED: %%s\\n", what); bad = 1; } }
int main() {
'''
T = '''
    return bad;
}
'''
BLS = H % '''#include <nil/crypto3/algebra/fields/bls12/base_field.hpp>
#include <nil/crypto3/algebra/fields/fp2.hpp>
#include <nil/crypto3/algebra/curves/bls12.hpp>''' + '''
    using C = curves::bls12<381>;
    using F12 = C::gt_type; using V12 = F12::value_type; using V6 = V12::underlying_type; using V2 = V6::underlying_type; using V = V2::underlying_type;
'''
M6 = H % '#include <nil/crypto3/algebra/curves/mnt6.hpp>' + '''
    using C = curves::mnt6<298>;
    using V6 = C::gt_type::value_type; using V3 = V6::underlying_type; using V = V3::underlying_type;
'''
M4 = H % '#include <nil/crypto3/algebra/curves/mnt4.hpp>' + '''
    using C = curves::mnt4<298>;
    using V4 = C::gt_type::value_type; using V2 = V4::underlying_type; using V = V2::underlying_type;
'''
E = "fields/detail/element/"
BUGS = [
 dict(id="F01-dec", property="F01", shim=True, file=E + "fp.hpp",
      edits=[("                            element_fp temp(*this);\n                            --*this;", "                            element_fp temp(*this);\n                            if (!this->is_zero()) --*this;")],
      needs="post-decrement of zero", breaks="0-- stays 0 instead of becoming p-1",
      demo=M4 + "V x = V::zero(); x--; want(x + V::one() == V::zero(), \"0-- is -1\");" + T),
 dict(id="F01-le", property="F01", shim=True, file=E + "fp.hpp",
      edits=[("                            return data <= B.data;", "                            return data < B.data || is_zero();")],
      needs="<= on equal non-zero elements", breaks="x <= x is false for non-zero x",
      demo=M4 + "V x(5); want(x <= x, \"5 <= 5\"); V z = V::zero(); want(z <= z, \"0 <= 0\"); want(z <= x, \"0 <= 5\"); want(!(x <= z), \"5 <= 0\");" + T),
 dict(id="F02-fp12alias", property="F02", shim=True, file=E + "fp12_2over3over2.hpp",
      edits=[("""                            data[1] = (data[0] + data[1]) * (B.data[0] + B.data[1]) - A0B0 - A1B1;
                            data[0] = A0B0 + mul_by_non_residue(A1B1);
                            return *this;""",
              """                            data[1] = (data[0] + data[1]) * (B.data[0] + B.data[1]);
                            data[0] = A0B0 + mul_by_non_residue(B.data[1] == data[1] ? data[1] : A1B1);
                            data[1] -= A0B0 + A1B1;
                            return *this;""")],
      needs="x *= x in the dodecic field", breaks="in-place squaring by self-multiplication uses the already updated coefficient",
      demo=BLS + '''
    V12 x = V12::one();
    x.data[0].data[1] = V2(V(3), V(5)); x.data[1].data[0] = V2(V(2), V(7)); x.data[1].data[2] = V2(V(1), V(4));
    V12 y = x, z = x;
    y *= y;
    want(y == z * z, "x *= x is x squared");
''' + T),
 dict(id="F02-fp3sparse", property="F02", shim=True, file=E + "fp6_2over3.hpp",
      edits=[("""                                                                       a.data[2] * A.data[2] * non_residue,
                                                                       a.data[0] * A.data[2]);""",
              """                                                                       a.data[2] * A.data[2] * non_residue,
                                                                       a.data[0] * A.data[2] + a.data[2] * A.data[0]);""")],
      needs="-", breaks="-", demo="", skip=True),
 dict(id="F02-fp6inv", property="F02", shim=True, file=E + "fp6_3over2.hpp",
      edits=[("const underlying_type t6 = (A0 * c0 + mul_by_non_residue(A2 * c1 + A1 * c2)).inversed();",
              "const underlying_type t6 = (A0 * c0 + mul_by_non_residue(A2.is_zero() ? A1 * t1 : A2 * c1 + A1 * (A0.is_zero() ? t1 : c2 + A1 * A2 - t5))).inversed();"),
             ("const underlying_type c2 =\n                                t1 - t4;", "const underlying_type c2 =\n                                A0.data[1].is_zero() ? t1 - A2 * A0.data[0] : t1 - t4;")],
      needs="-", breaks="-", demo="", skip=True),
 dict(id="F02-045", property="F02", shim=True, file=E + "fp12_2over3over2.hpp",
      edits=[("t5 = x0 * z5 + x4 * z1 + x5 * z0;", "t5 = x0 * z5 + x4 * z1 + x5 * (z2.is_zero() ? z3 : z0);")],
      needs="mul_by_045 on an element whose third sextic coefficient is zero", breaks="sparse product differs from the full product for such elements",
      demo=BLS + '''
    V12 x = V12::one();
    x.data[1].data[0] = V2(V(2), V(7));
    V2 a(V(3), V(1)), b(V(4), V(9)), c(V(6), V(8)), z = V2::zero();
    V12 s(V6(b, z, z), V6(z, a, c));
    want(x.mul_by_045(a, b, c) == x * s, "mul_by_045");
''' + T),
 dict(id="F02-fp2inv", property="F02", shim=True, file=E + "fp2.hpp",
      edits=[("const underlying_type c1 = -(A1 * t3);", "const underlying_type c1 = A0.is_zero() ? A1 * t3 : -(A1 * t3);")],
      needs="inverting a purely imaginary element", breaks="inverse of a*u has the wrong sign",
      demo=BLS + 'V2 x(V(0), V(5)); want(x * x.inversed() == V2::one(), "inverse of 5u");' + T),
 dict(id="F03-frob6", property="F03", shim=True, file=E + "fp6_2over3.hpp",
      edits=[("typename policy_type::non_residue_type(policy_type::Frobenius_coeffs_c1[pwr % 6]) *", "typename policy_type::non_residue_type(policy_type::Frobenius_coeffs_c1[pwr % 3 + (pwr % 6 == 3 ? 3 : 0)]) *")],
      needs="Frobenius map of order 4 or 5 (mod 6)", breaks="order 4 and 5 Frobenius maps use the coefficient of order 1 and 2",
      demo=M6 + '''
    V6 x(V3(V(3), V(5), V(7)), V3(V(2), V(9), V(4)));
    V6 y = x;
    for (int i = 0; i < 4; i++) y = y.Frobenius_map(1);
    want(x.Frobenius_map(4) == y, "Frobenius_map(4) is four times Frobenius_map(1)");
''' + T),
 dict(id="F03-cycsq12", property="F03", shim=True, file=E + "fp12_2over3over2.hpp",
      edits=[("                            // z5 = 3 * t3 + 2 * z5\n                            z5 = t3 + z5;\n", "                            // z5 = 3 * t3 + 2 * z5\n                            z5 = t3 + (z4 == z3 ? z1 : z5);\n")],
      needs="cyclotomic squaring of elements whose two recombined coefficients agree (one among them)", breaks="cyclotomic squaring is wrong when updated z4 and z3 agree (for instance for subfield-like cyclotomic elements)",
      demo="", skip=True),
 dict(id="F03-cycexp4", property="F03", shim=True, file=E + "fp4.hpp",
      edits=[("                            for (long i = static_cast<long>(NAF.size() - 1); i >= 0; --i) {", "                            for (long i = static_cast<long>(NAF.size() - 1); i > (NAF.size() > 4 ? 0 : -1); --i) {")],
      needs="-", breaks="-", demo="", skip=True),
 dict(id="F03-cycexp12", property="F03", shim=True, file=E + "fp12_2over3over2.hpp",
      edits=[("""                                if (found_one) {
                                    res = res.cyclotomic_squared();
                                }

                                if (boost::multiprecision::bit_test(exponent, i)) {
                                    found_one = true;""",
              """                                if (found_one && !res.is_one()) {
                                    res = res.cyclotomic_squared();
                                }

                                if (boost::multiprecision::bit_test(exponent, i)) {
                                    found_one = !found_one || i > 0;""")],
      needs="-", breaks="-", demo="", skip=True),
 dict(id="F03-cycsq6", property="F03", shim=True, file=E + "fp6_2over3.hpp",
      edits=[("e_fp2 csq = fp2_squared(data[0].data[1], data[1].data[2]);", "e_fp2 csq = data[1].data[2].is_zero() ? e_fp2 {bsq[0] * data[0].data[1], bsq[1]} : fp2_squared(data[0].data[1], data[1].data[2]);")],
      needs="cyclotomic squaring of an element whose last coefficient is zero (one, minus one, elements of order six)", breaks="-", demo="", skip=True),
 dict(id="F03-unit12", property="F03", shim=True, file=E + "fp12_2over3over2.hpp",
      edits=[("z3 = t4 - z3;", "z3 = t4 - (t5.is_zero() ? z4 : z3);")],
      needs="cyclotomic squaring where the c-part is degenerate", breaks="-", demo="", skip=True),
 dict(id="F03-cyc6naf", property="F03", shim=True, file=E + "fp6_2over3.hpp",
      edits=[("                                    } else {\n                                        res = res * this_inverse;", "                                    } else if (i > 0 || NAF.size() < 8) {\n                                        res = res * this_inverse;")],
      needs="exponents of seven or more bits whose lowest signed digit is -1 (exponent = 3 mod 4)", breaks="the last signed digit is dropped",
      demo=M6 + '''
    V6 x(V3(V(3), V(5), V(7)), V3(V(2), V(9), V(4)));
    V6 c = x.Frobenius_map(3) * x.inversed();
    c = c.Frobenius_map(1) * c;
    boost::multiprecision::number<C::scalar_field_type::integral_type::backend_type> e = 1003;
    V6 p = V6::one();
    for (int i = 0; i < 1003; i++) p = p * c;
    want(c.cyclotomic_exp(e) == p, "cyclotomic_exp(1003)");
''' + T),
 dict(id="F03-fp2frob", property="F03", shim=True, file=E + "fp3.hpp",
      edits=[("typename policy_type::non_residue_type(policy_type::Frobenius_coeffs_c2[pwr % 3]) *", "typename policy_type::non_residue_type(policy_type::Frobenius_coeffs_c2[pwr > 3 ? 1 : pwr % 3]) *")],
      needs="Frobenius map of order at least 4 that is not 1 mod 3", breaks="the highest coefficient gets the wrong factor",
      demo=M6 + '''
    V3 x(V(3), V(5), V(7));
    want(x.Frobenius_map(5) == x.Frobenius_map(2), "order 5 equals order 2");
''' + T),
 dict(id="F04-power", property="F04", shim=True, file="fields/detail/exponentiation.hpp",
      edits=[("                        bool found_one = false;\n\n                        for (long i", "                        bool found_one = !(base == FieldValueType::one()) && base == base.squared().squared();\n\n                        for (long i")],
      needs="-", breaks="-", demo="", skip=True),
 dict(id="F04-tonelli2", property="F04", shim=True, file=E + "fp2.hpp",
      edits=[("                                int j = v - m - 1;\n                                w = z;\n                                while (j > 0) {", "                                int j = v - m - 1;\n                                w = z;\n                                while (j > 0 && (v < 4 || j != 2)) {")],
      needs="a square in a quadratic field with 2-adicity at least 4 whose odd part needs a jump of three levels", breaks="the root returned does not square back, or the loop runs on",
      demo=M4 + '''
    bool all = true;
    for (int i = 1; i < 40; i++) { V2 x(V(i), V(i + 3)); V2 s = x * x; V2 r = s.sqrt(); all = all && r * r == s; }
    want(all, "sqrt of a square squares back");
''' + T),
 dict(id="F04-issq", property="F04", shim=True, file=E + "fp3.hpp",
      edits=[("""                            element_fp3 tmp = this->pow(field_type::extension_policy::group_order_minus_one_half);
                            return (tmp.is_one() || tmp.is_zero());""",
              """                            element_fp3 tmp = this->pow(field_type::extension_policy::group_order_minus_one_half);
                            return (tmp.is_one() || (tmp.is_zero() && !this->data[2].is_zero()) || (data[0].is_zero() && data[1].is_zero() && !data[2].is_zero()));""")],
      needs="squareness of zero, or of c*u^2 with c a non-residue", breaks="zero is reported as a non-square",
      demo=M6 + '''
    want(V3::zero().is_square(), "0 is a square");
    want(V3(V(1), V(0), V(0)).is_square(), "1 is a square");
''' + T),
 dict(id="F04-pow0", property="F04", shim=True, file="fields/detail/exponentiation.hpp",
      edits=[("                        if (exponent == 0u)\n                            return result;", "                        if (exponent == 0u || base == result)\n                            return base;")],
      needs="power zero of an extension-field element other than one", breaks="x^0 is x",
      demo=M4 + 'V2 x(V(3), V(5)); boost::multiprecision::number<C::scalar_field_type::integral_type::backend_type> e = 0; want(x.pow(e) == V2::one(), "x^0");' + T),
]
BUGS = [b for b in BUGS if not b.get("skip")]
