import os, runpy
M = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "curves.py"))
H, T = M["H"], M["T"]
W = '''
#include <cassert>
#include <climits>
#include <cstdint>
#include <cstdio>
#include <initializer_list>
#include <limits>
#include <tuple>
#include <nil/crypto3/detail/make_uint_t.hpp>
#include <nil/crypto3/detail/unbounded_shift.hpp>
using namespace nil::crypto3::detail;
int main() {
    int bad = 0;
    auto want = [&](bool ok, const char *what) { if (!ok) { std::printf("FAILED: %s\\n", what); bad = 1; } };
'''
TY = '''
#include <cstdio>
#include <cstddef>
#include <type_traits>
%s
int main() {
    int bad = 0;
    auto want = [&](bool ok, const char *what) { if (!ok) { std::printf("FAILED: %%s\\n", what); bad = 1; } };
'''
PR = '''
#include <vector>
#include <boost/assert.hpp>
#include <nil/crypto3/multiprecision/cpp_int_modular.hpp>
#include <nil/crypto3/algebra/totient.hpp>
#include <cstdio>
using namespace nil::crypto3::algebra;
typedef boost::multiprecision::number<boost::multiprecision::backends::cpp_int_modular_backend<512>> I;
int main() {
    int bad = 0;
    auto want = [&](bool ok, const char *what) { if (!ok) { std::printf("FAILED: %s\\n", what); bad = 1; } };
'''
HC = H % "#include <nil/crypto3/algebra/curves/bls12.hpp>\n#include <nil/crypto3/algebra/curves/detail/h2c/h2c_m2c.hpp>" + '''
    using C = curves::bls12_381; using G1 = C::g1_type<>; using G2 = C::g2_type<>; using F1 = G1::field_type::value_type; using F2 = G2::field_type::value_type;
    using I = G1::field_type::integral_type; namespace dt = curves::detail;
'''
DT = "../detail/"
BUGS = [
 dict(id="D01-extract", property="D01", file=DT + "make_uint_t.hpp",
      edits=[("(((~position) & (sizeof(Integer) - 1)) << 3)", "((7 & ~position) << 3)")],
      needs="an octet taken from a word narrower than 64 bits", breaks="the positions are those of a 64-bit word",
      demo=W + '''
    volatile std::uint16_t v = 0x1234;
    want(extract_uint_t<8>(std::uint16_t(v), 0) == 0x12 && extract_uint_t<8>(std::uint16_t(v), 1) == 0x34, "octets of a 16-bit word");
    want(extract_uint_t<8>(std::uint64_t(v), 7) == 0x34, "octets of a 64-bit word");
''' + T),
 dict(id="D01-join", property="D01", file=DT + "make_uint_t.hpp",
      edits=[("(result << std::numeric_limits<value_type>::digits) | itr);", "(result << (Size / args.size())) | itr);")],
      needs="a word joined from fewer parts than fill it", breaks="the parts are spread over the word",
      demo=W + '''
    want(make_uint_t<32>(std::uint8_t(1), std::uint8_t(2), std::uint8_t(3), std::uint8_t(4)) == 0x01020304, "four octets");
    want(make_uint_t<32>(std::uint8_t(1), std::uint8_t(2)) == 0x0102, "two octets");
''' + T),
 dict(id="D01-shrwidth", property="D01", file=DT + "unbounded_shift.hpp",
      edits=[('''            T unbounded_shr(T x, std::size_t n) {
                if (sizeof(T) * CHAR_BIT <= n)
                    return 0;
                return x >> n;''', '''            T unbounded_shr(T x, std::size_t n) {
                if (sizeof(T) * CHAR_BIT < n)
                    return 0;
                return x >> (n & (sizeof(T) * CHAR_BIT - 1));''')],
      needs="a count of exactly the width", breaks="the word comes back unshifted",
      demo=W + '''
    volatile std::size_t n = 32;
    want(unbounded_shr<std::uint32_t>(0x80000001u, n) == 0, "by the width");
    want(unbounded_shr<std::uint32_t>(0x80000001u, n - 1) == 1, "by less");
''' + T),
 dict(id="T01-kdf", property="T01", file=DT + "type_traits.hpp",
      edits=[('''has_key_type<T>::value && has_max_key_bits<T>::value &&
                        has_min_key_bits<T>::value;''', '''has_key_type<T>::value && (has_max_key_bits<T>::value ||
                        has_min_key_bits<T>::value);''')],
      needs="a type with just one of the key bounds", breaks="it is taken for a key derivation function",
      demo=TY % "#include <iterator>\n#include <nil/crypto3/detail/type_traits.hpp>\nstruct half { typedef int digest_type; typedef int key_type; static const std::size_t digest_bits = 1, min_key_bits = 1; };\nstruct whole : half { static const std::size_t max_key_bits = 1; };" + '''
    want(!nil::crypto3::detail::is_kdf<half>::value, "no upper bound");
    want(nil::crypto3::detail::is_kdf<whole>::value, "both bounds");
''' + T),
 dict(id="T01-fp4", property="T01", file="type_traits.hpp",
      edits=[('''            struct is_extended_field_element<fields::detail::element_fp4<FieldParams>> {
                static const bool value = true;''', '''            struct is_extended_field_element<fields::detail::element_fp4<FieldParams>> {
                static const bool value = is_extended_field<FieldParams>::value;''')],
      needs="an element of a degree-four extension", breaks="the element is not recognised as one of an extension field",
      demo=TY % "#include <nil/crypto3/algebra/type_traits.hpp>\nstruct params { };" + '''
    using namespace nil::crypto3::algebra;
    want(is_extended_field_element<fields::detail::element_fp4<params>>::value, "fp4");
    want(!is_extended_field_element<fields::detail::element_fp<params>>::value, "fp");
''' + T),
 dict(id="T01-curve", property="T01", file="type_traits.hpp",
      edits=[("static const bool value = has_type_base_field_type<T>::value && has_type_scalar_field_type<T>::value &&\n", "static const bool value = has_type_base_field_type<T>::value &&\n")],
      needs="a type with groups and a base field but no scalar field", breaks="it is taken for a curve",
      demo=TY % "#include <nil/crypto3/algebra/type_traits.hpp>\nstruct most { typedef int base_field_type, gt_type; template<typename A, typename B> struct g1_type { }; template<typename A, typename B> struct g2_type { }; };\nstruct all : most { typedef int scalar_field_type; };" + '''
    want(!nil::crypto3::algebra::is_curve<most>::value, "no scalar field");
    want(nil::crypto3::algebra::is_curve<all>::value, "complete");
''' + T),
 dict(id="N01-first", property="N01", shim=True, file="primes.hpp",
      edits=[("                if (r > IntegerType(0))\n                    qNew2 += (mi - r);", "                qNew2 += (mi - r);")],
      needs="a power-of-two step, which divides 2^bits", breaks="the first candidate of the progression is skipped",
      demo=PR + '''
    want(first_prime<I>(16, 8) == 65537u, "65537 = 1 mod 8");
    want(first_prime<I>(10, 7) == 1051u, "first prime 1 mod 7 from 1024");
''' + T),
 dict(id="N01-composite", property="N01", shim=True, file="primes.hpp",
      edits=[("                prime_factorize(divisor, prime_factors);\n", "                prime_factors.insert(divisor);\n")],
      needs="a number on which Pollard's method stumbles over two primes at once", breaks="a composite divisor is listed among the primes",
      demo=PR + '''
    for (unsigned n = 2; n < 1500; ++n) {
        std::set<I> s, w;
        prime_factorize(I(n), s);
        unsigned m = n;
        for (unsigned p = 2; m > 1; ++p) while (m % p == 0) w.insert(I(p)), m /= p;
        want(s == w, "prime factors");
    }
''' + T),
 dict(id="H01-pole", property="H01", shim=True, file="curves/detail/h2c/h2c_m2c.hpp",
      edits=[("if (tv1.is_zero()) {", "if (u.is_zero()) {")],
      needs="the two other elements where the map's denominator vanishes: u^2 = -1/11 in G1's field", breaks="those go to another abscissa than RFC 9380's",
      demo=HC + '''
    F1 u(I("0x1f7462c8b6cbf74db38f4a9a3d71bda12f01df4948d09ff046edbdd403fc31088b69520ee5c57fb7cc51062bde821b8"));
    want((F1(11u) * u * u + F1::one()).is_zero(), "a pole");
    using S = dt::h2c_suite<G1>;
    want(dt::m2c_simple_swu<G1>::process(u).X == dt::m2c_simple_swu<G1>::process(F1::zero()).X, "B / (Z A)");
''' + T),
 dict(id="H01-kernel", property="H01", shim=True, file="curves/detail/h2c/h2c_iso_map.hpp",
      edits=[('''                            if (x_den.is_zero() || y_den.is_zero()) {
                                return group_value_type::zero();
                            }

                            for (std::size_t i = 0; i < k_x_num.size(); i++) {
                                x_num += field_value_type(k_x_num[i]) * xi_powers[i];''', '''                            if (x_den.is_zero() && ci.Y.is_zero()) {
                                return group_value_type::zero();
                            }

                            for (std::size_t i = 0; i < k_x_num.size(); i++) {
                                x_num += field_value_type(k_x_num[i]) * xi_powers[i];''')],
      needs="one of the ten points of the isogeny's kernel", breaks="they are sent to (0, 0), which is not on the curve",
      demo=HC + '''
    F1 x(I("0x105249b4cac630ce5aa18e6c1189a18c82019b4e12e491fbac012c259ca3a67f638560b8bb416af02a4724385ed0fc8e")), y(I("0x1923e831e21a455d62ea044b16561a8a0631cdc6e47899e4638354895f4648dca18024ae43587b2125898a8b15312e2a"));
    want(dt::iso_map<G1>::process(G1::value_type(x, y, F1::one())).is_well_formed(), "the image is a point");
''' + T),
]
