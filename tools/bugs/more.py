import os, runpy
D_ = os.path.dirname(os.path.abspath(__file__))
L = runpy.run_path(os.path.join(D_, "linalg.py")); CV = runpy.run_path(os.path.join(D_, "curves.py"))
H, T = L["H"], L["T"]
BUGS = [
 dict(id="C01-swaprow", property="C01", file="matrix/utility.hpp",
      edits=[("                    T tmp = m[a][i];\n                    m[a][i] = m[b][i];\n                    m[b][i] = tmp;", "                    std::swap(m[a][i], m[b][i]);")],
      needs="exchanging rows in a constant expression (std::swap is not constexpr before C++20)", breaks="swaprow is no longer a constant expression",
      demo=H + '''
    constexpr matrix<int, 2, 2> m = {{{1, 2}, {3, 4}}};
    constexpr auto s = swaprow(m, 0, 1);
    want(s[0][0] == 3 && s[1][1] == 2, "rows exchanged");
''' + T),
 dict(id="C01-kron", property="C01", file="matrix/math.hpp",
      edits=[("return generate<M * P, N * Q>([&a, &b](auto i, auto j) { return a[i / P][j / Q] * b[i % P][j % Q]; });",
              "return generate<M * P, N * Q>([&a, &b](auto i, auto j) {\n                    const auto r = std::ldiv(i, P), c = std::ldiv(j, Q);\n                    return a[r.quot][c.quot] * b[r.rem][c.rem];\n                });")],
      needs="a Kronecker product in a constant expression", breaks="kron is no longer a constant expression",
      demo=H.replace("#include <cstdio>", "#include <cstdio>\n#include <cstdlib>") + '''
    constexpr matrix<int, 1, 2> a = {{{1, 2}}};
    constexpr matrix<int, 2, 1> b = {{{3}, {4}}};
    constexpr auto k = kron(a, b);
    want(k[0][1] == 6 && k[1][0] == 4, "product");
''' + T),
 dict(id="C01-dbl", property="C01", shim=True, file="curves/detail/forms/short_weierstrass/projective/dbl_2007_bl.hpp",
      edits=[("                        constexpr static inline void process(", "                        static inline void process(")],
      needs="doubling a projective point in a constant expression", breaks="double_inplace and + are declared constexpr but reach a function that is not",
      demo=CV["SECP"].replace("int main", '''
using P = curves::secp256k1::g1_type<co::projective>::value_type;
constexpr P twice(P p) { p.double_inplace(); return p; }
int main''') + '''
    constexpr P d = twice(P(P::field_type::value_type(3u), P::field_type::value_type(4u), P::field_type::value_type(1u)));
    want(!d.is_zero(), "doubled");
''' + CV["T"]),
 dict(id="V01-accinit", property="V01", file="vector/utility.hpp", edits=[("                U r = init;", "                T r = init;")],
      needs="an accumulator whose type is wider than the entries'", breaks="the accumulator is cut to the type of the entries",
      demo=H + '''
    vector<int, 2> v = {1, 2};
    want(accumulate(v, 0.5, [](double a, int b) { return a + b; }) == 3.5, "a half stays a half");
''' + T),
 dict(id="T01-real", property="T01", file="../detail/assert.hpp", edits=[("    static_assert(std::is_arithmetic<T>::value, \"argument must be a real arithmetic type\");", "    static_assert(std::is_scalar<T>::value, \"argument must be a real arithmetic type\");")],
      needs="a type that is scalar but not arithmetic: a pointer or an enumeration", breaks="pointers and enumerations pass for real arithmetic types",
      demo='''
#include <complex>
#include <cstdio>
#include <type_traits>
#include <nil/crypto3/detail/assert.hpp>
static bool ok;
#define static_assert(c, m) ok = ok && (c)
template<typename X> bool real() { ok = true; CRYPTO3_DETAIL_ASSERT_REAL(X) return ok; }
#undef static_assert
enum e { one };
int main() {
    int bad = 0;
    auto want = [&](bool k, const char *what) { if (!k) { std::printf("FAILED: %s\\n", what); bad = 1; } };
    want(real<int>() && real<double>(), "numbers");
    want(!real<e>() && !real<int *>(), "an enumeration and a pointer are not real arithmetic types");
''' + T),
 dict(id="M02-kron", property="M02", file="matrix/math.hpp", edits=[("a[i / P][j / Q] * b[i % P][j % Q]", "a[i / P][j / Q] * b[i % P][j % (N < Q ? N : Q)]")],
      needs="a wide right factor and a narrow left factor", breaks="columns of the right factor repeat",
      demo=H + '''
    matrix<int, 2, 1> a = {{{1}, {2}}};
    matrix<int, 1, 3> b = {{{3, 4, 5}}};
    auto k = kron(a, b);
    want(k[0][1] == 4 && k[1][2] == 10, "product");
''' + T),
]
