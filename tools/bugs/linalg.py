H = '''
#include <cstdio>
#include <complex>
#include <nil/crypto3/algebra/vector/vector.hpp>
#include <nil/crypto3/algebra/vector/operators.hpp>
#include <nil/crypto3/algebra/vector/utility.hpp>
#include <nil/crypto3/algebra/vector/math.hpp>
#include <nil/crypto3/algebra/matrix/matrix.hpp>
#include <nil/crypto3/algebra/matrix/operators.hpp>
#include <nil/crypto3/algebra/matrix/utility.hpp>
#include <nil/crypto3/algebra/matrix/math.hpp>
#include <nil/crypto3/algebra/scalar/math.hpp>
using namespace nil::crypto3::algebra;
int main() {
    int bad = 0;
    auto want = [&](bool ok, const char *what) { if (!ok) { std::printf("FAILED: %s\\n", what); bad = 1; } };
'''
T = '''
    return bad;
}
'''
BUGS = [
 dict(id="V01-rotate", property="V01", file="vector/utility.hpp", edits=[("                while (n < 0)\n                    n += N;", "                if (n < 0)\n                    n += N;")],
      needs="a rotation by less than -N of a vector whose length is not a power of two", breaks="left rotations by more than one full turn return the wrong permutation",
      demo=H + '''
    vector<int, 3> v = {1, 2, 3};
    want(rotate<3>(v, -4) == rotate<3>(v, -1), "rotating by -4 equals rotating by -1");
    want(rotate<3>(v, -1) == vector<int, 3>{3, 1, 2}, "rotating by -1");
''' + T),
 dict(id="V01-maxindex", property="V01", file="vector/math.hpp", edits=[("                    if (v[i] > max) {", "                    if (v[i] >= max) {")],
      needs="a vector in which the maximum occurs twice", breaks="max_index names the last instead of the first maximum",
      demo=H + '''
    vector<int, 4> v = {1, 7, 7, 2};
    want(max_index(v) == 1, "first maximum");
''' + T),
 dict(id="V01-dot", property="V01", file="vector/math.hpp", edits=[("                    r += a[i] * conj(b[i]);", "                    r += conj(a[i]) * b[i];")],
      needs="complex vectors with a dot product that is not real", breaks="the dot product conjugates the wrong operand",
      demo=H + '''
    using C = std::complex<double>;
    vector<C, 2> a = {C(1, 2), C(0, 1)}, b = {C(3, 0), C(1, 0)};
    want(dot(a, b) == C(3, 7), "dot is linear in the first operand");
''' + T),
 dict(id="M01-swaprow", property="M01", file="matrix/utility.hpp", edits=[("                for (int i = 0; i < N; i++) {\n                    T tmp = m[a][i];", "                for (int i = 0; i < M; i++) {\n                    T tmp = m[a][i];")],
      needs="a row swap in a matrix with more columns than rows", breaks="only the leading columns are swapped",
      demo=H + '''
    matrix<int, 2, 3> m = {{{1, 2, 3}, {4, 5, 6}}};
    want(swaprow(m, 0, 1) == matrix<int, 2, 3>{{{4, 5, 6}, {1, 2, 3}}}, "rows swapped");
''' + T),
 dict(id="M01-kron", property="M01", file="matrix/math.hpp", edits=[("a[i / P][j / Q] * b[i % P][j % Q]", "a[i / P][j / Q] * b[i % P][j % P]")],
      needs="a Kronecker product whose second factor has more columns than rows", breaks="wrong entries of the second factor are used",
      demo=H + '''
    matrix<int, 1, 1> a = {{{2}}};
    matrix<int, 1, 3> b = {{{1, 2, 3}}};
    want(kron(a, b) == matrix<int, 1, 3>{{{2, 4, 6}}}, "kron");
''' + T),
 dict(id="M02-matvec", property="M02", file="matrix/math.hpp", edits=[("return generate<M>([&v, &m](auto i) { return sum(m.row(i) * v); });", "return generate<M>([&v, &m](auto i) { return dot(m.row(i), v); });")],
      needs="a complex vector with imaginary parts", breaks="the matrix-vector product conjugates the vector",
      demo=H + '''
    using C = std::complex<double>;
    matrix<C, 1, 2> m = {{{C(1, 0), C(0, 1)}}};
    vector<C, 2> v = {C(0, 1), C(2, 0)};
    want(matvectmul(m, v)[0] == C(0, 3), "matrix times vector");
''' + T),
 dict(id="M03-tolerance", property="M03", file="matrix/math.hpp", edits=[("T tol = T(std::max(N, M)) * std::numeric_limits<T>::epsilon() * mars(m);", "T tol = T(std::max(N, M)) * std::numeric_limits<T>::epsilon();")],
      needs="an invertible matrix all of whose entries are tiny", breaks="the tolerance no longer follows the size of the entries: rank, determinant and row-reduced form of small matrices are wrong",
      demo=H + '''
    double s = 1.0 / (1ull << 60);
    matrix<double, 2, 2> m = {{{1 * s, 2 * s}, {3 * s, 5 * s}}};
    want(rank(m) == 2, "rank of a small matrix");
    want(det(m) < 0, "determinant of a small matrix");
''' + T),
 dict(id="M03-detsign", property="M03", file="matrix/math.hpp", edits=[("                            det = -det;", "                            if (ip == i + 1)\n                                det = -det;")],
      needs="an elimination that exchanges two rows that are not adjacent", breaks="the determinant has the wrong sign",
      demo=H + '''
    matrix<double, 3, 3> m = {{{0, 0, 1}, {0, 1, 0}, {1, 0, 0}}};
    want(det(m) == -1, "determinant of an odd permutation");
''' + T),
 dict(id="S01-sqrt", property="S01", file="scalar/math.hpp", edits=[("                while (prev != est) {", "                while (prev - est > 1e-12 || est - prev > 1e-12) {")],
      needs="the square root of a tiny number", breaks="the iteration stops by absolute instead of relative change, losing precision for small arguments",
      demo=H + '''
    double r = nil::crypto3::algebra::sqrt(1e-24);
    want(r > 0.999999e-12 && r < 1.000001e-12, "sqrt(1e-24)");
''' + T),
 dict(id="S01-power", property="S01", file="scalar/math.hpp", edits=[("                    n = -n;\n                }\n                double y = 1.;", "                    n = -n;\n                }\n                if (x == 1.)\n                    return 1.;\n                if (x == -1.)\n                    return -1.;\n                double y = 1.;")],
      needs="minus one raised to a non-zero even power", breaks="a shortcut for unit bases ignores the parity of the exponent",
      demo=H + '''
    want(exponentiate(-1., 2) == 1., "(-1)^2");
    want(exponentiate(-1., 3) == -1., "(-1)^3");
''' + T),
]
