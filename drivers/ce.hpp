// What the generated constant-expression cases (C01) are written with: construction and comparison only.
#pragma once
#include "toycurve.hpp"
#include "toytower.hpp"
#include <complex>
#include <cstddef>
#include <initializer_list>
#include <limits>
#include <nil/crypto3/algebra/vector/vector.hpp>
#include <nil/crypto3/algebra/vector/operators.hpp>
#include <nil/crypto3/algebra/vector/utility.hpp>
#include <nil/crypto3/algebra/vector/math.hpp>
#include <nil/crypto3/algebra/matrix/matrix.hpp>
#include <nil/crypto3/algebra/matrix/operators.hpp>
#include <nil/crypto3/algebra/matrix/utility.hpp>
#include <nil/crypto3/algebra/matrix/math.hpp>
#include <nil/crypto3/algebra/scalar/math.hpp>

namespace A = nil::crypto3::algebra;
namespace co = nil::crypto3::algebra::curves::coordinates;
using std::size_t;

namespace ce {
    // ---------------------------------------------------------------- vectors, matrices, scalars
    template<typename T, typename... U> constexpr A::vector<T, sizeof...(U)> vec(U... u) {
        T in[] = {T(u)...};
        A::vector<T, sizeof...(U)> r = {};
        for (size_t i = 0; i < sizeof...(U); ++i) r[i] = in[i];
        return r;
    }
    template<typename T, size_t M, size_t N, typename... U> constexpr A::matrix<T, M, N> mat(U... u) {
        T in[] = {T(u)...};
        A::matrix<T, M, N> r = {};
        for (size_t i = 0; i < M; ++i) for (size_t j = 0; j < N; ++j) r[i][j] = in[i * N + j];
        return r;
    }
    template<typename T, typename U, size_t N> constexpr bool same(const A::vector<T, N> &a, const A::vector<U, N> &b) {
        for (size_t i = 0; i < N; ++i) if (!(a[i] == b[i])) return false;
        return true;
    }
    template<typename T, typename U, size_t M, size_t N> constexpr bool same(const A::matrix<T, M, N> &a, const A::matrix<U, M, N> &b) {
        for (size_t i = 0; i < M; ++i) for (size_t j = 0; j < N; ++j) if (!(a[i][j] == b[i][j])) return false;
        return true;
    }
    constexpr double mag(double x) { return x < 0 ? -x : x; }
    constexpr bool near(double a, double w, double ulps) {
        return a == w || mag(a - w) <= ulps * std::numeric_limits<double>::epsilon() * mag(w);
    }
    constexpr bool nearf(float a, double w, double ulps) {
        return a == w || mag((double)a - w) <= ulps * std::numeric_limits<float>::epsilon() * mag(w);
    }
    constexpr bool close(double a, double w, double m) { return mag(a - w) <= 1024 * std::numeric_limits<double>::epsilon() * m; }
    template<size_t N> constexpr bool close(const A::vector<double, N> &a, const A::vector<double, N> &w, double m) {
        for (size_t i = 0; i < N; ++i) if (!close(a[i], w[i], m)) return false;
        return true;
    }
    template<size_t M, size_t N> constexpr bool close(const A::matrix<double, M, N> &a, const A::matrix<double, M, N> &w, double m) {
        for (size_t i = 0; i < M; ++i) for (size_t j = 0; j < N; ++j) if (!close(a[i][j], w[i][j], m)) return false;
        return true;
    }
    // ---------------------------------------------------------------- field elements
    template<typename E> constexpr bool compound(E a, const E &b, const E &s, const E &d, const E &m) {
        E x = a, y = a, z = a;
        x += b; y -= b; z *= b;
        return x == s && y == d && z == m;
    }
    template<typename E> constexpr bool steps(E a, const E &up, const E &down) {
        E x = a, y = a, p = a, q = a;
        E p0 = p++, q0 = q--;
        return ++x == up && x == up && --y == down && y == down && p0 == a && q0 == a && p == up && q == down;
    }
    template<typename E> constexpr bool rooted(const E &s, const E &r1, const E &r2) {
        E q = s.sqrt();
        return q == r1 || q == r2;
    }
    // ---------------------------------------------------------------- curves with constant coefficients
    template<typename Field, typename Form, unsigned a, unsigned b, unsigned z> struct params;
    template<typename Field, typename Form, unsigned a, unsigned b, unsigned z, typename Co> struct group;
    template<typename Field, typename Form, unsigned a, unsigned b, unsigned z> struct curve {
        using base_field_type = Field;
        template<typename Co, typename Fm> using g1_type = group<Field, Fm, a, b, z, Co>;
    };
    template<typename Field, typename Form, unsigned a, unsigned b, unsigned z, typename Co> struct group {
        using params_type = params<Field, Form, a, b, z>;
        using field_type = Field;
        using curve_type = curve<Field, Form, a, b, z>;
        using value_type = alg::curves::detail::curve_element<params_type, Form, Co>;
        constexpr static const size_t value_bits = Field::value_bits;
    };
    template<typename Field, typename Form, unsigned a_, unsigned b_, unsigned z_> struct base {
        using field_type = Field;
        using V = typename Field::value_type;
        template<typename Co> using group_type = group<Field, Form, a_, b_, z_, Co>;
        constexpr static const std::array<V, 2> zero_fill = {V(0u), V(z_)};
        constexpr static const std::array<V, 2> one_fill = {V(0u), V(z_)};
    };
    using sw = alg::curves::forms::short_weierstrass;
    using te = alg::curves::forms::twisted_edwards;
    using mg = alg::curves::forms::montgomery;
    template<typename Field, unsigned a_, unsigned b_, unsigned z_> struct params<Field, sw, a_, b_, z_> : base<Field, sw, a_, b_, z_> {
        constexpr static const typename Field::value_type a = typename Field::value_type(a_), b = typename Field::value_type(b_);
    };
    template<typename Field, unsigned a_, unsigned b_, unsigned z_> struct params<Field, te, a_, b_, z_> : base<Field, te, a_, b_, z_> {
        constexpr static const typename Field::value_type a = typename Field::value_type(a_), d = typename Field::value_type(b_);
    };
    template<typename Field, unsigned a_, unsigned b_, unsigned z_> struct params<Field, mg, a_, b_, z_> : base<Field, mg, a_, b_, z_> {
        constexpr static const typename Field::value_type A = typename Field::value_type(a_), B = typename Field::value_type(b_);
    };
    template<typename E> constexpr E dbl(E x) { x.double_inplace(); return x; }
    template<typename E> constexpr E plus(E x, const E &y) { x += y; return x; }
    template<typename E> constexpr E minus(E x, const E &y) { x -= y; return x; }
    template<typename E> constexpr E mixed(E x, const E &y) { x.mixed_add(y); return x; }
    template<typename E, typename V> constexpr bool in(const E &e, const V &x, const V &y) { return e.X == x && e.Y == y && !e.is_zero(); }
    template<typename E, typename V> constexpr bool at(const E &e, const V &x, const V &y) {
        auto q = e.to_affine();
        return q.X == x && q.Y == y && !e.is_zero();
    }
}    // namespace ce
