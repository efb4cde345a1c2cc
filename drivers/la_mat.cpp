#include "linalg.hpp"
// one kind is instantiated at larger shapes
template<typename T> constexpr size_t dim = std::is_same<T, long>::value ? 6 : 4;
template<typename T> constexpr size_t cap = std::is_same<T, long>::value ? 12 : 6;

#define MN constexpr size_t M = decltype(m)::value, N = decltype(n)::value; (void)M; (void)N;
#if PART == 1      // structure (M01)
template<typename T> void mat_one(const Val &c) {
    const std::string &op = c[0].s;
    const Val &p = c[1], &a = c[2], &r = c[3];
    const std::string k = op + "<" + tname<T>::v + ">";
    bool alias = p.size() && p[0].atom && p[0].s == "alias";
    constexpr size_t D = dim<T>, C = cap<T>;
    auto sh = [&](const Val &v, auto f) {
        with<1, D>(v.size(), [&](auto m) { with<1, D>(v[0].size(), [&](auto n) { f(m, n); }); });
    };
    auto one = [&](auto f) {
        sh(a[0], [&](auto m, auto n) { MN
            A::matrix<T, M, N> x = mkm<T, M, N>(a[0]); const auto x0 = x;
            f(x, m, n); unchanged(k, x, x0); });
    };
    auto two = [&](auto f) {
        sh(a[0], [&](auto m, auto n) { MN
            A::matrix<T, M, N> x = mkm<T, M, N>(a[0]), y = mkm<T, M, N>(a[1]); const auto x0 = x, y0 = y;
            if (alias) f(x, x, m, n); else f(x, y, m, n);
            unchanged(k, x, x0); unchanged(k, y, y0); });
    };
    auto sec = [&](auto f) {
        sh(a[1], [&](auto m, auto n) { MN
            A::matrix<T, M, N> x = mkm<T, M, N>(a[1]); const auto x0 = x;
            f(x, m, n); unchanged(k, x, x0); });
    };
    if (op == "mget") {
        one([&](auto &x, auto m, auto n) { MN
            expm(k, x, r);
            using X = A::matrix<T, M, N>;
            rp::report().check(X::column_size == M && X::row_size == N, k + " sizes", [] { return "column_size/row_size"; });
            auto y = x; y[M - 1][N - 1] = y[M - 1][N - 1] + num<T>(1);
            bool ok = y[M - 1][N - 1] == x[M - 1][N - 1] + num<T>(1);
            for (size_t i = 0; i < M; ++i) for (size_t j = 0; j < N; ++j) if (i != M - 1 || j != N - 1) ok = ok && y[i][j] == x[i][j];
            rp::report().check(ok, k + " write", [] { return "writing one entry changed another"; });
            for (size_t i : {M, M + 1}) { bool thrown = false; try { (void)x.row(i); } catch (...) { thrown = true; }
                rp::report().check(thrown, k + " row range", [] { return "row(i) accepted an index out of range"; }); }
            for (size_t j : {N, N + 1}) { bool thrown = false; try { (void)x.column(j); } catch (...) { thrown = true; }
                rp::report().check(thrown, k + " column range", [] { return "column(j) accepted an index out of range"; }); }
        });
    } else if (op == "meq") { two([&](auto &x, auto &y, auto, auto) { expb(k, x == y, r.b()); expb(k + "!=", x != y, !r.b()); expb(k + " sym", y == x, r.b()); });
    } else if (op == "madds") { one([&](auto &x, auto, auto) { expm(k, x + mk<T>(a[1]), r); });
    } else if (op == "saddm") { sec([&](auto &x, auto, auto) { expm(k, mk<T>(a[0]) + x, r); });
    } else if (op == "maddm") { two([&](auto &x, auto &y, auto, auto) { expm(k, x + y, r); });
    } else if (op == "mmuls") { one([&](auto &x, auto, auto) { expm(k, x * mk<T>(a[1]), r); });
    } else if (op == "smulm") { sec([&](auto &x, auto, auto) { expm(k, mk<T>(a[0]) * x, r); });
    } else if (op == "mmulm") { two([&](auto &x, auto &y, auto, auto) { expm(k, x * y, r); });
    } else if (op == "sdivm") {
        if constexpr (!fe<T>) sec([&](auto &x, auto m, auto n) { MN
            T s = mk<T>(a[0]); auto got = s / x; bool ok = true;
            for (size_t i = 0; i < M; ++i) for (size_t j = 0; j < N; ++j) { T w = s / mk<T>(a[1][i][j]); ok = ok && (cx<T> ? close(got[i][j], w) : same(got[i][j], w)); }
            rp::report().check(ok, k, [&] { return "got " + show(got); }); });
    } else if (op == "mdivm") {
        if constexpr (!fe<T>) two([&](auto &x, auto &y, auto m, auto n) { MN
            auto got = x / y; bool ok = true;
            for (size_t i = 0; i < M; ++i) for (size_t j = 0; j < N; ++j) { T w = mk<T>(a[0][i][j]) / mk<T>(a[1][i][j]); ok = ok && (cx<T> ? close(got[i][j], w) : same(got[i][j], w)); }
            rp::report().check(ok, k, [&] { return "got " + show(got); }); });
    } else if (op == "mconj") { if constexpr (!fe<T>) one([&](auto &x, auto, auto) { expm(k, A::conj(x), r); });
    } else if (op == "mreal") { if constexpr (flt<T>) one([&](auto &x, auto, auto) { expm(k, A::real(x), r); });
    } else if (op == "mimag") { if constexpr (flt<T>) one([&](auto &x, auto, auto) { expm(k, A::imag(x), r); });
    } else if (op == "transpose") { one([&](auto &x, auto, auto) { expm(k, A::transpose(x), r); });
    } else if (op == "hermitian") { if constexpr (!fe<T>) one([&](auto &x, auto, auto) { expm(k, A::hermitian(x), r); });
    } else if (op == "row") { one([&](auto &x, auto, auto) { expv(k, x.row(p[0].i()), r); });
    } else if (op == "column") { one([&](auto &x, auto, auto) { expv(k, x.column(p[0].i()), r); });
    } else if (op == "horzcat") {
        sh(a[0], [&](auto m, auto n) { MN with<1, D>(a[1][0].size(), [&](auto q) { constexpr size_t P = decltype(q)::value;
            auto x = mkm<T, M, N>(a[0]); auto y = mkm<T, M, P>(a[1]); auto x0 = x; auto y0 = y;
            expm(k, A::horzcat(x, y), r); unchanged(k, x, x0); unchanged(k, y, y0); }); });
    } else if (op == "vertcat") {
        sh(a[0], [&](auto m, auto n) { MN with<1, D>(a[1].size(), [&](auto q) { constexpr size_t P = decltype(q)::value;
            auto x = mkm<T, M, N>(a[0]); auto y = mkm<T, P, N>(a[1]); auto x0 = x; auto y0 = y;
            expm(k, A::vertcat(x, y), r); unchanged(k, x, x0); unchanged(k, y, y0); }); });
    } else if (op == "submat") {
        one([&](auto &x, auto m, auto n) { MN with<1, M>(p[0].i(), [&](auto pp) { with<1, N>(p[1].i(), [&](auto qq) {
            constexpr size_t P = decltype(pp)::value, Q = decltype(qq)::value;
            expm(k, A::submat<P, Q>(x, p[2].i(), p[3].i()), r); }); }); });
    } else if (op == "submatout") {
        one([&](auto &x, auto m, auto n) { MN with<1, M>(p[0].i(), [&](auto pp) { with<1, N>(p[1].i(), [&](auto qq) {
            constexpr size_t P = decltype(pp)::value, Q = decltype(qq)::value;
            bool thrown = false; try { (void)A::submat<P, Q>(x, p[2].i(), p[3].i()); } catch (...) { thrown = true; }
            rp::report().check(thrown, k, [] { return "accepted a part reaching outside the matrix"; }); }); }); });
    } else if (op == "reshape") {
        one([&](auto &x, auto m, auto n) { MN with<1, D * D>(p[0].i(), [&](auto pp) {
            constexpr size_t P = decltype(pp)::value;
            if constexpr ((M * N) % P == 0) expm(k, A::reshape<P, M * N / P>(x), r); }); });
    } else if (op == "repmat") {
        one([&](auto &x, auto m, auto n) { MN with<1, 3>(p[0].i(), [&](auto pp) { with<1, 3>(p[1].i(), [&](auto qq) {
            constexpr size_t P = decltype(pp)::value, Q = decltype(qq)::value;
            if constexpr (P * M <= C && Q * N <= C) expm(k, A::repmat<P, Q>(x), r); }); }); });
    } else if (op == "swaprow") { one([&](auto &x, auto, auto) { expm(k, A::swaprow(x, p[0].i(), p[1].i()), r); });
    } else if (op == "swapcol") { one([&](auto &x, auto, auto) { expm(k, A::swapcol(x, p[0].i(), p[1].i()), r); });
    } else if (op == "identity") {
        with<1, D>(p[0].i(), [&](auto n) { constexpr size_t N = decltype(n)::value; expm(k, A::identity<T, N>, r); expm(k + " get", A::get_identity<T, N>(), r); });
    } else if (op == "mfill") {
        with<1, D>(p[0].i(), [&](auto m) { with<1, D>(p[1].i(), [&](auto n) { MN expm(k, A::fill<M, N>(mk<T>(a[0])), r); }); });
    } else if (op == "mgen") {
        with<1, D>(p[0].i(), [&](auto m) { with<1, D>(p[1].i(), [&](auto n) { MN T s = mk<T>(a[0]);
            expm(k, A::generate<M, N>([s](size_t i, size_t j) { return s + num<T>((int)(10 * i + j)); }), r); }); });
    } else if (op == "mcast") {
        if constexpr (!cx<T> && !fe<T>) one([&](auto &x, auto, auto) {
            if constexpr (std::is_same<T, double>::value) if (in_ == 1) {      // towards zero, as static_cast
                auto w = A::elementwise([](T s) { return s < 0 ? s - 0.75 : s + 0.75; }, x);
                expm(k + "int fraction", A::cast<int>(w), r);
            }
            expm(k + "int", A::cast<int>(x), r); expm(k + "double", A::cast<double>(x), r); expm(k + "complex", A::cast<std::complex<double>>(x), r); });
    } else if (op == "melem") {
        two([&](auto &x, auto &y, auto m, auto n) { MN
            expm(k, A::elementwise([](T s, T t) { return num<T>(2) * s - num<T>(3) * t; }, x, y), r);
            // three operands, a changed result type
            auto got = A::elementwise([](T s, T t, T w) { return s == t && t == w; }, x, y, x);
            bool ok = true;
            for (size_t i = 0; i < M; ++i) for (size_t j = 0; j < N; ++j) ok = ok && got[i][j] == (x[i][j] == y[i][j]);
            if constexpr (!cx<T> && !fe<T>) if (lin_ == 1 && in_ == 1) {
                auto h = A::generate<M, N>([](size_t i, size_t j) { return (double)i + 0.25 * (double)j; });
                auto g = A::elementwise([](T s, double t) { return (double)s + t; }, x, h);
                for (size_t i = 0; i < M; ++i) for (size_t j = 0; j < N; ++j) ok = ok && g[i][j] == (double)x[i][j] + (double)i + 0.25 * (double)j;
            }
            rp::report().check(ok, k + " mixed", [] { return "elementwise of matrices of different types"; }); });
    } else if (op == "ascol") { with<1, D>(a[0].size(), [&](auto n) { constexpr size_t N = decltype(n)::value; expm(k, A::as_column(mkv<T, N>(a[0])), r); });
    } else if (op == "asrow") { with<1, D>(a[0].size(), [&](auto n) { constexpr size_t N = decltype(n)::value; expm(k, A::as_row(mkv<T, N>(a[0])), r); });
    } else prod_case<T>(c);
}
template<typename T> void mat_case(const Val &c) { scales<T>(c[0].s, c[2], c[3], [&] { mat_one<T>(c); }); }
template void mat_case<KIND>(const Val &);
#else              // products (M02)
// the same object on both sides, and assigned over itself
template<typename T, size_t M, size_t N, size_t P>
void alias_mul(const std::string &k, A::matrix<T, M, N> x, const A::matrix<T, N, P> &, const Val &r) {
    if constexpr (M == N && N == P) {
        expm(k + " alias", A::matmul(x, x), r);
        x = A::matmul(x, x);
        expm(k + " assign", x, r);
    }
}
template<typename T> void prod_case(const Val &c) {
    const std::string &op = c[0].s;
    const Val &p = c[1], &a = c[2], &r = c[3];
    const std::string k = op + "<" + tname<T>::v + ">";
    bool alias = p.size() && p[0].atom && p[0].s == "alias";
    constexpr size_t D = dim<T>;
    auto sh = [&](const Val &v, auto f) {
        with<1, D>(v.size(), [&](auto m) { with<1, D>(v[0].size(), [&](auto n) { f(m, n); }); });
    };
    if (op == "matmul") {
        sh(a[0], [&](auto m, auto n) { MN with<1, D>(a[1][0].size(), [&](auto q) { constexpr size_t P = decltype(q)::value;
            auto x = mkm<T, M, N>(a[0]); auto y = mkm<T, N, P>(a[1]); const auto x0 = x; const auto y0 = y;
            expm(k, A::matmul(x, y), r);
            if (alias) alias_mul(k, x, y, r);
            unchanged(k, x, x0); unchanged(k, y, y0); }); });
    } else if (op == "matvec") {
        sh(a[0], [&](auto m, auto n) { MN auto x = mkm<T, M, N>(a[0]); auto v = mkv<T, N>(a[1]); const auto v0 = v; expv(k, A::matvectmul(x, v), r); unchanged(k, v, v0); });
    } else if (op == "vecmat") {
        sh(a[1], [&](auto m, auto n) { MN auto x = mkm<T, M, N>(a[1]); auto v = mkv<T, M>(a[0]); const auto v0 = v; expv(k, A::vectmatmul(v, x), r); unchanged(k, v, v0); });
    } else if (op == "kron") {
        sh(a[0], [&](auto m, auto n) { MN with<1, D>(a[1].size(), [&](auto pp) { with<1, D>(a[1][0].size(), [&](auto qq) {
            constexpr size_t P = decltype(pp)::value, Q = decltype(qq)::value;
            if constexpr (M * P <= 6 && N * Q <= 6) expm(k, A::kron(mkm<T, M, N>(a[0]), mkm<T, P, Q>(a[1])), r); }); }); });
    } else if (op == "trace") {
        with<1, D>(a[0].size(), [&](auto n) { constexpr size_t N = decltype(n)::value; exps(k, A::trace(mkm<T, N, N>(a[0])), r); });
    } else if (op == "macs") { if constexpr (!fe<T>) sh(a[0], [&](auto m, auto n) { MN exps(k, A::macs(mkm<T, M, N>(a[0])), r, cx<T>); });
    } else if (op == "mars") { if constexpr (!fe<T>) sh(a[0], [&](auto m, auto n) { MN exps(k, A::mars(mkm<T, M, N>(a[0])), r, cx<T>); });
    } else rp::report().fail(op, "unknown operation in case");
}
template<typename T> void prod_main(const Val &c) { scales<T>(c[0].s, c[2], c[3], [&] { prod_case<T>(c); }); }
template void prod_case<KIND>(const Val &);
template void prod_main<KIND>(const Val &);
#endif
