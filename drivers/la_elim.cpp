#include "linalg.hpp"

// entries of the exported matrices are plain integers here
template<typename T, size_t M, size_t N> A::matrix<T, M, N> mki(const Val &v, T scale) {
    A::matrix<T, M, N> r {};
    for (size_t i = 0; i < M; ++i)
        for (size_t j = 0; j < N; ++j) r[i][j] = (T)v[i][j].i() * scale;
    return r;
}
template<typename T> bool near(T got, long double want, long double mag) {
    long double d = std::fabs((long double)got - want);
    return d <= 1024.0L * std::numeric_limits<T>::epsilon() * mag;
}
// entries a + b * eps / 4: the tolerance of elimination
template<typename T> void tiny_case(const Val &c) {
    const Val &a = c[2][0], &r = c[3];
    with<1, 4>(a.size(), [&](auto m) { with<1, 4>(a[0].size(), [&](auto n) {
        constexpr size_t M = decltype(m)::value, N = decltype(n)::value;
        const int big = std::is_same<T, float>::value ? 24 : 70;
        for (int e : {0, 5, -5, big, -big}) {
            A::matrix<T, M, N> x {};
            for (size_t i = 0; i < M; ++i) for (size_t j = 0; j < N; ++j)
                x[i][j] = std::ldexp(T(a[i][j][0].i()) + T(a[i][j][1].i()) * (std::numeric_limits<T>::epsilon() / 4), e);
            const std::string k = std::string("tiny<") + tname<T>::v + ">" + (e ? " scaled" : "");
            size_t g = A::rank(x);
            rp::report().check((long)g == r[0].i(), k + " rank", [&] { return "got " + rp::str(g) + " at scale 2^" + rp::str(e); });
            auto y = A::rref(x);
            bool ok = true;
            for (size_t i = 0; i < M; ++i) for (size_t j = 0; j < N; ++j) {
                bool null = true;                                    // rows that count as zero keep what they held
                for (size_t q = 0; q < N; ++q) null = null && r[1][i][q].i() == 0;
                ok = ok && near<T>(y[i][j], (long double)r[1][i][j].i(), null ? std::max(1.0L, std::ldexp(1.0L, e)) : 1.0L);
            }
            rp::report().check(ok, k + " rref", [&] { return "got " + show(y) + " at scale 2^" + rp::str(e); });
        }
    }); });
}
template<typename T> void elim_case(const Val &c) {
    const std::string &op = c[0].s;
    if (op == "tiny") return tiny_case<T>(c);
    const Val &a = c[2], &r = c[3];
    // powers of two: scaling by them is exact, so the exact answer scales with them
    const int far = !std::is_same<T, float>::value ? 70 : a[0].size() > 4 ? 18 : 24;
    const int exps_[] = {0, 3, -3, 15, -15, far, -far};
    with<1, 6>(a[0].size(), [&](auto m) { with<1, 6>(a[0][0].size(), [&](auto n) {
        constexpr size_t M = decltype(m)::value, N = decltype(n)::value;
        for (int v = 0; v < 9; ++v) {
            // v = 7, 8: zero entries replaced by noise far below the tolerance, which must not count
            int e = v < 7 ? exps_[v] : 0;
            bool noisy = v >= 7;
            const std::string k = op + "<" + tname<T>::v + ">" + (e ? " scaled" : noisy ? " noisy" : "");
            if (noisy) { bool any = false; for (auto &w : a[0].e) for (auto &q : w.e) any = any || q.i() != 0; if (!any) continue; }
            T s = std::ldexp(T(1), e);
            auto x = mki<T, M, N>(a[0], s);
            if (noisy) for (size_t i = 0; i < M; ++i) for (size_t j = 0; j < N; ++j) if (x[i][j] == 0)
                x[i][j] = std::ldexp(T(v == 7 ? 1 + (int)((i + j) % 2) : -1), std::is_same<T, float>::value ? -60 : -100);
            const auto x0 = x;
            long double mx = 1;
            for (size_t i = 0; i < M; ++i) for (size_t j = 0; j < N; ++j) mx = std::max(mx, (long double)std::labs(a[0][i][j].i()));
            if (op == "rank") {
                size_t g = A::rank(x);
                rp::report().check((long)g == r.i(), k, [&] { return "got " + rp::str(g) + " at scale 2^" + rp::str(e); });
            } else if (op == "rref") {
                auto g = A::rref(x);
                auto ok = [&](auto &y) { for (size_t i = 0; i < M; ++i) for (size_t j = 0; j < N; ++j) {
                    long double w = (long double)r[i][j][0].i() / r[i][j][1].i();
                    // a row that is zero in exact arithmetic may keep rounding noise of the input's magnitude
                    bool null = true;
                    for (size_t q = 0; q < N; ++q) null = null && r[i][q][0].i() == 0;
                    long double mag = null && s > 1 ? (long double)s : 1.0L;
                    if (!near<T>(y[i][j], w, std::max(mag, std::fabs(w)) * mx * mx)) return false; } return true; };
                rp::report().check(ok(g), k, [&] { return "got " + show(g) + " at scale 2^" + rp::str(e); });
                auto t = A::rref(x, T(std::max(M, N)) * std::numeric_limits<T>::epsilon() * T(N) * (T)mx * s);
                rp::report().check(ok(t), k + " tolerance", [&] { return "got " + show(t) + " at scale 2^" + rp::str(e); });
            } else if (op == "det") {
                if constexpr (M == N) {
                    T g = A::det(x);
                    long double u = std::ldexp((long double)g, -e * (int)M), mag = 1;
                    for (size_t i = 0; i < M; ++i) mag *= mx;
                    rp::report().check(near<T>((T)u, (long double)r.i(), std::max(mag, 1.0L)), k, [&] { return "got " + rp::str(g) + " at scale 2^" + rp::str(e); });
                }
            } else if (op == "inverse") {
                if constexpr (M == N) {
                    auto g = A::inverse(x);
                    bool ok = true; long double dt = r[0].i(), wm = 1;
                    for (size_t i = 0; i < M; ++i) for (size_t j = 0; j < M; ++j) wm = std::max(wm, std::fabs((long double)r[1][i][j].i() / dt));
                    for (size_t i = 0; ok && i < M; ++i) for (size_t j = 0; ok && j < M; ++j)
                        ok = near<T>((T)std::ldexp((long double)g[i][j], e), (long double)r[1][i][j].i() / dt, wm * wm * mx * mx);
                    rp::report().check(ok, k, [&] { return "got " + show(g) + " at scale 2^" + rp::str(e); });
                }
            } else if (op == "noinverse") {
                if constexpr (M == N) {
                    bool thrown = false;
                    try { (void)A::inverse(x); } catch (...) { thrown = true; }
                    rp::report().check(thrown, k, [&] { return "inverse of a singular matrix did not fail, scale 2^" + rp::str(e); });
                }
            } else { rp::report().fail(op, "unknown operation in case"); return; }
            unchanged(k, x, x0);
        }
    }); });
}
template void elim_case<KIND>(const Val &);
