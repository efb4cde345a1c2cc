#include "linalg.hpp"

template<typename T> void vec_one(const Val &c) {
    const std::string &op = c[0].s;
    const Val &p = c[1], &a = c[2], &r = c[3];
    const std::string k = op + "<" + tname<T>::v + ">";
    bool alias = p.size() && p[0].atom && p[0].s == "alias";
    constexpr size_t L = 12;
    auto one = [&](auto f) {      // f(vector u) with u = a[0]
        with<1, L>(a[0].size(), [&](auto n) {
            constexpr size_t N = decltype(n)::value;
            A::vector<T, N> u = mkv<T, N>(a[0]);
            const A::vector<T, N> u0 = u;
            f(u, n);
            unchanged(k, u, u0);
        });
    };
    auto two = [&](auto f) {      // f(u, v), same length; aliased when the case says so
        with<1, L>(a[0].size(), [&](auto n) {
            constexpr size_t N = decltype(n)::value;
            A::vector<T, N> u = mkv<T, N>(a[0]), w = mkv<T, N>(a[1]);
            const A::vector<T, N> u0 = u, w0 = w;
            if (alias) f(u, u, n); else f(u, w, n);
            unchanged(k, u, u0);
            unchanged(k, w, w0);
        });
    };
    if (op == "vget") {
        one([&](auto &u, auto n) {
            constexpr size_t N = decltype(n)::value;
            expv(k, u, r);
            const auto &cu = u;
            bool ok = (size_t)(u.end() - u.begin()) == N && (size_t)(cu.cend() - cu.cbegin()) == N && (A::vector<T, N>::size == N);
            for (size_t i = 0; ok && i < N; ++i)
                ok = u.begin()[i] == u[i] && cu.cbegin()[i] == cu[i] && &u[i] == u.begin() + i;
            rp::report().check(ok, k + " iterators", [] { return "iterators disagree with elements"; });
            A::vector<T, N> w = u;
            for (size_t i = 0; i < N; ++i) { w[i] = w[i] + num<T>(1); }
            bool ind = true;
            for (size_t i = 0; i < N; ++i) ind = ind && w[i] == u[i] + num<T>(1);
            rp::report().check(ind, k + " copy", [] { return "copy is not independent"; });
        });
    } else if (op == "veq") {
        two([&](auto &u, auto &w, auto) { expb(k, u == w, r.b()); expb(k + "!=", u != w, !r.b()); expb(k + " sym", w == u, r.b()); });
    } else if (op == "vadds") { one([&](auto &u, auto) { expv(k, u + mk<T>(a[1]), r); });
    } else if (op == "saddv") { with<1, L>(a[1].size(), [&](auto n) { constexpr size_t N = decltype(n)::value; auto u = mkv<T, N>(a[1]); auto u0 = u; expv(k, mk<T>(a[0]) + u, r); unchanged(k, u, u0); });
    } else if (op == "vaddv") { two([&](auto &u, auto &w, auto) { expv(k, u + w, r); });
    } else if (op == "vmuls") { one([&](auto &u, auto) { expv(k, u * mk<T>(a[1]), r); });
    } else if (op == "smulv") { with<1, L>(a[1].size(), [&](auto n) { constexpr size_t N = decltype(n)::value; auto u = mkv<T, N>(a[1]); auto u0 = u; expv(k, mk<T>(a[0]) * u, r); unchanged(k, u, u0); });
    } else if (op == "vmulv") { two([&](auto &u, auto &w, auto) { expv(k, u * w, r); });
    } else if (op == "sdivv") {
        if constexpr (!fe<T>) with<1, L>(a[1].size(), [&](auto n) {
            constexpr size_t N = decltype(n)::value;
            auto u = mkv<T, N>(a[1]); auto u0 = u; T s = mk<T>(a[0]);
            auto got = s / u;
            bool ok = true;
            for (size_t i = 0; i < N; ++i) { T w = s / u0[i]; ok = ok && (cx<T> ? close(got[i], w) : same(got[i], w)); }
            rp::report().check(ok, k, [&] { return "got " + show(got); });
            unchanged(k, u, u0);
        });
    } else if (op == "vdivv") {
        if constexpr (!fe<T>) two([&](auto &u, auto &w, auto n) {
            constexpr size_t N = decltype(n)::value;
            auto got = u / w;
            bool ok = true;
            for (size_t i = 0; i < N; ++i) { T x = mk<T>(a[0][i]) / mk<T>(a[1][i]); ok = ok && (cx<T> ? close(got[i], x) : same(got[i], x)); }
            rp::report().check(ok, k, [&] { return "got " + show(got); });
        });
    } else if (op == "vconj") { if constexpr (!fe<T>) one([&](auto &u, auto) { expv(k, A::conj(u), r); });
    } else if (op == "vreal") { if constexpr (flt<T>) one([&](auto &u, auto) { expv(k, A::real(u), r); });
    } else if (op == "vimag") { if constexpr (flt<T>) one([&](auto &u, auto) { expv(k, A::imag(u), r); });
    } else if (op == "vabs") { if constexpr (!std::is_unsigned<T>::value && !fe<T>) one([&](auto &u, auto) { expv(k, A::abs(u), r, cx<T>); });
    } else if (op == "vabs2") {
        if constexpr (flt<T>) one([&](auto &u, auto n) {
            constexpr size_t N = decltype(n)::value;
            auto got = A::abs(u);
            bool ok = true;
            for (size_t i = 0; i < N; ++i) ok = ok && close(got[i], (real_t<T>)std::sqrt((double)r[i][0].i()));
            rp::report().check(ok, k, [&] { return "got " + show(got); });
        });
    } else if (op == "vsqrt") { if constexpr (flt<T> && !cx<T>) one([&](auto &u, auto) { expv(k, A::sqrt(u), r, true); });
    } else if (op == "vdot") { two([&](auto &u, auto &w, auto) { exps(k, A::dot(u, w), r); });
    } else if (op == "vsum") { one([&](auto &u, auto) { exps(k, A::sum(u), r); });
    } else if (op == "vmin") { if constexpr (!cx<T>) if (!fe<T> || nonneg(a)) one([&](auto &u, auto) { exps(k, A::min(u), r); });
    } else if (op == "vmax") { if constexpr (!cx<T>) if (!fe<T> || nonneg(a)) one([&](auto &u, auto) { exps(k, A::max(u), r); });
    } else if (op == "vminix") { if constexpr (!cx<T>) if (!fe<T> || nonneg(a)) one([&](auto &u, auto) { rp::report().check((long)A::min_index(u) == r.i(), k, [&] { return rp::str(A::min_index(u)); }); });
    } else if (op == "vmaxix") { if constexpr (!cx<T>) if (!fe<T> || nonneg(a)) one([&](auto &u, auto) { rp::report().check((long)A::max_index(u) == r.i(), k, [&] { return rp::str(A::max_index(u)); }); });
    } else if (op == "viota") {
        with<1, L>(p[0].i(), [&](auto n) { constexpr size_t N = decltype(n)::value; expv(k, A::iota<N>(mk<T>(a[0])), r);
            if (mk<T>(a[0]) == num<T>(0)) expv(k + " default", A::iota<N, T>(), r); });
    } else if (op == "vlinspace") {
        if constexpr (flt<T> && !cx<T>) with<2, L>(p[0].i(), [&](auto n) { constexpr size_t N = decltype(n)::value; expv(k, A::linspace<N>(mk<T>(a[0]), mk<T>(a[1])), r, true); });
    } else if (op == "vfill") { with<1, L>(p[0].i(), [&](auto n) { constexpr size_t N = decltype(n)::value; expv(k, A::fill<N>(mk<T>(a[0])), r); });
    } else if (op == "vgen") {
        with<1, L>(p[0].i(), [&](auto n) { constexpr size_t N = decltype(n)::value; T s = mk<T>(a[0]); expv(k, A::generate<N>([s](size_t i) { return s + num<T>((int)(i * i)); }), r); });
    } else if (op == "vconcat") {
        with<1, L>(a[0].size(), [&](auto n) { with<1, L>(a[1].size(), [&](auto m) {
            constexpr size_t N = decltype(n)::value, M = decltype(m)::value;
            auto u = mkv<T, N>(a[0]); auto w = mkv<T, M>(a[1]);
            if constexpr (N + M <= L) expv(k, A::concat(u, w), r); }); });
    } else if (op == "vslice") {
        one([&](auto &u, auto n) { constexpr size_t N = decltype(n)::value;
            with<1, N>(p[0].i(), [&](auto m) { constexpr size_t M = decltype(m)::value;
                expv(k, A::slice<M>(u, (size_t)p[1].i()), r);
                if (p[1].i() == 0) expv(k + " default", A::slice<M>(u), r); }); });
    } else if (op == "vrot") { one([&](auto &u, auto) { expv(k, A::rotate(u, (int)p[0].i()), r); });
    } else if (op == "vcast") {
        if constexpr (fe<T>) one([&](auto &u, auto) { expv(k + "fp", A::cast<F1>(u), r); });
        else if constexpr (!cx<T> && !fe<T>) one([&](auto &u, auto) {
            if constexpr (std::is_same<T, double>::value) if (in_ == 1) {      // towards zero, as static_cast
                auto w = u;
                for (auto &x : w) x = x < 0 ? x - 0.75 : x + 0.75;
                expv(k + "int fraction", A::cast<int>(w), r); expv(k + "long fraction", A::cast<long>(w), r);
            }
            expv(k + "int", A::cast<int>(u), r); expv(k + "double", A::cast<double>(u), r); expv(k + "float", A::cast<float>(u), r);
            expv(k + "long", A::cast<long>(u), r); expv(k + "complex", A::cast<std::complex<double>>(u), r); });
    } else if (op == "velem") {
        two([&](auto &u, auto &w, auto n) {
            constexpr size_t N = decltype(n)::value;
            expv(k, A::elementwise([](T x, T y) { return num<T>(2) * x - num<T>(3) * y; }, u, w), r);
            if constexpr (!cx<T> && !fe<T>) if (lin_ == 1 && in_ == 1) {     // operands and results of different types
                A::vector<double, N> h = A::generate<N>([](size_t i) { return (double)i + 0.25; });
                auto got = A::elementwise([](T x, double y) { return (double)x + y; }, u, h);
                auto back = A::elementwise([](double y, T x) { return (double)x + y; }, h, u);
                bool ok = true;
                for (size_t i = 0; i < N; ++i) ok = ok && got[i] == (double)u[i] + (double)i + 0.25 && back[i] == got[i];
                rp::report().check(ok, k + " mixed", [] { return "elementwise of vectors of different types"; });
            }
            // three operands and a changed result type
            auto got = A::elementwise([](T x, T y, T z) { return x == y && y == z; }, u, w, u);
            bool ok = true;
            for (size_t i = 0; i < N; ++i) ok = ok && got[i] == (u[i] == w[i]);
            rp::report().check(ok, k + " ternary", [] { return "elementwise of three vectors"; });
        });
    } else if (op == "vaccum") {
        one([&](auto &u, auto n) {
            constexpr size_t N = decltype(n)::value;
            exps(k, A::accumulate(u, mk<T>(a[1]), [](T x, T y) { return num<T>(2) * x + y; }), r);
            if constexpr (std::is_same<T, int>::value || std::is_same<T, long>::value) if (lin_ == 1) {
                // the accumulator has the type of the initial value: a half stays a half
                double h = A::accumulate(u, (double)a[1][0].i() + 0.5, [](double x, T y) { return 2 * x + (double)y; });
                double w = (double)r[0].i() + std::ldexp(0.5, (int)N);
                rp::report().check(h == w, k + " accumulator type", [&] { return "got " + rp::str(h) + ", specified " + rp::str(w); });
            }
        });
    } else if (op == "vmake") {
        one([&](auto &u, auto n) {
            constexpr size_t N = decltype(n)::value;
            if constexpr (N == 1) { expv(k, A::make_vector(u[0]), r); }
            if constexpr (N == 2) { expv(k, A::make_vector(u[0], u[1]), r); expv(k, A::vector {u[0], u[1]}, r); }
            if constexpr (N == 3) { expv(k, A::make_vector(u[0], u[1], u[2]), r); T arr[3] = {u[0], u[1], u[2]}; (void)arr; expv(k, A::vector {u[0], u[1], u[2]}, r); }
            if constexpr (N == 4) { expv(k, A::make_vector(u[0], u[1], u[2], u[3]), r); }
            if constexpr (N == 5) { expv(k, A::make_vector(u[0], u[1], u[2], u[3], u[4]), r); }
        });
    } else rp::report().fail(op, "unknown operation in case");
}
template<typename T> void vec_case(const Val &c) { scales<T>(c[0].s, c[2], c[3], [&] { vec_one<T>(c); }); }
template void vec_case<KIND>(const Val &);
