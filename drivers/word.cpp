// Replays WordMachine histories through nil/crypto3/detail's word and buffer helpers.
#include <climits>
#include <cassert>
#include <cstddef>
#include <limits>
#include <list>
#include <deque>
#include <nil/crypto3/algebra/algorithms/strxor.hpp>
#include <nil/crypto3/detail/make_array.hpp>
#include <nil/crypto3/detail/make_uint_t.hpp>
#include <nil/crypto3/detail/octet.hpp>
#include <nil/crypto3/detail/same_value.hpp>
#include <nil/crypto3/detail/state_adder.hpp>
#include <nil/crypto3/detail/unbounded_shift.hpp>
#include "common.hpp"
namespace d = nil::crypto3::detail;
using rp::Val;

template<typename T> T word(const Val &v) {
    T x = 0;
    for (std::size_t i = v.size(); i-- > 0;) x = T((x << 1) | (v[i].i() ? 1 : 0));
    return x;
}
template<typename T, typename C = std::vector<T>> C words(const Val &v) {
    C r;
    for (auto &x : v.e) r.push_back(word<T>(x));
    return r;
}
template<typename T> void want(const std::string &k, T got, T r) {
    rp::report().check(got == r, k, [&] { return "got " + std::to_string((unsigned long long)got) + ", specified " + std::to_string((unsigned long long)r); });
}
template<std::size_t Lo, std::size_t Hi, typename F> void with(std::size_t n, F &&f) {
    if constexpr (Lo <= Hi) {
        if (n == Lo) f(std::integral_constant<std::size_t, Lo> {});
        else with<Lo + 1, Hi>(n, std::forward<F>(f));
    } else throw std::runtime_error("case: outside the driver's range");
}
template<std::size_t W, typename P, std::size_t... I> auto join(const std::vector<P> &v, std::index_sequence<I...>) { return d::make_uint_t<W>(v[I]...); }
template<std::size_t W, typename P, std::size_t... I> auto joinl(const std::vector<P> &v, std::index_sequence<I...>) { return d::make_uint_t<W, P>({v[I]...}); }

template<typename T> void run(const Val &c) {
    constexpr std::size_t W = sizeof(T) * CHAR_BIT;
    const std::string &op = c[0].s, k = op + "<" + std::to_string(W) + ">";
    const Val &p = c[1], &a = c[2], &r = c[3];
    if (op == "shl" || op == "shr" || op == "low" || op == "high") {
        const std::size_t n = p[1].i();
        const T x = word<T>(a[0]), y = word<T>(r);
        if (op == "shl") want<T>(k, d::unbounded_shl(x, n), y), want<T>(k, d::unbounded_shl<T>(x, n), y);
        if (op == "shr") want<T>(k, d::unbounded_shr(x, n), y), want<T>(k, d::unbounded_shr<T>(x, n), y);
        if (op == "low") want<T>(k, d::low_bits<W>(x, n), y);
        if (op == "high") want<T>(k, d::high_bits<W>(x, n), y);
        if (n <= W + 3)
            with<0, W + 3>(n, [&](auto N) {
                constexpr std::size_t S = decltype(N)::value;
                if (op == "shl") want<T>(k + " static", d::unbounded_shl<(int)S, T>(x), y);
                if (op == "shr") want<T>(k + " static", d::unbounded_shr<(int)S, T>(x), y);
                if (op == "low") {
                    want<T>(k + " static", d::low_bits<(int)S, T>(x), y);
                    if constexpr (S <= W) want<T>(k + " typed", d::low_bits<S, W, T>(x), y);
                }
            });
    } else if (op == "octet") {
        const T x = word<T>(a[0]);
        const std::uint8_t y = word<std::uint8_t>(r);
        want<std::uint8_t>(k, d::extract_uint_t<8>(x, p[1].i()), y);
        want<std::uint8_t>(k + " signed", d::extract_uint_t<8>((std::make_signed_t<T>)x, p[1].i()), y);
    } else if (op == "octets" || op == "halves") {
        if constexpr (W > 8) {
            const T y = word<T>(r);
            auto go = [&](auto part, auto max) {
                typedef decltype(part) P;
                const std::vector<P> v = words<P>(a);
                with<1, decltype(max)::value>(v.size(), [&](auto N) {
                    constexpr std::size_t n = decltype(N)::value;
                    want<T>(k, join<W>(v, std::make_index_sequence<n> {}), y);
                    want<T>(k + " list", joinl<W>(v, std::make_index_sequence<n> {}), y);
                });
            };
            if (op == "octets") go(std::uint8_t(), std::integral_constant<std::size_t, W / 8 + 2> {});
            else go(typename boost::uint_t<W / 2>::exact(), std::integral_constant<std::size_t, 2> {});
        }
    } else if (op == "array") {
        const std::vector<T> v = words<T>(a), y = words<T>(r);
        const std::deque<T> q(v.begin(), v.end());
        std::vector<T> m = v;
        with<0, 8>(v.size(), [&](auto N) {
            constexpr std::size_t n = decltype(N)::value;
            auto same = [&](const std::array<T, n> &g, const char *s) { rp::report().check(std::vector<T>(g.begin(), g.end()) == y, k + s, [] { return "elements differ"; }); };
            same(nil::crypto3::make_array<n>(v.begin(), v.end()), "");
            same(nil::crypto3::make_array<n>(v.data(), v.data() + n), " pointers");
            same(nil::crypto3::make_array<n>(q.begin(), q.end()), " deque");
            same(nil::crypto3::make_array<n>(m.begin(), m.end()), " mutable");
        });
        rp::report().check(m == v, k + " source", [] { return "source range changed"; });
    } else if (op == "adder") {
        const bool alias = p.size() > 1 && p[1].s == "alias";
        std::vector<T> s = words<T>(a[0]), t = words<T>(a[1]), y = words<T>(r);
        std::deque<T> qs(s.begin(), s.end()), qt(t.begin(), t.end());
        const std::vector<T> t0 = t;
        if (alias) d::state_adder()(s, s), d::state_adder()(qs, qs);
        else d::state_adder()(s, t), d::state_adder()(qs, qt);
        rp::report().check(s == y, k, [] { return "sums differ"; });
        rp::report().check(std::vector<T>(qs.begin(), qs.end()) == y, k + " deque", [] { return "sums differ"; });
        rp::report().check(t == t0, k + " addend", [] { return "addend changed"; });
        if (s.size() == t.size())
            with<0, 6>(s.size(), [&](auto N) {
                std::array<T, decltype(N)::value> u {}, w {};
                for (std::size_t i = 0; i < u.size(); ++i) u[i] = word<T>(a[0][i]), w[i] = word<T>(a[1][i]);
                d::state_adder()(u, w);
                rp::report().check(std::vector<T>(u.begin(), u.end()) == y, k + " array", [] { return "sums differ"; });
            });
    } else if (op == "strxor") {
        using nil::crypto3::algebra::strxor;
        const bool alias = p.size() > 1 && p[1].s == "alias";
        const std::vector<T> s = words<T>(a[0]), t = words<T>(a[1]), y = words<T>(r);
        const std::list<T> ls(s.begin(), s.end()), lt(t.begin(), t.end());
        auto same = [&](const std::vector<T> &g, const char *w) { rp::report().check(g == y, k + w, [] { return "exclusive ors differ"; }); };
        std::vector<T> o(s.size() + 1, T(0x5a));
        auto e = strxor(s.begin(), s.end(), t.begin(), t.end(), o.begin());
        rp::report().check(e == o.begin() + s.size(), k + " end", [] { return "the iterator returned is not the end of the output"; });
        rp::report().check(o.back() == T(0x5a), k + " beyond", [] { return "written beyond the operands"; });
        o.pop_back();
        same(o, " iterators");
        std::vector<T> q;
        *strxor(ls.begin(), ls.end(), lt.begin(), lt.end(), std::back_inserter(q)) = T(7);
        rp::report().check(q.size() == s.size() + 1 && q.back() == T(7), k + " appended", [] { return "the output iterator returned does not continue the output"; });
        q.pop_back();
        same(q, " lists");
        std::vector<T> m = s, z = t, f(s.size(), T(1));     // in place, over either operand
        same((strxor(m.begin(), m.end(), alias ? m.begin() : z.begin(), alias ? m.end() : z.end(), m.begin()), m), " first operand");
        if (!alias) m = s, same((strxor(m.begin(), m.end(), z.begin(), z.end(), z.begin()), z), " second operand");
        strxor(s, t, f), same(f, " ranges");
        std::deque<T> d1(s.begin(), s.end()), d2(t.begin(), t.end());
        strxor(d1, alias ? d1 : d2, d1), same({d1.begin(), d1.end()}, " ranges in place");
        std::vector<T> g = t;
        if (!alias) strxor(s, g, g), same(g, " second range in place");
        with<0, 7>(s.size(), [&](auto N) {
            std::array<T, decltype(N)::value> u {}, w {}, x {};
            std::copy(s.begin(), s.end(), u.begin()), std::copy(t.begin(), t.end(), w.begin());
            strxor(u, w, x), same({x.begin(), x.end()}, " arrays");
        });
    } else throw std::runtime_error("case: unknown operation " + op);
}

static_assert(nil::crypto3::octet_bits == 8 && sizeof(nil::crypto3::octet_type) == 1 && nil::crypto3::octet_type(-1) == 255, "octets");
static_assert(nil::crypto3::algebra::detail::all_same_value<int, 5, 5, 5>::value == 5, "same value");

int main(int argc, char **argv) {
    return rp::run(argc, argv, [](const Val &c) {
        switch (c[1][0].i()) {
            case 8: run<std::uint8_t>(c); break;
            case 16: run<std::uint16_t>(c); break;
            case 32: run<std::uint32_t>(c); break;
            case 64: run<std::uint64_t>(c); break;
            default: throw std::runtime_error("case: width");
        }
    });
}
