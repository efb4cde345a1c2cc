// Octets of points and field elements: the transitions of NamedCodec.qnt.
#pragma once
#include <array>
#include <algorithm>
#include <boost/assert.hpp>
#include <boost/range/concepts.hpp>
#include <nil/crypto3/algebra/marshalling.hpp>
#include "nc.hpp"

namespace km {
    using rp::Val;
    using Octets = std::vector<std::uint8_t>;
    inline Octets octets(const Val &v, std::size_t n) {
        const auto x = tw::parse<tw::huge>(v.s);
        Octets o(n);
        for (std::size_t i = 0; i < n; ++i)
            for (unsigned b = 0; b < 8; ++b)
                if (boost::multiprecision::bit_test(x, 8 * (n - 1 - i) + b)) o[i] |= std::uint8_t(1u << b);
        return o;
    }
    template<typename R> std::string hex(const R &o) {
        static const char d[] = "0123456789abcdef";
        std::string s;
        for (std::uint8_t c : o) s += d[c >> 4], s += d[c & 15];
        return s;
    }
    template<typename A, typename B> void same(const std::string &op, const A &got, const B &want) {
        rp::report().check(got.size() == want.size() && std::equal(got.begin(), got.end(), want.begin()), op, [&] { return "gave " + hex(got) + ", specified " + hex(want); });
    }
    template<std::size_t N> std::array<std::uint8_t, N> fixed(const Octets &o) {
        std::array<std::uint8_t, N> a;
        std::copy(o.begin(), o.end(), a.begin());
        return a;
    }
    template<typename C, bool Two> struct points {
        using G = std::conditional_t<Two, typename C::template g2_type<>, typename C::template g1_type<>>;
        using O = nc::ops<G, typename C::scalar_field_type, nc::sw, nc::co::jacobian_with_a4_0, false>;
        using S = nil::marshalling::curve_element_serializer<C>;
        using B = nil::marshalling::bincode::curve<C>;
        using E = typename G::value_type;
        static constexpr std::size_t len = Two ? 96 : 48;
        std::string nm;
        O o;
        template<typename R> static E read(const R &r) { if constexpr (Two) return S::octets_to_g2_point(r); else return S::octets_to_g1_point(r); }
        void operator()(const Val &v) const {
            if (v[0].s != "point") throw std::runtime_error("case: unknown operation " + v[0].s);
            const nc::Pt p = nc::point(v[3][0]);
            const Octets c = octets(v[3][1], len), u = octets(v[3][2], 2 * len);
            for (std::size_t i = 0; i < v[2][0].size(); ++i) {
                const E e = o.el(v[2][0][i]);
                same(nm + ".compress", S::point_to_octets_compress(e), c);
                same(nm + ".octets", S::point_to_octets(e), u);
                Octets w(len + 2, 0xa5);
                const std::size_t n = B::template point_to_bytes<G>(e, w.begin() + 1, w.end() - 1);
                Octets x(1, 0xa5);
                x.insert(x.end(), c.begin(), c.end());
                x.push_back(0xa5);
                same(nm + ".point_to_bytes", w, x);
                rp::report().check(n == len && B::template element_size<G>() == len, nm + ".element_size", [&] { return std::to_string(n); });
            }
            o.is(read(fixed<len>(c)), p, "from.compressed");
            o.is(read(fixed<2 * len>(u)), p, "from.octets");
            o.is(read(c), p, "from.compressed.vector");
            o.is(read(u), p, "from.octets.vector");
            if constexpr (Two) o.is(B::g2_point_from_bytes(c.begin(), c.end()), p, "from_bytes");
            else o.is(B::g1_point_from_bytes(c.begin(), c.end()), p, "from_bytes");
        }
    };
    // the octets of a field's elements; Codec is the general one or that of a curve
    template<typename F> struct general {
        template<typename It> static std::size_t to(const typename F::value_type &x, It a, It b) { return nil::marshalling::bincode::field<F>::field_element_to_bytes(x, a, b); }
        template<typename It> static auto from(It a, It b) { return nil::marshalling::bincode::field<F>::field_element_from_bytes(a, b); }
        static std::size_t size() { return nil::marshalling::bincode::field<F>::get_element_size(); }
    };
    template<typename C, typename F> struct ofcurve {
        using B = nil::marshalling::bincode::curve<C>;
        template<typename It> static std::size_t to(const typename F::value_type &x, It a, It b) { return B::template field_element_to_bytes<F>(x, a, b); }
        template<typename It> static auto from(It a, It b) { return B::template field_element_from_bytes<F>(a, b); }
        static std::size_t size() { return B::template element_size<F>(); }
    };
    template<typename F, typename... Codecs> struct felts {
        using V = typename F::value_type;
        std::string nm;
        template<typename K> void write(const Val &a, const Val &r) const {
            const V x = tw::dec<V>(a[0]);
            const std::size_t n = std::stoul(r[1].s);
            const Octets w = octets(r[0], n);
            rp::report().check(K::size() == n, nm + ".size", [&] { return std::to_string(K::size()); });
            for (int dirt : {0, 0xa5}) {      // whatever the buffer held before
                Octets b(n + 2, dirt), e(1, dirt);
                const std::size_t k = K::to(x, b.begin() + 1, b.end() - 1);
                e.insert(e.end(), w.begin(), w.end());
                e.push_back(dirt);
                same(nm + (dirt ? ".to_bytes.reused" : ".to_bytes"), b, e);
                rp::report().check(k == n, nm + ".to_bytes.count", [&] { return std::to_string(k); });
            }
            const auto y = K::from(w.begin(), w.end());
            rp::report().check(y.first && y.second == x, nm + ".from_bytes", [&] { return std::string(y.first ? "valid " : "invalid ") + tw::show(y.second); });
        }
        template<typename K> void over(const Val &a) const {
            const Octets w = octets(a[0], std::stoul(a[1].s));
            rp::report().check(!K::from(w.begin(), w.end()).first, nm + ".from_bytes.over", [&] { return std::string("valid"); });
        }
        void operator()(const Val &v) const {
            if (v[0].s == "felt") (write<Codecs>(v[2], v[3]), ...);
            else if (v[0].s == "over") (over<Codecs>(v[2]), ...);
            else throw std::runtime_error("case: unknown operation " + v[0].s);
        }
    };
    template<typename C, bool Two> struct rpoints { rpoints(const std::string &k) { tw::registry()[k] = points<C, Two> {k, {k}}; } };
    template<typename F, typename... K> struct rfelts { rfelts(const std::string &k) { tw::registry()[k] = felts<F, K...> {k}; } };
}    // namespace km
