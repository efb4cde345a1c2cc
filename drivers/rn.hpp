// Random elements: RandomWalk.qnt scripts what a distribution returns; RandomTrace.qnt judges histories
// of draws recorded here from the library with its own distribution.
#pragma once
#include <nil/crypto3/algebra/random_element.hpp>
#include "nc.hpp"
#include <deque>

namespace rn {
    using rp::Val;
    namespace alg = nil::crypto3::algebra;
    struct Script {             // a generator: the numbers a distribution is going to return (drawn from directly, its own)
        using result_type = std::uint32_t;
        static constexpr result_type min() { return 0; }
        static constexpr result_type max() { return 0xffffffffu; }
        boost::random::mt19937 own;
        result_type operator()() { return own(); }
        std::vector<std::string> next;
        std::size_t used = 0;
        std::vector<std::string> bounds;
    };
    template<typename I> struct Told {          // a distribution that returns what it is told, within its bounds
        using result_type = I;
        I lo, hi;
        template<typename A, typename B> Told(const A &a, const B &b) : lo(a), hi(b) { }
        I operator()(Script &s) const {
            if (s.used >= s.next.size()) throw std::runtime_error("more numbers drawn than scripted");
            I v = tw::number<I>(s.next[s.used++]);
            s.bounds.push_back(rp::str(lo)); s.bounds.push_back(rp::str(hi));
            return v < lo ? lo : hi < v ? hi : v;
        }
    };
    template<typename F> struct script {
        using V = typename F::value_type;
        using I = typename F::integral_type;
        std::string nm;
        void operator()(const Val &v) const {
            const Val &a = v[2], &r = v[3];
            Script s;
            for (auto &x : a[0].e) s.next.push_back(x.s);
            for (auto &one : r[0].e) {          // several elements from one generator
                const std::size_t from = s.used;
                s.bounds.clear();
                const V x = alg::random_element<F, Told<I>>(s);
                std::vector<std::string> got, want;
                for (auto &c : tw::enc(x)) got.push_back(rp::str(c));
                for (auto &c : one.e) want.push_back(c.s);
                // each coordinate is one of the numbers drawn for this element, none used twice; their order is not fixed
                auto gs = got, ws = want;
                std::sort(gs.begin(), gs.end()); std::sort(ws.begin(), ws.end());
                rp::report().check(gs == ws, nm + ".draws", [&] { return "coordinates " + tw::show(x); });
                rp::report().check(s.used - from == want.size(), nm + ".count", [&] { return std::to_string(s.used - from) + " numbers drawn"; });
                for (std::size_t i = 0; i < s.bounds.size(); i += 2)
                    rp::report().check(s.bounds[i] == "0" && (s.bounds[i + 1] == a[1].s || s.bounds[i + 1] == a[2].s), nm + ".bounds", [&] { return s.bounds[i] + " to " + s.bounds[i + 1]; });
                if (want.size() == 1) rp::report().check(got == want, nm + ".value", [&] { return tw::show(x); });
            }
        }
    };
    template<typename V> void put(std::ostream &o, const std::string &k, const char *name, const V &x) { std::array<V, 1> a = {x}; nf::put(o, k, name, a); }
    template<typename F> struct field {
        field(const std::string &key) {
            tw::registry()[key] = script<F> {key};
            nf::dumps().push_back({key, [](std::ostream &o, const std::string &k0) {
                using V = typename F::value_type;
                const std::string k = k0 + " random";
                for (unsigned seed = 1; seed <= 8; ++seed) {
                    boost::random::mt19937 g(seed), h(seed);
                    const std::string n = std::to_string(seed);
                    put(o, k, ("a" + n).c_str(), V(alg::random_element<F>(g))); put(o, k, ("b" + n).c_str(), V(alg::random_element<F>(g)));
                    put(o, k, ("c" + n).c_str(), V(alg::random_element<F>(h))); put(o, k, ("d" + n).c_str(), V(alg::random_element<F>(h)));
                    nf::put(o, k, ("same" + n).c_str(), unsigned(g == h));
                }
                put(o, k, "x", V(alg::random_element<F>())); put(o, k, "y", V(alg::random_element<F>()));
            }});
        }
    };
    template<typename Co, typename E> void point(std::ostream &o, const std::string &k, const std::string &n, const E &e) {
        using V = std::decay_t<decltype(e.X)>;
        if constexpr (nc::arity<Co>::n == 2) { std::array<V, 2> a = {e.X, e.Y}; nf::put(o, k, n.c_str(), a); }
        else if constexpr (nc::arity<Co>::n == 3) { std::array<V, 3> a = {e.X, e.Y, e.Z}; nf::put(o, k, n.c_str(), a); }
        else { std::array<V, 4> a = {e.X, e.Y, e.T, e.Z}; nf::put(o, k, n.c_str(), a); }
    }
    template<typename G, typename Co> struct group {
        group(const std::string &key) {
            nf::dumps().push_back({key, [](std::ostream &o, const std::string &k0) {
                const std::string k = k0 + " random";
                for (unsigned seed = 1; seed <= 2; ++seed) {
                    boost::random::mt19937 g(seed), h(seed);
                    const std::string n = std::to_string(seed);
                    point<Co>(o, k, "a" + n, alg::random_element<G>(g)); point<Co>(o, k, "b" + n, alg::random_element<G>(g));
                    point<Co>(o, k, "c" + n, alg::random_element<G>(h)); point<Co>(o, k, "d" + n, alg::random_element<G>(h));
                    nf::put(o, k, ("same" + n).c_str(), unsigned(g == h));
                }
                point<Co>(o, k, "x", alg::random_element<G>()); point<Co>(o, k, "y", alg::random_element<G>());
            }});
        }
    };
}    // namespace rn
