// Values written to a stream and kept in hashed containers: PrintMachine and HashMachine transitions.
#include "common.hpp"
#include "toytower.hpp"
#include "toycurve.hpp"
#include <sstream>
#include <unordered_map>
#include <unordered_set>
#include <nil/crypto3/algebra/pairing/detail/edwards/183/types.hpp>
#include <nil/crypto3/algebra/pairing/detail/forms/short_weierstrass/jacobian_with_a4_0/types.hpp>
#include <nil/crypto3/algebra/pairing/detail/forms/short_weierstrass/projective/types.hpp>

namespace {
    using rp::Val;
    namespace el = alg::fields;
    constexpr unsigned long P = 13;
    using F = toy::fp<P>;
    template<typename G2> struct pcurve {
        using base_field_type = F;
        template<typename...> struct g2_type { using field_type = G2; };
    };
    template<typename V, typename = void> struct maker {
        static V of(const Val &v) {
            V x;
            using U = typename V::underlying_type;
            for (std::size_t i = 0; i < x.data.size(); ++i) x.data[i] = maker<U>::of(v[i]);
            return x;
        }
    };
    template<typename FP> struct maker<el::detail::element_fp<FP>> {
        using V = el::detail::element_fp<FP>;
        static V of(const Val &v) { return V(typename V::integral_type((unsigned long)v.i())); }
    };
    template<typename V> V make(const Val &v) { return maker<V>::of(v); }

    // the text the specification names, white space left out
    std::string text(const Val &toks) {
        std::string s;
        for (auto &t : toks.e) {
            if (t.s == "os") s += '[';
            else if (t.s == "cs") s += ']';
            else if (t.s == "ob") s += '{';
            else if (t.s == "cb") s += '}';
            else if (t.s == "cm") s += ',';
            else if (t.s[0] >= '0' && t.s[0] <= '9') s += t.s;
            else s += '"' + t.s + "\":";
        }
        return s;
    }
    std::string squeeze(const std::string &s) {
        std::string o;
        for (char c : s) if (c != ' ' && c != '\n' && c != '\t') o += c;
        return o;
    }
    using Print = std::function<void(std::ostream &, const Val &)>;
    template<typename T> void put(std::ostream &os, const T &x) {
        std::ostream &r = os << x;
        rp::report().check(&r == &os, "print.stream", [] { return std::string("another stream came back"); });
    }
    template<typename V> Print field() { return [](std::ostream &o, const Val &v) { put(o, make<V>(v)); }; }
    template<typename G> Print xy() {
        return [](std::ostream &o, const Val &v) { using B = typename G::field_type::value_type; put(o, typename G::value_type(make<B>(v[0]), make<B>(v[1]))); };
    }
    template<typename G> Print xyz() {
        return [](std::ostream &o, const Val &v) { using B = typename G::field_type::value_type; put(o, typename G::value_type(make<B>(v[0]), make<B>(v[1]), make<B>(v[2]))); };
    }
    template<typename G> Print xytz() {
        return [](std::ostream &o, const Val &v) { using B = typename G::field_type::value_type; put(o, typename G::value_type(make<B>(v[0]), make<B>(v[1]), make<B>(v[2]), make<B>(v[3]))); };
    }
    std::map<std::string, Print> &table() { static std::map<std::string, Print> t; return t; }
    namespace sw = alg::curves::coordinates;
    using fm = alg::curves::forms;
    template<typename FF> void points(const std::string &f) {
        using W = fm::short_weierstrass; using T = fm::twisted_edwards; using M = fm::montgomery;
        auto &t = table();
        t["affine/" + f] = xy<toy::group<FF, sw::affine, W>>();
        t["projective/" + f] = xyz<toy::group<FF, sw::projective, W>>();
        t["projective-3/" + f] = xyz<toy::group<FF, sw::projective_with_a4_minus_3, W>>();
        t["jacobian/" + f] = xyz<toy::group<FF, sw::jacobian, W>>();
        t["jacobian0/" + f] = xyz<toy::group<FF, sw::jacobian_with_a4_0, W>>();
        t["jacobian-3/" + f] = xyz<toy::group<FF, sw::jacobian_with_a4_minus_3, W>>();
        t["teaffine/" + f] = xy<toy::group<FF, sw::affine, T>>();
        t["inverted/" + f] = xyz<toy::group<FF, sw::inverted, T>>();
        t["extended/" + f] = xytz<toy::group<FF, sw::extended_with_a_minus_1, T>>();
        t["montgomery/" + f] = xy<toy::group<FF, sw::affine, M>>();
    }
    // ---- equality of stored values
    using Same = std::function<void(const std::string &, const Val &, const Val &, bool)>;
    std::map<std::string, std::vector<Same>> &equals() { static std::map<std::string, std::vector<Same>> t; return t; }
    template<typename B> Same same_(const std::string &what, B build) {
        return [what, build](const std::string &k, const Val &a, const Val &b, bool want) {
            const auto x = build(a), y = build(b);
            const bool got = x == y, back = y == x;
            rp::report().check(got == want && back == want, "same." + k + what, [&] { return std::string("answered ") + (got ? "equal" : "different"); });
            const auto z(x);
            rp::report().check(z == x, "same.copy." + k + what, [] { return std::string("a copy differs"); });
        };
    }
    template<typename V> void same_field(const std::string &f) {
        equals()["field/" + f].push_back(same_("", [](const Val &v) { return make<V>(v); }));
        equals()["field/" + f].push_back([](const std::string &k, const Val &a, const Val &b, bool want) {
            rp::report().check((make<V>(a) != make<V>(b)) == !want, "same.!=." + k, [] { return std::string("!= disagrees"); });
        });
    }
    void edwards_types() {
        using T = alg::pairing::detail::types_policy<alg::curves::edwards<183>>;
        using V1 = T::g1_field_value_type; using V3 = T::g2_field_value_type;
        auto &t = equals();
        auto c1 = [](const Val &v) { T::Fq_conic_coefficients c; c.c_ZZ = make<V1>(v[0]); c.c_XY = make<V1>(v[1]); c.c_XZ = make<V1>(v[2]); return c; };
        auto c3 = [](const Val &v) { T::Fq3_conic_coefficients c; c.c_ZZ = make<V3>(v[0]); c.c_XY = make<V3>(v[1]); c.c_XZ = make<V3>(v[2]); return c; };
        t["entry/fp/3"].push_back(same_(" Fq_conic", c1));
        t["entry/fp3/3"].push_back(same_(" Fq3_conic", c3));
        t["entry/fp/3"].push_back(same_(" edwards g1", [](const Val &v) { T::g1_precomputed_type c; c.P_XY = make<V1>(v[0]); c.P_XZ = make<V1>(v[1]); c.P_ZZplusYZ = make<V1>(v[2]); return c; }));
        t["entry/fp3/2"].push_back(same_(" tate g2", [](const Val &v) { T::tate_g2_precomp c; c.y0 = make<V3>(v[0]); c.eta = make<V3>(v[1]); return c; }));
        t["list/fp/3"].push_back(same_(" tate g1", [c1](const Val &v) { T::tate_g1_precomp c; for (auto &x : v.e) c.push_back(c1(x)); return c; }));
        t["list/fp3/3"].push_back(same_(" edwards g2", [c3](const Val &v) { T::g2_precomputed_type c; for (auto &x : v.e) c.push_back(c3(x)); return c; }));
    }
    template<typename B> void both(const std::string &k, B build) {
        table()[k] = [build](std::ostream &o, const Val &v) { put(o, build(v)); };
        equals()[k].push_back(same_("", build));
    }
    template<typename FF> void pairings(const std::string &f) {
        using V1 = F::value_type; using V2 = typename FF::value_type;
        using J = alg::pairing::detail::short_weierstrass_jacobian_with_a4_0_types_policy<pcurve<FF>>;
        using Q = alg::pairing::detail::short_weierstrass_projective_types_policy<pcurve<FF>>;
        auto &t = table();
        auto g1ate0 = [](const Val &v) {
            typename J::g1_precomputed_type x; x.PX = make<V1>(v[0]); x.PY = make<V1>(v[1]); return x; };
        auto g2ate0 = [](const Val &v) {
            typename J::g2_precomputed_type x; x.QX = make<V2>(v[0]); x.QY = make<V2>(v[1]);
            for (auto &c : v[2].e) {
                typename J::g2_precomputed_type::coeffs_type k;
                k.ell_0 = make<V2>(c[0]); k.ell_VW = make<V2>(c[1]); k.ell_VV = make<V2>(c[2]);
                x.coeffs.push_back(k);
            }
            return x; };
        auto g1ate = [](const Val &v) {
            typename Q::g1_precomputed_type x; x.PX = make<V1>(v[0]); x.PY = make<V1>(v[1]);
            x.PX_twist = make<V2>(v[2]); x.PY_twist = make<V2>(v[3]); return x; };
        auto g2ate = [](const Val &v) {
            typename Q::g2_precomputed_type x; x.QX = make<V2>(v[0]); x.QY = make<V2>(v[1]); x.QY2 = make<V2>(v[2]);
            x.QX_over_twist = make<V2>(v[3]); x.QY_over_twist = make<V2>(v[4]);
            for (auto &c : v[5].e) {
                typename Q::g2_precomputed_type::dbl_coeffs_type k;
                k.c_H = make<V2>(c[0]); k.c_4C = make<V2>(c[1]); k.c_J = make<V2>(c[2]); k.c_L = make<V2>(c[3]);
                x.dbl_coeffs.push_back(k);
            }
            for (auto &c : v[6].e) {
                typename Q::g2_precomputed_type::add_coeffs_type k;
                k.c_L1 = make<V2>(c[0]); k.c_RZ = make<V2>(c[1]);
                x.add_coeffs.push_back(k);
            }
            return x; };
        both("g1ate0/" + f, g1ate0); both("g2ate0/" + f, g2ate0); both("g1ate/" + f, g1ate); both("g2ate/" + f, g2ate);
        auto &e = equals();
        e["entry/" + f + "/3"].push_back(same_(" ell", [](const Val &c) {
            typename J::g2_precomputed_type::coeffs_type k; k.ell_0 = make<V2>(c[0]); k.ell_VW = make<V2>(c[1]); k.ell_VV = make<V2>(c[2]); return k; }));
        e["entry/" + f + "/4"].push_back(same_(" dbl", [](const Val &c) {
            typename Q::g2_precomputed_type::dbl_coeffs_type k; k.c_H = make<V2>(c[0]); k.c_4C = make<V2>(c[1]); k.c_J = make<V2>(c[2]); k.c_L = make<V2>(c[3]); return k; }));
        e["entry/" + f + "/2"].push_back(same_(" add", [](const Val &c) {
            typename Q::g2_precomputed_type::add_coeffs_type k; k.c_L1 = make<V2>(c[0]); k.c_RZ = make<V2>(c[1]); return k; }));
    }
    void setup() {
        auto &t = table();
        t["field/fp"] = field<F::value_type>(); same_field<F::value_type>("fp");
        t["field/fp2"] = field<el::fp2<F>::value_type>(); same_field<el::fp2<F>::value_type>("fp2");
        t["field/fp3"] = field<el::fp3<F>::value_type>(); same_field<el::fp3<F>::value_type>("fp3");
        t["field/fp4"] = field<el::fp4<F>::value_type>(); same_field<el::fp4<F>::value_type>("fp4");
        t["field/fp6a"] = field<el::fp6_2over3<F>::value_type>(); same_field<el::fp6_2over3<F>::value_type>("fp6a");
        t["field/fp6b"] = field<el::fp6_3over2<F>::value_type>(); same_field<el::fp6_3over2<F>::value_type>("fp6b");
        t["field/fp12"] = field<el::fp12_2over3over2<F>::value_type>(); same_field<el::fp12_2over3over2<F>::value_type>("fp12");
        edwards_types();
        points<F>("fp"); points<el::fp2<F>>("fp2"); points<el::fp3<F>>("fp3");
        pairings<F>("fp"); pairings<el::fp2<F>>("fp2"); pairings<el::fp3<F>>("fp3");
    }
    void same(const Val &c) {
        std::string k = c[2][0][0].s + "/" + c[2][0][1].s;
        if (c[2][0].size() > 2) k += "/" + c[2][0][2].s;
        auto f = equals().find(k);
        if (f == equals().end()) throw std::runtime_error("no instantiation for " + k);
        for (auto &g : f->second) g(k, c[2][1], c[2][2], c[3].b());
    }
    void print(const Val &c) {
        std::ostringstream os;
        std::string want;
        for (std::size_t i = 0; i < c[2].size(); ++i) {
            const std::string k = c[2][i][0][0].s + "/" + c[2][i][0][1].s;
            auto f = table().find(k);
            if (f == table().end()) throw std::runtime_error("no instantiation for " + k);
            for (int twice = 0; twice < 2; ++twice) {
                f->second(os, c[2][i][1]);
                want += text(c[3][i]);
                rp::report().check(os.good() && squeeze(os.str()) == want, "print." + k, [&] { return "wrote " + squeeze(os.str()) + ", specified " + want; });
            }
        }
    }

    // ---- hashed containers: <<"set", <<field>>, <<members, op, x, y>>, <<answer, size>>>>; x + y is the value meant
    template<typename V> void hashed(const Val &c) {
        std::unordered_set<V> s;
        std::unordered_map<V, long> m;
        const std::string key = "hash." + c[1][0].s + "." + c[2][1].s;
        for (auto &v : c[2][0].e) { s.insert(make<V>(v)); m[make<V>(v)] = 1; }
        const V x = make<V>(c[2][2]), y = make<V>(c[2][3]);
        const V z = x + y;                       // another way to arrive at the value
        const V w = make<V>(c[2][4]);
        const std::string op = c[2][1].s;
        bool ans = false;
        std::hash<V> h;
        auto &r = rp::report();
        r.check(h(z) == h(w), key + ".equal", [&] { return std::string("equal values hashed differently"); });
        if (op == "insert") { ans = s.insert(z).second; r.check(m.emplace(z, 2).second == ans, key + ".map", [] { return std::string("map and set differ"); }); }
        else if (op == "erase") { ans = s.erase(z) == 1; m.erase(w); }
        else { ans = s.count(z) == 1; r.check((m.find(w) != m.end()) == ans, key + ".map", [] { return std::string("map and set differ"); }); }
        r.check(ans == c[3][0].b(), key, [&] { return std::string("answered ") + (ans ? "TRUE" : "FALSE"); });
        r.check(s.size() == (std::size_t)c[3][1].i() && m.size() == s.size(), key + ".size", [&] { return "size " + std::to_string(s.size()); });
        for (auto &v : c[3][2].e) r.check(s.count(make<V>(v)) == 1 && m.count(make<V>(v)) == 1, key + ".member", [] { return std::string("lost a member"); });
    }
}    // namespace

int main(int argc, char **argv) {
    setup();
    return rp::run(argc, argv, [](const Val &v) {
        if (v[0].s == "print") return print(v);
        if (v[0].s == "same") return same(v);
        if (v[1][0].s == "fp") return hashed<toy::fp<5>::value_type>(v);
        return hashed<el::fp2<toy::fp<3>>::value_type>(v);
    });
}
