// Pairings of the named curves: the transitions of NamedPairings.qnt.  Results are compared with powers
// of the library's own pairing of the two generators (which must be a primitive r-th root of one).
#pragma once
#include "nc.hpp"
#include <nil/crypto3/algebra/algorithms/pair.hpp>

namespace pr {
    using rp::Val;
    namespace alg = nil::crypto3::algebra;
    template<typename C, typename Form, typename Co1, typename Co2> struct ops {
        using G1 = typename C::template g1_type<>;
        using G2 = typename C::template g2_type<>;
        using S = typename C::scalar_field_type;
        using O1 = nc::ops<G1, S, Form, Co1, false>;
        using O2 = nc::ops<G2, S, Form, Co2, false>;
        using T = typename C::gt_type::value_type;
        using I = typename S::integral_type;
        std::string nm;
        O1 o1; O2 o2;
        static T power(const T &x, const I &e) {
            T r = T::one();
            for (int i = 1023; i >= 0; --i) {
                if (i > int(S::modulus_bits)) continue;
                r = r * r;
                if (boost::multiprecision::bit_test(e, i)) r = r * x;
            }
            return r;
        }
        const T &base() const {
            static const T z = alg::pair_reduced<C>(G1::value_type::one(), G2::value_type::one());
            return z;
        }
        T want(const Val &e) const { return power(base(), tw::number<I>(e.s)); }
        void same(const std::string &op, const T &got, const T &w) const {
            rp::report().check(got == w, nm + "." + op, [&] { return "gave " + tw::show(got) + ", specified " + tw::show(w); });
        }
        void truth(const std::string &op, bool ok) const { rp::report().check(ok, nm + "." + op, [&] { return std::string("does not hold"); }); }
        void generators() const {
            truth("non-degenerate", base() != T::one());
            truth("order", power(base(), I(S::modulus)) == T::one());
        }
        void pair(const Val &a, const Val &r) const {
            const T w = want(r[0]);
            const auto P = o1.el(a[0][0]), P2 = o1.el(a[0][1]);
            const auto Q = o2.el(a[1][0]), Q2 = o2.el(a[1][1]);
            generators();
            same("pair_reduced", alg::pair_reduced<C>(P, Q), w);
            same("pair_reduced.rep", alg::pair_reduced<C>(P2, Q2), w);
            same("pair_reduced.rep1", alg::pair_reduced<C>(P2, Q), w);
            same("pair", alg::final_exponentiation<C>(alg::pair<C>(P, Q2)), w);
            const T v = want(r[1]);         // one after the other: the opposite tuples share all coordinates but one
            same("pair_reduced.-Q", alg::pair_reduced<C>(P2, -Q), v);
            same("pair_reduced.-P", alg::pair_reduced<C>(-P2, Q), v);
            same("pair_reduced.--", alg::pair_reduced<C>(-P2, -Q), w);
            same("pair.-Q", alg::final_exponentiation<C>(alg::pair<C>(P, -Q2)), v);
            same("pair.-P", alg::final_exponentiation<C>(alg::pair<C>(-P, Q2)), v);
        }
        void parts(const Val &a, const Val &r) const {      // the steps a caller may take apart
            const T w = want(r[0]);
            const auto P = o1.el(a[0][0]);
            const auto Q = o2.el(a[1][0]);
            const auto p = alg::precompute_g1<C>(P);
            const auto q = alg::precompute_g2<C>(Q);
            const T m = alg::miller_loop<C>(p, q);
            same("miller=pair", m, alg::pair<C>(P, Q));
            const T f = alg::final_exponentiation<C>(m);
            same("fe(miller)", f, w);
            same("fe(miller)=pair_reduced", f, alg::pair_reduced<C>(P, Q));
        }
        void twice(const Val &a, const Val &r) const {
            const auto p = alg::precompute_g1<C>(o1.el(a[0][0])), p2 = alg::precompute_g1<C>(o1.el(a[2][0]));
            const auto q = alg::precompute_g2<C>(o2.el(a[1][0])), q2 = alg::precompute_g2<C>(o2.el(a[3][0]));
            const T d = alg::double_miller_loop<C>(p, q, p2, q2);
            const T x = alg::miller_loop<C>(p, q), y = alg::miller_loop<C>(p2, q2);
            same("double", d, x * y);
            same("double.swapped", alg::double_miller_loop<C>(p2, q2, p, q), x * y);
            same("fe(double)", alg::final_exponentiation<C>(d), want(r[0]) * want(r[1]));
        }
        void reuse(const Val &a, const Val &r) const {
            const auto p = alg::precompute_g1<C>(o1.el(a[0][0])), p2 = alg::precompute_g1<C>(o1.el(a[1][0]));
            const auto q = alg::precompute_g2<C>(o2.el(a[2][0])), q2 = alg::precompute_g2<C>(o2.el(a[3][0]));
            const T first = alg::miller_loop<C>(p, q);
            same("reuse.0", alg::final_exponentiation<C>(first), want(r[0]));
            same("reuse.1", alg::final_exponentiation<C>(alg::miller_loop<C>(p, q2)), want(r[1]));
            same("reuse.2", alg::final_exponentiation<C>(alg::miller_loop<C>(p2, q)), want(r[2]));
            same("reuse.3", alg::final_exponentiation<C>(alg::miller_loop<C>(p2, q2)), want(r[3]));
            same("reuse.4", alg::miller_loop<C>(p, q), first);
        }
        void fe(const Val &a, const Val &r) const {
            const T u = tw::dec<T>(a[0]), v = tw::dec<T>(a[1]), uv = tw::dec<T>(a[2]), s = tw::dec<T>(a[3]);
            const T fu = alg::final_exponentiation<C>(u), fv = alg::final_exponentiation<C>(v);
            same("fe.product", alg::final_exponentiation<C>(uv), fu * fv);
            same("fe.order", power(fu, tw::number<I>(r[0].s)), T::one());
            same("fe.subfield", alg::final_exponentiation<C>(s), T::one());
            same("fe.absorbs", alg::final_exponentiation<C>(u * s), fu);
            same("fe.one", alg::final_exponentiation<C>(T::one()), T::one());
        }
        void operator()(const Val &v) const {
            const std::string &op = v[0].s;
            const Val &a = v[2], &r = v[3];
            if (op == "pair") pair(a, r); else if (op == "parts") parts(a, r); else if (op == "double") twice(a, r); else if (op == "reuse") reuse(a, r); else if (op == "fe") fe(a, r);
            else throw std::runtime_error("case: unknown operation " + op);
        }
    };
    template<typename C, typename Form, typename Co1, typename Co2> struct curve {
        curve(const std::string &key) { tw::registry()[key] = ops<C, Form, Co1, Co2> {key, {key + ".g1"}, {key + ".g2"}}; }
    };
}    // namespace pr
