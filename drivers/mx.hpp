// Multi-exponentiation and fixed-base windows, replayed through every method, chunk count and window.
// An adaptor says how points and scalars are read and when an element stands for a point.
#pragma once
#include <boost/assert.hpp>
#include "nc.hpp"
#include <nil/crypto3/algebra/multiexp/multiexp.hpp>
#include <nil/crypto3/algebra/multiexp/policies.hpp>
#include <nil/crypto3/algebra/multiexp/inner_product.hpp>

namespace mx {
    using rp::Val;
    namespace alg = nil::crypto3::algebra;
    namespace pol = nil::crypto3::algebra::policies;
    template<typename A> struct ops {
        A ad;
        std::string nm;
        using E = typename A::E;
        using SV = typename A::SV;
        void is(const E &e, const Val &r, const std::string &op) const { ad.is(e, r, nm + "." + op); }
        template<typename M> void method(const std::string &m, const std::vector<E> &g, const std::vector<SV> &k, const Val &r) const {
            const std::size_t n = g.size();
            is(M::process(g.begin(), g.end(), k.begin(), k.end()), r, m);
            for (std::size_t c : {std::size_t(1), std::size_t(2), std::size_t(3), n - 1, n, n + 1, 2 * n + 5}) {
                if (!c || (A::slow && c != 2 && c != n)) continue;
                is(alg::multiexp<M>(g.begin(), g.end(), k.begin(), k.end(), c), r, m + ".chunks");
                is(alg::multiexp_with_mixed_addition<M>(g.begin(), g.end(), k.begin(), k.end(), c), r, m + ".filtered");
            }
        }
        void sum(const Val &a, const Val &r) const {
            std::vector<E> g;
            std::vector<SV> k;
            for (std::size_t i = 0; i < a[0].size(); ++i) { k.push_back(ad.scalar(a[0][i])); g.push_back(ad.point(a[1][i])); }
            method<pol::multiexp_method_naive_plain>("naive", g, k, r);
            method<pol::multiexp_method_BDLO12>("BDLO12", g, k, r);
            method<pol::multiexp_method_bos_coster>("bos_coster", g, k, r);
            ad.extra(k, a, r, nm);
        }
        void win(const Val &a, const Val &r) const {
            using G = typename A::G;
            using F = typename A::F;
            const std::size_t bits = a[0].i(), w = a[1].i();
            const E base = ad.point(a[2]);
            const SV coeff = ad.scalar(a[3]);
            std::vector<SV> k;
            for (std::size_t i = 0; i < a[4].size(); ++i) k.push_back(ad.scalar(a[4][i]));
            const auto table = alg::get_window_table<G>(bits, w, base);
            for (std::size_t i = 0; i < k.size(); ++i) is(alg::windowed_exp<G, F>(bits, w, table, k[i]), r[0][i], "windowed_exp");
            auto b = alg::batch_exp<G, F>(bits, w, table, k);
            auto c = alg::batch_exp_with_coeff<G, F>(bits, w, table, coeff, k);
            bool n = b.size() == k.size() && c.size() == k.size();
            rp::report().check(n, nm + ".batch length", [&] { return std::to_string(b.size()) + " " + std::to_string(c.size()); });
            if (n) for (std::size_t i = 0; i < k.size(); ++i) { is(b[i], r[0][i], "batch_exp"); is(c[i], r[1][i], "batch_exp_with_coeff"); }
        }
        void size(const Val &a, const Val &r) const {
            const std::size_t got = alg::get_exp_window_size<typename A::G>(a[0].i());
            rp::report().check(got == (std::size_t)r.i(), nm + ".window size", [&] { return std::to_string(got); });
        }
        void wnaf(const Val &a, const Val &r) const {
            const E base = ad.point(a[0]);
            const typename A::I k = ad.number(a[1]);
            for (std::size_t bits : {1, 2, 3, 5, 8, 12, 30, 70, 200, 400}) is(alg::opt_window_wnaf_exp(base, k, bits), r, "opt_window_wnaf");
        }
        void operator()(const Val &v) const {
            const std::string &op = v[0].s;
            if (op == "sum") sum(v[2], v[3]); else if (op == "win") win(v[2], v[3]); else if (op == "size") size(v[2], v[3]); else if (op == "wnaf") wnaf(v[2], v[3]);
            else throw std::runtime_error("case: unknown operation " + op);
        }
    };
}    // namespace mx
