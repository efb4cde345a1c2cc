// The cyclic groups Z_N: the methods are generic, only the group is a stand-in.
#include "toy.hpp"
#include "mx.hpp"
namespace mx {
    template<unsigned long N> struct zgroup;
    template<unsigned long N> struct zn {
        using group_type = zgroup<N>;
        unsigned long v = 0;
        static zn zero() { return zn {0}; }
        static zn one() { return zn {1 % N}; }
        bool is_zero() const { return v == 0; }
        bool operator==(const zn &o) const { return v == o.v; }
        bool operator!=(const zn &o) const { return v != o.v; }
        zn operator+(const zn &o) const { return zn {(v + o.v) % N}; }
        zn operator-(const zn &o) const { return zn {(v + N - o.v) % N}; }
        zn operator-() const { return zn {(N - v) % N}; }
        zn &operator+=(const zn &o) { v = (v + o.v) % N; return *this; }
        zn &operator-=(const zn &o) { v = (v + N - o.v) % N; return *this; }
        void double_inplace() { v = 2 * v % N; }
        void mixed_add(const zn &o) { *this += o; }
    };
    template<unsigned long N> struct zgroup { using value_type = zn<N>; };
    template<unsigned long N> using S = toy::fp<N>;
    template<unsigned long N> using SV = typename S<N>::value_type;
    template<unsigned long N, typename B, boost::multiprecision::expression_template_option X>
    zn<N> operator*(const boost::multiprecision::number<B, X> &k, const zn<N> &g) {
        return zn<N> {static_cast<unsigned long>(k) % N * g.v % N};
    }
    template<typename FP, unsigned long N> zn<N> operator*(const alg::fields::detail::element_fp<FP> &k, const zn<N> &g) {
        return zn<N> {toy::codec<alg::fields::detail::element_fp<FP>>::enc(k) % N * g.v % N};
    }
    template<unsigned long N> struct adaptor {
        using E = zn<N>;
        using G = zgroup<N>;
        using F = S<N>;
        using SV = typename F::value_type;
        using I = typename F::integral_type;
        static constexpr bool slow = false;
        SV scalar(const rp::Val &v) const { return toy::codec<SV>::dec(v.i()); }
        I number(const rp::Val &v) const { return I((unsigned long)v.i()); }
        E point(const rp::Val &v) const { return E {(unsigned long)v.i()}; }
        // Z_N is also the scalar field: the inner product of two vectors of scalars
        void extra(const std::vector<SV> &k, const rp::Val &a, const rp::Val &r, const std::string &nm) const {
            std::vector<SV> g;
            for (std::size_t i = 0; i < k.size(); ++i) g.push_back(scalar(a[1][i]));
            SV t = alg::inner_product(k.begin(), k.end(), g.cbegin(), g.cend());
            is(E {toy::codec<SV>::enc(t)}, r, nm + ".inner_product");
        }
        void is(const E &e, const rp::Val &r, const std::string &op) const {
            rp::report().check(e.v == (unsigned long)r.i(), op, [&] { return "gave " + std::to_string(e.v) + ", specified " + std::to_string(r.i()); });
        }
    };
}
namespace nil { namespace crypto3 { namespace algebra { namespace curves {
    template<unsigned long N> struct wnaf_params<mx::zgroup<N>> { constexpr static std::array<std::size_t, 4> wnaf_window_table = {2, 4, 6, 11}; };
    template<unsigned long N> struct multiexp_params<mx::zgroup<N>> { constexpr static std::array<std::size_t, 6> fixed_base_exp_window_table = {1, 5, 11, 0, 55, 0}; };
}}}}
namespace {
    template<unsigned long N> struct reg {
        reg() { std::string k = "zn" + std::to_string(N); tw::registry()[k] = mx::ops<mx::adaptor<N>> {{}, "zn"}; }
    };
    reg<5> a;
    reg<7> b;
    reg<13> c;
    reg<17> d;
    reg<65521> e;
}
