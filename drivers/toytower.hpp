// Toy instantiations of the library's cubic, quartic, sextic and dodecic towers over toy::fp<P, NR>.
// Constants only; the algorithms are the library's.
#pragma once
#include "toy.hpp"
#include <nil/crypto3/multiprecision/wnaf.hpp>
#include <nil/crypto3/algebra/fields/fp3.hpp>
#include <nil/crypto3/algebra/fields/fp4.hpp>
#include <nil/crypto3/algebra/fields/fp6_2over3.hpp>
#include <nil/crypto3/algebra/fields/fp6_3over2.hpp>
#include <nil/crypto3/algebra/fields/fp12_2over3over2.hpp>

namespace toy {
    struct c3 { unsigned long a[3]; };
    constexpr c3 mul3(c3 x, c3 y, unsigned long nr, unsigned long p) {
        c3 r {{0, 0, 0}};
        for (int i = 0; i < 3; ++i)
            for (int j = 0; j < 3; ++j) {
                unsigned long v = x.a[i] * y.a[j] % p;
                if (i + j >= 3) v = v * nr % p;
                r.a[(i + j) % 3] = (r.a[(i + j) % 3] + v) % p;
            }
        return r;
    }
    constexpr c3 pow3(c3 x, unsigned long e, unsigned long nr, unsigned long p) {
        c3 r {{1, 0, 0}};
        for (; e; e >>= 1, x = mul3(x, x, nr, p)) if (e & 1) r = mul3(r, x, nr, p);
        return r;
    }
    constexpr c3 nqr3(unsigned long nr, unsigned long p) {
        for (unsigned long a = 0; a < p; ++a) {
            c3 r = pow3(c3 {{a, 1, 0}}, (p * p * p - 1) / 2, nr, p);
            if (r.a[0] == p - 1 && r.a[1] == 0 && r.a[2] == 0) return c3 {{a, 1, 0}};
        }
        return c3 {{0, 0, 0}};
    }
    constexpr c2 xi(unsigned long nr, unsigned long p) {
        for (unsigned long a = 0; a < p; ++a) {
            c2 h = pow2(c2 {a, 1}, (p * p - 1) / 2, nr, p), c = pow2(c2 {a, 1}, (p * p - 1) / 3, nr, p);
            if (!(h.a == 1 && h.b == 0) && !(c.a == 1 && c.b == 0)) return c2 {a, 1};
        }
        return c2 {0, 0};
    }
    // Frobenius constants: the residue to the (p^k - 1)/m is the product over i < k of its p^i-th powers to (p - 1)/m
    constexpr unsigned long fr1(unsigned long nr, unsigned long p, unsigned k, unsigned m) {
        unsigned long r = 1, c = powmod(nr, (p - 1) / m, p);
        for (unsigned i = 0; i < k; ++i) r = r * c % p;
        return r;
    }
    constexpr c2 fr2(unsigned long nr, unsigned long p, unsigned k, unsigned m) {
        c2 x = xi(nr, p), r {1, 0};
        c2 c = pow2(x, (p - 1) / m, nr, p);
        for (unsigned i = 0; i < k; ++i) { r = mul2(r, c, nr, p); c = pow2(c, p, nr, p); }
        return r;
    }
    template<typename I, std::size_t K> constexpr std::array<I, K> tab1(unsigned long nr, unsigned long p, unsigned m, unsigned e) {
        std::array<I, K> r {};
        for (unsigned k = 0; k < K; ++k) r[k] = I(powmod(fr1(nr, p, k, m), e, p));
        return r;
    }
    template<typename I, std::size_t K> constexpr std::array<I, 2 * K> tab2(unsigned long nr, unsigned long p, unsigned m, unsigned e) {
        std::array<I, 2 * K> r {};
        for (unsigned k = 0; k < K; ++k) { c2 c = pow2(fr2(nr, p, k, m), e, nr, p); r[2 * k] = I(c.a); r[2 * k + 1] = I(c.b); }
        return r;
    }
}    // namespace toy

namespace nil { namespace crypto3 { namespace algebra { namespace fields { namespace detail {
    template<unsigned long P, unsigned long NR>
    class fp3_extension_params<toy::fp<P, NR>> : public params<toy::fp<P, NR>> {
        typedef toy::fp<P, NR> base_field_type;
        typedef params<base_field_type> policy_type;
        constexpr static unsigned long Q = P * P * P - 1;
        constexpr static toy::c3 N = toy::nqr3(NR, P);
        constexpr static toy::c3 NT = toy::pow3(N, toy::odd_part(Q), NR, P);

    public:
        using field_type = fields::fp3<base_field_type>;
        typedef typename policy_type::integral_type integral_type;
        typedef typename policy_type::extended_integral_type extended_integral_type;
        constexpr static const integral_type modulus = policy_type::modulus;
        typedef base_field_type non_residue_field_type;
        typedef typename non_residue_field_type::value_type non_residue_type;
        typedef base_field_type underlying_field_type;
        typedef typename underlying_field_type::value_type underlying_type;
        constexpr static const std::size_t s = toy::two_adicity(Q);
        constexpr static const extended_integral_type t = extended_integral_type(toy::odd_part(Q));
        constexpr static const extended_integral_type t_minus_1_over_2 = extended_integral_type((toy::odd_part(Q) - 1) / 2);
        constexpr static const std::array<integral_type, 3> nqr = {integral_type(N.a[0]), integral_type(N.a[1]), integral_type(N.a[2])};
        constexpr static const std::array<integral_type, 3> nqr_to_t = {integral_type(NT.a[0]), integral_type(NT.a[1]), integral_type(NT.a[2])};
        constexpr static const extended_integral_type group_order_minus_one_half = extended_integral_type(Q / 2);
        constexpr static const std::array<integral_type, 3> Frobenius_coeffs_c1 = toy::tab1<integral_type, 3>(NR, P, 3, 1);
        constexpr static const std::array<integral_type, 3> Frobenius_coeffs_c2 = toy::tab1<integral_type, 3>(NR, P, 3, 2);
        constexpr static const non_residue_type non_residue = non_residue_type(integral_type(NR));
    };
    template<unsigned long P, unsigned long NR>
    class fp4_extension_params<toy::fp<P, NR>> : public params<toy::fp<P, NR>> {
        typedef toy::fp<P, NR> base_field_type;
        typedef params<base_field_type> policy_type;

    public:
        using field_type = fields::fp4<base_field_type>;
        typedef typename policy_type::integral_type integral_type;
        constexpr static const integral_type modulus = policy_type::modulus;
        typedef base_field_type non_residue_field_type;
        typedef typename non_residue_field_type::value_type non_residue_type;
        typedef fields::fp2<base_field_type> underlying_field_type;
        typedef typename underlying_field_type::value_type underlying_type;
        constexpr static const std::array<integral_type, 4> Frobenius_coeffs_c1 = toy::tab1<integral_type, 4>(NR, P, 4, 1);
        constexpr static const non_residue_type non_residue = non_residue_type(integral_type(NR));
    };
    template<unsigned long P, unsigned long NR>
    class fp6_2over3_extension_params<toy::fp<P, NR>> : public params<toy::fp<P, NR>> {
        typedef toy::fp<P, NR> base_field_type;
        typedef params<base_field_type> policy_type;

    public:
        using field_type = fields::fp6_2over3<base_field_type>;
        typedef typename policy_type::integral_type integral_type;
        constexpr static const integral_type modulus = policy_type::modulus;
        typedef base_field_type non_residue_field_type;
        typedef typename non_residue_field_type::value_type non_residue_type;
        typedef fields::fp3<base_field_type> underlying_field_type;
        typedef typename underlying_field_type::value_type underlying_type;
        constexpr static const std::array<integral_type, 6> Frobenius_coeffs_c1 = toy::tab1<integral_type, 6>(NR, P, 6, 1);
        constexpr static const non_residue_type non_residue = non_residue_type(integral_type(NR));
    };
    template<unsigned long P, unsigned long NR>
    class fp6_3over2_extension_params<toy::fp<P, NR>> : public params<toy::fp<P, NR>> {
        typedef toy::fp<P, NR> base_field_type;
        typedef params<base_field_type> policy_type;
        constexpr static toy::c2 X = toy::xi(NR, P);

    public:
        using field_type = fields::fp6_3over2<base_field_type>;
        typedef typename policy_type::integral_type integral_type;
        constexpr static const integral_type modulus = policy_type::modulus;
        typedef fields::fp2<base_field_type> non_residue_field_type;
        typedef typename non_residue_field_type::value_type non_residue_type;
        typedef fields::fp2<base_field_type> underlying_field_type;
        typedef typename underlying_field_type::value_type underlying_type;
        constexpr static const std::array<integral_type, 12> Frobenius_coeffs_c1 = toy::tab2<integral_type, 6>(NR, P, 3, 1);
        constexpr static const std::array<integral_type, 12> Frobenius_coeffs_c2 = toy::tab2<integral_type, 6>(NR, P, 3, 2);
        constexpr static const non_residue_type non_residue = non_residue_type(X.a, X.b);
    };
    template<unsigned long P, unsigned long NR>
    class fp12_2over3over2_extension_params<toy::fp<P, NR>> : public params<toy::fp<P, NR>> {
        typedef toy::fp<P, NR> base_field_type;
        typedef params<base_field_type> policy_type;
        constexpr static toy::c2 X = toy::xi(NR, P);

    public:
        using field_type = fields::fp12_2over3over2<base_field_type>;
        typedef typename policy_type::integral_type integral_type;
        constexpr static const integral_type modulus = policy_type::modulus;
        typedef fields::fp2<base_field_type> non_residue_field_type;
        typedef typename non_residue_field_type::value_type non_residue_type;
        typedef fields::fp6_3over2<base_field_type> underlying_field_type;
        typedef typename underlying_field_type::value_type underlying_type;
        constexpr static const std::array<integral_type, 24> Frobenius_coeffs_c1 = toy::tab2<integral_type, 12>(NR, P, 6, 1);
        constexpr static const non_residue_type non_residue = non_residue_type(X.a, X.b);
    };
}}}}}    // namespace nil::crypto3::algebra::fields::detail
