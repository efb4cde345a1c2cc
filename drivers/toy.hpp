// Toy instantiations of the library's field and curve templates, small enough to enumerate.
// Only sizes and constants are chosen here; every algorithm comes from /repo.
#pragma once
#include <array>
#include <cassert>
#include <cstdint>
#include <iostream>
#include <type_traits>
#include <vector>
#include <nil/crypto3/algebra/type_traits.hpp>
#include <nil/crypto3/algebra/fields/detail/element/fp.hpp>
#include <nil/crypto3/algebra/fields/params.hpp>
#include <nil/crypto3/algebra/fields/field.hpp>
#include <nil/crypto3/algebra/fields/fp2.hpp>

namespace alg = nil::crypto3::algebra;

namespace toy {
    constexpr std::size_t bits_of(unsigned long x) { std::size_t n = 0; while (x) { ++n; x >>= 1; } return n; }
    constexpr unsigned long powmod(unsigned long b, unsigned long e, unsigned long m) {
        unsigned long r = 1 % m;
        for (b %= m; e; e >>= 1, b = b * b % m) if (e & 1) r = r * b % m;
        return r;
    }
    constexpr unsigned long nonresidue(unsigned long p) {       // smallest quadratic non-residue
        for (unsigned long n = 2; n < p; ++n) if (powmod(n, (p - 1) / 2, p) == p - 1) return n;
        return 0;
    }

    template<unsigned long P, unsigned long NR = nonresidue(P)>
    class fp : public alg::fields::field<bits_of(P)> {
    public:
        typedef alg::fields::field<bits_of(P)> policy_type;
        constexpr static const std::size_t modulus_bits = policy_type::modulus_bits;
        constexpr static const std::size_t number_bits = policy_type::number_bits;
        constexpr static const std::size_t value_bits = modulus_bits;
        constexpr static const std::size_t arity = 1;
        typedef typename policy_type::integral_type integral_type;
        typedef typename policy_type::extended_integral_type extended_integral_type;
        constexpr static const integral_type modulus = integral_type(P);
        constexpr static const integral_type group_order_minus_one_half = integral_type((P - 1) / 2);
        typedef typename policy_type::modular_backend modular_backend;
        typedef typename policy_type::modular_params_type modular_params_type;
        constexpr static const modular_params_type modulus_params = modulus.backend();
        typedef boost::multiprecision::number<boost::multiprecision::backends::modular_adaptor<
            modular_backend, boost::multiprecision::backends::modular_params_ct<modular_backend, modulus_params>>>
            modular_type;
        typedef alg::fields::detail::element_fp<alg::fields::params<fp<P, NR>>> value_type;
    };

    // F_{p^2} helper arithmetic (constants only)
    struct c2 { unsigned long a, b; };
    constexpr c2 mul2(c2 x, c2 y, unsigned long nr, unsigned long p) {
        return c2 {(x.a * y.a + nr * (x.b * y.b % p)) % p, (x.a * y.b + x.b * y.a) % p};
    }
    constexpr c2 pow2(c2 x, unsigned long e, unsigned long nr, unsigned long p) {
        c2 r {1, 0};
        for (; e; e >>= 1, x = mul2(x, x, nr, p)) if (e & 1) r = mul2(r, x, nr, p);
        return r;
    }
    constexpr c2 nqr2(unsigned long nr, unsigned long p) {
        for (unsigned long a = 0; a < p; ++a) {
            c2 r = pow2(c2 {a, 1}, (p * p - 1) / 2, nr, p);
            if (r.a == p - 1 && r.b == 0) return c2 {a, 1};
        }
        return c2 {0, 0};
    }
    constexpr std::size_t two_adicity(unsigned long n) { std::size_t s = 0; while (n % 2 == 0) { n /= 2; ++s; } return s; }
    constexpr unsigned long odd_part(unsigned long n) { while (n % 2 == 0) n /= 2; return n; }
}    // namespace toy

namespace nil { namespace crypto3 { namespace algebra { namespace fields { namespace detail {
    template<unsigned long P, unsigned long NR>
    class fp2_extension_params<toy::fp<P, NR>> : public params<toy::fp<P, NR>> {
        typedef toy::fp<P, NR> base_field_type;
        typedef params<base_field_type> policy_type;
        constexpr static unsigned long Q = P * P - 1;
        constexpr static toy::c2 N = toy::nqr2(NR, P);
        constexpr static toy::c2 NT = toy::pow2(N, toy::odd_part(Q), NR, P);

    public:
        using field_type = fields::fp2<base_field_type>;
        typedef typename policy_type::integral_type integral_type;
        typedef typename policy_type::extended_integral_type extended_integral_type;
        constexpr static const integral_type modulus = policy_type::modulus;
        typedef base_field_type non_residue_field_type;
        typedef typename non_residue_field_type::value_type non_residue_type;
        typedef base_field_type underlying_field_type;
        typedef typename underlying_field_type::value_type underlying_type;
        constexpr static const std::size_t s = toy::two_adicity(Q);
        constexpr static const extended_integral_type t = extended_integral_type(toy::odd_part(Q));
        constexpr static const extended_integral_type t_minus_1_over_2 = extended_integral_type((toy::odd_part(Q) - 1) / 2);
        constexpr static const std::array<integral_type, 2> nqr = {integral_type(N.a), integral_type(N.b)};
        constexpr static const std::array<integral_type, 2> nqr_to_t = {integral_type(NT.a), integral_type(NT.b)};
        constexpr static const extended_integral_type group_order_minus_one_half = extended_integral_type(Q / 2);
        constexpr static const std::array<integral_type, 2> Frobenius_coeffs_c1 = {integral_type(1ul), integral_type(P - 1)};
        constexpr static const non_residue_type non_residue = non_residue_type(integral_type(NR));
    };
}}}}}    // namespace nil::crypto3::algebra::fields::detail

namespace toy {
    // element <-> index (base-p digits of the index are the coefficients)
    template<typename V> struct codec;
    template<typename FP> struct codec<alg::fields::detail::element_fp<FP>> {
        using V = alg::fields::detail::element_fp<FP>;
        static unsigned long p() { return static_cast<unsigned long>(FP::modulus); }
        static unsigned long q() { return p(); }
        static V dec(unsigned long i) { return V(typename V::integral_type(i % p())); }
        static unsigned long enc(const V &v) { return static_cast<unsigned long>(typename V::integral_type(v.data)); }
    };
    template<typename FP> struct codec<alg::fields::detail::element_fp2<FP>> {
        using V = alg::fields::detail::element_fp2<FP>;
        using U = codec<typename V::underlying_type>;
        static unsigned long q() { return U::q() * U::q(); }
        static V dec(unsigned long i) { return V(U::dec(i % U::q()), U::dec(i / U::q())); }
        static unsigned long enc(const V &v) { return U::enc(v.data[0]) + U::q() * U::enc(v.data[1]); }
    };
}    // namespace toy
