// Stand-in for a header the repository refers to but does not contain: the suites of BLS12-381
// (RFC 9380, sections 8.8.1 and 8.8.2): the curve y^2 = x^3 + Ai x + Bi isogenous to the group's, and Z.
#pragma once
#include <vector>
#include <nil/crypto3/algebra/curves/bls12.hpp>
namespace nil { namespace crypto3 { namespace algebra { namespace curves { namespace detail {
    template<typename GroupType> struct h2c_suite;
    template<> struct h2c_suite<typename bls12_381::g1_type<>> {
        typedef typename bls12_381::g1_type<> group_type;
        typedef typename group_type::value_type group_value_type;
        typedef typename group_type::field_type::value_type field_value_type;
        typedef typename group_type::field_type::integral_type integral_type;
        inline static const field_value_type Z = field_value_type(11u);
        inline static const field_value_type Ai = field_value_type(integral_type("0x144698a3b8e9433d693a02c96d4982b0ea985383ee66a8d8e8981aefd881ac98936f8da0e0f97f5cf428082d584c1d"));
        inline static const field_value_type Bi = field_value_type(integral_type("0x12e2908d11688030018b12e8753eee3b2016c1f0f24f4070a0b9c14fcef35ef55a23215a316ceaa5d1cc48e98e172be0"));
    };
    template<> struct h2c_suite<typename bls12_381::g2_type<>> {
        typedef typename bls12_381::g2_type<> group_type;
        typedef typename group_type::value_type group_value_type;
        typedef typename group_type::field_type::value_type field_value_type;
        typedef typename group_type::field_type::integral_type integral_type;
        inline static const field_value_type Z = -field_value_type(integral_type(2u), integral_type(1u));
        inline static const field_value_type Ai = field_value_type(integral_type(0u), integral_type(240u));
        inline static const field_value_type Bi = field_value_type(integral_type(1012u), integral_type(1012u));
    };
} } } } }
