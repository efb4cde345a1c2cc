// Stand-in for a header the repository refers to but does not contain: the sign of a field element
// (RFC 9380, section 4.1).
#pragma once
#include <nil/crypto3/algebra/curves/bls12.hpp>
namespace nil { namespace crypto3 { namespace algebra { namespace curves { namespace detail {
    template<typename P> bool sgn0(const fields::detail::element_fp<P> &e) { return boost::multiprecision::bit_test(typename fields::detail::element_fp<P>::integral_type(e.data), 0); }
    template<typename P> bool sgn0(const fields::detail::element_fp2<P> &e) { return sgn0(e.data[0]) || (e.data[0].is_zero() && sgn0(e.data[1])); }
} } } } }
