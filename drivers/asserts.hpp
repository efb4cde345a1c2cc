// What the compile-time assertions of detail/assert.hpp let pass, as values: static_assert is made to record its
// condition where the macros are expanded.
#pragma once
#include <nil/crypto3/algebra/type_traits.hpp>
#include <nil/crypto3/detail/assert.hpp>
#define static_assert(condition, message) ok = ok && (condition);
namespace asserts {
    using namespace nil::crypto3;
#define ASSERTION(W) template<typename T> bool holds_##W() { bool ok = true; CRYPTO3_DETAIL_ASSERT_##W(T) return ok; }
    ASSERTION(FLOATING_POINT)
    ASSERTION(INTEGRAL)
    ASSERTION(VALID_COMPLEX)
    ASSERTION(ARITHMETIC)
    ASSERTION(REAL)
    ASSERTION(COMPLEX)
}
#undef static_assert
#define HOLDS(W, ...) asserts::holds_##W<__VA_ARGS__>()
