// Named fields: every stored constant is dumped for the specification to judge (Constants.qnt),
// and the element type is registered for replay (tw_ops.hpp).
#pragma once
#include "tw_ops.hpp"
#include <fstream>

namespace nf {
    struct Dump { std::string key; std::function<void(std::ostream &, const std::string &)> f; };
    inline std::vector<Dump> &dumps() { static std::vector<Dump> d; return d; }
    template<typename T> std::string num(const T &x) {
        if constexpr (std::is_integral<T>::value) return std::to_string(x);
        else return rp::str(x);
    }
    template<typename T> struct is_array : std::false_type { };
    template<typename T, std::size_t N> struct is_array<std::array<T, N>> : std::true_type { };
    template<typename T> struct is_elem { static constexpr bool value = tw::kind<T>::value != 0; };
    template<typename T> void put(std::ostream &o, const std::string &key, const char *name, const T &x) {
        o << key << ' ' << name;
        if constexpr (is_array<T>::value) {
            for (auto &e : x) {
                using E = std::decay_t<decltype(e)>;
                if constexpr (is_elem<E>::value) { for (auto &c : tw::enc(e)) o << ' ' << rp::str(c); }
                else o << ' ' << num(e);
            }
        } else if constexpr (is_elem<T>::value) { for (auto &c : tw::enc(x)) o << ' ' << rp::str(c); }
        else o << ' ' << num(x);
        o << '\n';
    }
    // constants a class may or may not have
#define NF_FIELD(NAME)                                                                                   \
    template<typename T, typename = void> struct get_##NAME { static void f(std::ostream &, const std::string &) { } }; \
    template<typename T> struct get_##NAME<T, std::void_t<decltype(T::NAME)>> { static void f(std::ostream &o, const std::string &k) { put(o, k, #NAME, std::decay_t<decltype(T::NAME)>(T::NAME)); } };
#define NF_ALL(X) X(modulus) X(modulus_bits) X(number_bits) X(value_bits) X(arity) X(s) X(t) X(t_minus_1_over_2) \
    X(arithmetic_generator) X(geometric_generator) X(multiplicative_generator) X(mul_generator) X(root_of_unity) X(nqr) X(nqr_to_t) X(Rsquared) X(Rcubed) X(group_order) \
    X(non_residue) X(Frobenius_coeffs_c1) X(Frobenius_coeffs_c2)
    NF_ALL(NF_FIELD)
    NF_FIELD(group_order_minus_one_half)
    // the half order is read only where the base field has one (params<> names it for every field)
    template<typename T, bool Half> void all(std::ostream &o, const std::string &k) {
        if constexpr (Half) get_group_order_minus_one_half<T>::f(o, k);
#define NF_CALL(NAME) get_##NAME<T>::f(o, k);
        NF_ALL(NF_CALL)
    }
    template<typename F> struct prime {
        using V = typename F::value_type;
        tw::reg<V> r;
        prime(const std::string &key) : r(key, "fp") {
            dumps().push_back({key, [](std::ostream &o, const std::string &k) { all<F, tw::squareness<V>>(o, k + " field"); }});
        }
    };
    template<typename F> struct ext {
        using V = typename F::value_type;
        tw::reg<V> r;
        ext(const std::string &key, const std::string &nm) : r(key, nm) {
            dumps().push_back({key, [](std::ostream &o, const std::string &k) { all<F, tw::squareness<V>>(o, k + " field"); all<typename F::extension_policy, tw::squareness<V>>(o, k + " ext"); }});
        }
    };
    template<typename F, typename A> struct arith {
        using V = typename F::value_type;
        arith(const std::string &key) { dumps().push_back({key, [](std::ostream &o, const std::string &k) { all<A, tw::squareness<V>>(o, k + " arith"); }}); }
    };
}    // namespace nf
