// The stored constants of a pairing, for PairingConstants.qnt.
#pragma once
#include "nf.hpp"
namespace pr {
#define PR_OPT(NAME, AS)                                                                                  \
    template<typename T, typename = void> struct opt_##NAME { static void f(std::ostream &, const std::string &) { } }; \
    template<typename T> struct opt_##NAME<T, std::void_t<decltype(T::NAME)>> { static void f(std::ostream &o, const std::string &k) { nf::put(o, k, AS, std::decay_t<decltype(T::NAME)>(T::NAME)); } };
    PR_OPT(final_exponent, "final_exponent")
    PR_OPT(final_exponent_last_chunk_abs_of_w0, "w0") PR_OPT(final_exponent_last_chunk_is_w0_neg, "w0_neg") PR_OPT(final_exponent_last_chunk_w1, "w1")
    PR_OPT(final_exponent_z, "z") PR_OPT(final_exponent_is_z_neg, "z_neg") PR_OPT(twist_coeff_a, "twist_a") PR_OPT(twist_coeff_b, "twist_b")
    template<typename P> struct constants {
        constants(const std::string &key) {
            nf::dumps().push_back({key, [](std::ostream &o, const std::string &k0) {
                const std::string k = k0 + " pairing";
                nf::put(o, k, "max_bits", std::size_t(P::integral_type_max_bits));
                nf::put(o, k, "loop", typename P::integral_type(P::ate_loop_count));
                nf::put(o, k, "twist", std::decay_t<decltype(P::twist)>(P::twist));
                opt_final_exponent<P>::f(o, k); opt_final_exponent_last_chunk_abs_of_w0<P>::f(o, k); opt_final_exponent_last_chunk_is_w0_neg<P>::f(o, k);
                opt_final_exponent_last_chunk_w1<P>::f(o, k); opt_final_exponent_z<P>::f(o, k); opt_final_exponent_is_z_neg<P>::f(o, k);
                opt_twist_coeff_a<P>::f(o, k); opt_twist_coeff_b<P>::f(o, k);
            }});
        }
    };
}    // namespace pr
