#include "linalg.hpp"
#define DECL(T) extern template void FN<T>(const Val &);
// shapes beyond 4 x 4
static bool big(const Val &v) {
    if (v.atom) return false;
    for (auto &x : v.e) if (x.atom ? false : x.size() > 4 || big(x)) return true;
    return false;
}
int main(int argc, char **argv) {
    return rp::run(argc, argv, [](const Val &c) {
#if defined(ELIM)
        elim_case<double>(c);
        elim_case<float>(c);
        elim_case<long double>(c);
#else
        bool re = isreal(c[2]) && (c[3].atom || isreal(c[3]));
#if defined(VEC)
#define CASE vec_case
#elif defined(PROD)
#define CASE prod_main
#else
#define CASE mat_case
#endif
#ifndef VEC
        bool large = big(c[2]);
        if (c[0].s == "identity" || c[0].s == "mfill" || c[0].s == "mgen") for (auto &x : c[1].e) large = large || x.i() > 4;
        if (large) { if (re) CASE<long>(c); return; }
#endif
        CASE<std::complex<double>>(c);
        if (re) {
            CASE<int>(c);
            CASE<long>(c);
            CASE<double>(c);
#ifndef NOFIELD
            CASE<F1>(c);
#endif
            if (nonneg(c[2]) && (c[3].atom || nonneg(c[3])) && c[0].s != "velem" && c[0].s != "melem")
                CASE<std::size_t>(c);
        }
#endif
    });
}
