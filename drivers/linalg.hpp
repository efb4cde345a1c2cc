// Replays VecMachine / MatMachine / ElimMachine transitions on the real vector and matrix templates.
#pragma once
#include "common.hpp"
#include <algorithm>
#include <cmath>
#include <complex>
#include <cstddef>
#include <functional>
#include <limits>
#include <type_traits>

#include <nil/crypto3/algebra/matrix/matrix.hpp>
#include <nil/crypto3/algebra/matrix/math.hpp>
#include <nil/crypto3/algebra/matrix/operators.hpp>
#include <nil/crypto3/algebra/matrix/utility.hpp>
#include <nil/crypto3/algebra/vector/vector.hpp>
#include <nil/crypto3/algebra/vector/math.hpp>
#include <nil/crypto3/algebra/vector/operators.hpp>
#include <nil/crypto3/algebra/vector/utility.hpp>

#include "toy.hpp"

namespace A = nil::crypto3::algebra;
using ldouble = long double;
using rp::Val;
using std::size_t;

template<typename T> struct is_cx : std::false_type { using real = T; };
template<typename T> struct is_cx<std::complex<T>> : std::true_type { using real = T; };
template<typename T> constexpr bool cx = is_cx<T>::value;
template<typename T> using real_t = typename is_cx<T>::real;
template<typename T> constexpr bool flt = std::is_floating_point<real_t<T>>::value;

// Elements of a prime field: the images of the integers under the ring homomorphism that reduces modulo 65519
// (more than twice every magnitude used, so different integers have different images).
using F1 = toy::fp<65519, 65518>::value_type;
template<typename T> constexpr bool fe = std::is_same<T, F1>::value;
inline F1 f1(long x) { return x < 0 ? -F1(F1::integral_type((unsigned long)-x)) : F1(F1::integral_type((unsigned long)x)); }

// Every case is also replayed with all arguments multiplied by a factor c: an operation that is homogeneous of
// degree d must multiply its result by c^d.  in_ and out_ are those factors (exact by choice: see scales()).
inline double in_ = 1, out_ = 1;          // floating-point kinds
inline long lin_ = 1, lout_ = 1;          // integer kinds
// <<re, im>> -> T
template<typename T> T mks(const Val &v, double f, long l) {
    if constexpr (fe<T>) return f1(v[0].i()) * f1(l);
    else if constexpr (cx<T>) return T((real_t<T>)v[0].i() * (real_t<T>)f, (real_t<T>)v[1].i() * (real_t<T>)f);
    else if constexpr (flt<T>) return (T)v[0].i() * (T)f;
    else return (T)v[0].i() * (T)l;
}
template<typename T> T mk(const Val &v) { return mks<T>(v, in_, lin_); }
template<typename T> T mkr(const Val &v) { return mks<T>(v, out_, lout_); }
inline bool isreal(const Val &v) {     // any nesting of <<re, im>> with im = 0
    if (v.size() == 2 && v[0].atom) return v[1].i() == 0;
    for (auto &x : v.e) if (!isreal(x)) return false;
    return true;
}
inline bool nonneg(const Val &v) {
    if (v.size() == 2 && v[0].atom) return v[0].i() >= 0;
    for (auto &x : v.e) if (!nonneg(x)) return false;
    return true;
}
template<typename T> bool same(const T &x, const T &y) { return x == y; }
template<typename T> bool close(const T &x, const T &y, double f = 64) {
    if constexpr (!flt<T>) return x == y;
    else {
    real_t<T> eps = std::numeric_limits<real_t<T>>::epsilon();
    double d = (double)std::abs(x - y), m = std::max(std::abs(out_), std::max((double)std::abs(x), (double)std::abs(y)));
    return d <= f * (double)eps * m;      // false for NaN
    }
}

template<size_t Lo, size_t Hi, typename F> void with(size_t n, F &&f) {
    if constexpr (Lo <= Hi) {
        if (n == Lo) f(std::integral_constant<size_t, Lo> {});
        else with<Lo + 1, Hi>(n, std::forward<F>(f));
    } else throw std::runtime_error("case: dimension out of the driver's range");
}

template<typename T, size_t N> A::vector<T, N> mkv(const Val &v) {
    A::vector<T, N> r {};
    for (size_t i = 0; i < N; ++i) r[i] = mk<T>(v[i]);
    return r;
}
template<typename T, size_t M, size_t N> A::matrix<T, M, N> mkm(const Val &v) {
    A::matrix<T, M, N> r {};
    for (size_t i = 0; i < M; ++i)
        for (size_t j = 0; j < N; ++j) r[i][j] = mk<T>(v[i][j]);
    return r;
}
template<typename T, size_t N> std::string show(const A::vector<T, N> &v) {
    std::ostringstream o; o.precision(17); o << "[";
    for (size_t i = 0; i < N; ++i) o << (i ? " " : "") << v[i];
    o << "]"; return o.str();
}
template<typename T, size_t M, size_t N> std::string show(const A::matrix<T, M, N> &v) {
    std::ostringstream o; o.precision(17); o << "[";
    for (size_t i = 0; i < M; ++i) { for (size_t j = 0; j < N; ++j) o << (j ? " " : (i ? "; " : "")) << v[i][j]; }
    o << "]"; return o.str();
}

template<typename T> struct tname;
template<> struct tname<int> { static constexpr const char *v = "int"; };
template<> struct tname<long> { static constexpr const char *v = "long"; };
template<> struct tname<size_t> { static constexpr const char *v = "size_t"; };
template<> struct tname<double> { static constexpr const char *v = "double"; };
template<> struct tname<F1> { static constexpr const char *v = "fp"; };
template<> struct tname<long double> { static constexpr const char *v = "long double"; };
template<> struct tname<float> { static constexpr const char *v = "float"; };
template<> struct tname<std::complex<double>> { static constexpr const char *v = "complex"; };
template<> struct tname<std::complex<float>> { static constexpr const char *v = "complexf"; };

// Comparison of a computed vector / matrix / scalar with the specified value.
template<typename T, size_t N> void expv(const std::string &k, const A::vector<T, N> &got, const Val &want, bool approx = false) {
    bool ok = want.size() == N;
    for (size_t i = 0; ok && i < N; ++i) {
        T w = mkr<T>(want[i]);
        ok = approx ? close(got[i], w) : same(got[i], w);
    }
    rp::report().check(ok, k, [&] { return "got " + show(got); });
}
template<typename T, size_t M, size_t N> void expm(const std::string &k, const A::matrix<T, M, N> &got, const Val &want, bool approx = false) {
    bool ok = want.size() == M && want[0].size() == N;
    for (size_t i = 0; ok && i < M; ++i)
        for (size_t j = 0; ok && j < N; ++j) {
            T w = mkr<T>(want[i][j]);
            ok = approx ? close(got[i][j], w) : same(got[i][j], w);
        }
    rp::report().check(ok, k, [&] { return "got " + show(got); });
}
template<typename T> void exps(const std::string &k, const T &got, const Val &want, bool approx = false) {
    T w = mkr<T>(want);
    rp::report().check(approx ? close(got, w) : same(got, w), k, [&] { return "got " + rp::str(got); });
}
inline void expb(const std::string &k, bool got, bool want) {
    rp::report().check(got == want, k, [&] { return std::string("got ") + (got ? "true" : "false"); });
}
template<typename X> void unchanged(const std::string &k, const X &now, const X &before) {
    bool eq = true;
    if constexpr (fe<typename X::value_type>) eq = now == before;
    else {
    const unsigned char *a = (const unsigned char *)&now, *b = (const unsigned char *)&before;
    for (size_t i = 0; i < sizeof(X); ++i) eq = eq && a[i] == b[i];
    }
    rp::report().check(eq, k + " operand unchanged", [&] { return "operand became " + show(now); });
}
// a small integer as an element
template<typename T> T num(long x) { if constexpr (fe<T>) return f1(x); else return T(x); }
template<typename T> void vec_case(const Val &c);
template<typename T> void mat_case(const Val &c);
template<typename T> void prod_case(const Val &c);
template<typename T> void prod_main(const Val &c);
template<typename T> void elim_case(const Val &c);

// degree of homogeneity of each operation (0: not homogeneous, replayed unscaled only)
inline int degree(const std::string &op) {
    static const char *one[] = {"vget", "veq", "vadds", "saddv", "vaddv", "vconj", "vreal", "vimag", "vsum", "vmin", "vmax", "vminix",
        "vmaxix", "vlinspace", "vfill", "vconcat", "vslice", "vrot", "velem", "vaccum", "vmake",
        "mget", "meq", "madds", "saddm", "maddm", "mconj", "mreal", "mimag", "transpose", "hermitian", "row", "column", "horzcat",
        "vertcat", "submat", "reshape", "repmat", "swaprow", "swapcol", "mfill", "melem", "ascol", "asrow", "trace", "macs", "mars"};
    static const char *two[] = {"vmuls", "smulv", "vmulv", "vdot", "mmuls", "smulm", "mmulm", "matmul", "matvec", "vecmat", "kron"};
    for (auto o : one) if (op == o) return 1;
    for (auto o : two) if (op == o) return 2;
    return 0;
}
inline long largest(const Val &v) {
    if (v.atom) { try { return std::labs(v.i()); } catch (...) { return 0; } }
    long m = 0;
    for (auto &x : v.e) m = std::max(m, largest(x));
    return m;
}
// Runs f for every factor that keeps a value of `bits' significant bits exact in T.
template<typename T, typename F> void scales(const std::string &op, const Val &a, const Val &r, F f) {
    f();
    int d = degree(op);
    if (!d) return;
    int b = 0;                                     // bits of any intermediate value: at most 16 terms, factors up to 3
    for (long m = largest(a); m; m >>= 1) ++b;
    b = b * d + 6;
    int q = 0;
    for (long m = r.atom ? 0 : largest(r); m; m >>= 1) ++q;
    b = std::max(b, q + 2);
    if constexpr (fe<T>) {                         // any element will do
        if (op == "vmin" || op == "vmax" || op == "vminix" || op == "vmaxix") return;
        lin_ = 40503; lout_ = d == 1 ? lin_ : lin_ * lin_ % 65519; f();
    } else if constexpr (flt<T>) {
        int room = (std::numeric_limits<real_t<T>>::digits - b) / d - 1;
        int ex = (std::is_same<real_t<T>, float>::value ? 80 : 900) / d;
        for (int e : {0, ex, -ex}) {
            double c = std::ldexp(room >= 1 ? std::ldexp(1.0, room) + 1 : 1.0, e);
            in_ = c; out_ = d == 1 ? c : c * c; f();
        }
        if (op != "vmin" && op != "vmax" && op != "vminix" && op != "vmaxix") { in_ = -1; out_ = d == 1 ? -1 : 1; if (op != "macs" && op != "mars") f(); }
    } else {
        int room = (int)(std::numeric_limits<T>::digits - b) / d - 1;
        if (room >= 1) { lin_ = (1L << room) + 1; lout_ = d == 1 ? lin_ : lin_ * lin_; f(); }
    }
    in_ = out_ = 1; lin_ = lout_ = 1;
}
