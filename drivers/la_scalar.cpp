// Replays the transitions of specs/Scalar.qnt into the library's scalar helpers.
#include "common.hpp"
#include <cmath>
#include <complex>
#include <limits>
#include <nil/crypto3/algebra/scalar/math.hpp>

using namespace rp;
namespace A = nil::crypto3::algebra;

// m * 2^e as a long double: exact for |m| < 2^64
static long double val(const Val &v, std::size_t i = 0) {
    long double m = std::strtold(v[i].s.c_str(), nullptr);
    return std::ldexp(m, (int)v[i + 1].i());
}
template<typename T> static void close(const std::string &key, T got, long double want, long double ulps) {
    long double eps = std::numeric_limits<T>::epsilon(), mn = std::numeric_limits<T>::min();
    bool ok;
    if (std::fabs(want) > (long double)std::numeric_limits<T>::max() * (1 - ulps * eps))
        ok = std::isinf(got) || std::fabs((long double)got - want) <= ulps * eps * std::fabs(want);
    else if (std::fabs(want) < mn * 16)    // subnormal results and powers through overflowing intermediates
        ok = std::fabs(got) <= mn * 32;
    else
        ok = std::fabs((long double)got - want) <= ulps * eps * std::fabs(want);
    if (want == 0) ok = got == 0;
    report().check(ok, key, [&] { return "returned " + str(got) + ", mathematical value " + str((double)want); });
}
template<typename F> static void throws(const std::string &key, F f) {
    bool t = false;
    try { f(); } catch (...) { t = true; }
    report().check(t, key, [&] { return std::string("did not reject an argument outside the domain"); });
}
template<typename T> static void eq(const std::string &key, T got, T want) {
    report().check(got == want, key, [&] { std::ostringstream o; o << "returned " << got << ", expected " << want; return o.str(); });
}

static void handle(const Val &v) {
    const std::string op = v[0].s;
    const Val &a = v[2], &r = v[3];
    if (op == "sqrt") {
        close<double>("sqrt", A::sqrt((double)val(a)), val(r), 4);
    } else if (op == "sqrtf") {
        close<float>("sqrt float", A::sqrt((float)val(a)), val(r), 4);
    } else if (op == "sqrtneg") {
        throws("sqrt", [&] { volatile double x = A::sqrt((double)val(a)); (void)x; });
    } else if (op == "nthroot") {
        close<double>("nthroot", A::nthroot((double)val(a), (int)a[2].i()), val(r), 16);
    } else if (op == "nthrootneg") {
        throws("nthroot", [&] { volatile double x = A::nthroot((double)val(a), (int)a[2].i()); (void)x; });
    } else if (op == "pow") {
        int k = (int)a[2].i();
        double x = (double)val(a);
        long double want = val(r);
        long double ulps = std::fabs(x) == 1 || x == 0 ? 0 : 2 * std::fabs((long double)k) + 8;
        // negative powers may be computed through the reciprocal or through a power that over- or underflows:
        // only results whose reciprocal is in range as well are compared
        if (want == 0 || (std::fabs(want) < 1e300L && std::fabs(want) > 1e-300L))
            close<double>("exponentiate", A::exponentiate(x, k), want, ulps);
    } else if (op == "abs") {
        long x = a[0].i(), w = r[0].i();
        eq<int>("abs int", A::abs((int)x), (int)w);
        eq<long>("abs long", A::abs(x * 1048583L), w * 1048583L);
        eq<double>("abs double", A::abs((double)x / 1024), (double)w / 1024);
        eq<float>("abs float", A::abs((float)x), (float)w);
        // the complex overload agrees on the real axis
        close<double>("abs complex", A::abs(std::complex<double>((double)x, 0)), (long double)w, 4);
        close<double>("abs complex", A::abs(std::complex<double>(0, (double)x)), (long double)w, 4);
        eq<double>("conj", A::conj((double)x), (double)x);
        eq<int>("conj int", A::conj((int)x), (int)x);
        eq<long>("conj long", A::conj(x * 1048583L), x * 1048583L);
    } else if (op == "absc") {
        double x = (double)a[0].i(), y = (double)a[1].i();
        close<double>("abs complex", A::abs(std::complex<double>(x, y)), val(r), 4);
        if (std::fabs(x) < 4000 && std::fabs(y) < 4000)
            close<float>("abs complex float", A::abs(std::complex<float>((float)x, (float)y)), val(r), 4);
    } else if (op == "abscfar") {
        double x = (double)a[0].i(), y = (double)a[1].i();
        int e = (int)a[2].i();
        close<double>("abs complex", A::abs(std::complex<double>(std::ldexp(x, e), std::ldexp(y, e))), val(r), 4);
        close<double>("abs complex", A::abs(std::complex<double>(std::ldexp(y, e), std::ldexp(x, e))), val(r), 4);
    } else if (op == "abscfarf") {
        float x = (float)a[0].i(), y = (float)a[1].i();
        int e = (int)a[2].i();
        close<float>("abs complex float", A::abs(std::complex<float>(std::ldexp(x, e), std::ldexp(y, e))), val(r), 4);
    } else if (op == "inf") {
        double inf = std::numeric_limits<double>::infinity(), y = (double)a[1].i();
        eq<double>("sqrt of infinity", A::sqrt(inf), inf);
        eq<float>("sqrt float of infinity", A::sqrt((float)inf), (float)inf);
        eq<double>("nthroot of infinity", A::nthroot(inf, (int)a[0].i()), inf);
        eq<double>("abs complex of infinity", A::abs(std::complex<double>(y, -inf)), inf);
        eq<double>("abs complex of infinity", A::abs(std::complex<double>(inf, y)), inf);
        eq<double>("abs of infinity", A::abs(-inf), inf);
    } else if (op == "conj") {
        double x = (double)a[0].i(), y = (double)a[1].i();
        std::complex<double> z(x, y);
        eq("conj", A::conj(z), std::complex<double>((double)r[0].i(), (double)r[1].i()));
        eq("conj float", A::conj(std::complex<float>((float)x, (float)y)), std::complex<float>((float)x, -(float)y));
        eq("operand unchanged", z, std::complex<double>(x, y));
    } else
        report().fail("driver", "unknown operation " + op);
}
int main(int argc, char **argv) { return run(argc, argv, handle, 2); }
