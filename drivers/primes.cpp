// Replays PrimeMachine and PrimeWalk through the prime and totient helpers.
#include <vector>
#include <boost/assert.hpp>
#include <nil/crypto3/multiprecision/cpp_int_modular.hpp>
#include <nil/crypto3/algebra/totient.hpp>
#include "common.hpp"
namespace A = nil::crypto3::algebra;
namespace mp = boost::multiprecision;
using rp::Val;
typedef mp::number<mp::backends::cpp_int_modular_backend<512>> I;

template<typename T> T num(const std::string &s) {
    if constexpr (std::is_integral<T>::value) return (T)std::stoull(s);
    else return T(s);
}
template<typename T> std::string text(const T &v) {
    if constexpr (std::is_integral<T>::value) return std::to_string(v);
    else return v.str();
}
template<typename C> std::string texts(const C &c) {
    std::string s;
    for (auto &x : c) s += (s.empty() ? "" : " ") + text(x);
    return s;
}
std::string atoms(const Val &v) {
    std::string s;
    for (auto &x : v.e) s += (s.empty() ? "" : " ") + x.s;
    return s;
}
void same(const std::string &k, const std::string &got, const std::string &want) {
    rp::report().check(got == want, k, [&] { return "got " + got + ", specified " + want; });
}
void factors(const std::string &k, const I &n, const std::string &want) {
    std::set<I> s;
    A::prime_factorize(n, s);
    same(k, texts(s), want);
    const std::set<I> once = s;
    A::prime_factorize(n, s);        // into a set that already holds them
    rp::report().check(s == once, k + " again", [] { return "the set changed"; });
}
void divisor(const std::string &k, const I &n) {
    const I d = A::pollard_rho_factorization(n);
    rp::report().check(d > 1u && d < n && (n % d).is_zero(), k, [&] { return "got " + d.str() + " for " + n.str(); });
}
template<typename T> void step(const std::string &op, const Val &p, const Val &a, const std::string &want) {
    const std::string k = op + (std::is_integral<T>::value ? " word" : " number");
    if (op == "first") return same(k, text(A::first_prime<T>(p[0].i(), p[1].i())), want);
    const T q = num<T>(a.s), q0 = q;
    same(k, text(op == "next" ? A::next_prime<T>(q, p[0].i()) : A::previous_prime<T>(q, p[0].i())), want);
    rp::report().check(q == q0, k + " argument", [] { return "argument changed"; });
}

int main(int argc, char **argv) {
    return rp::run(argc, argv, [](const Val &c) {
        const std::string &op = c[0].s;
        const Val &p = c[1], &a = c[2].atom ? c[2] : c[2][0], &r = c[3];
        {
            if (op == "factors") factors(op, I(a.s), atoms(r));
            else if (op == "divisor") { if (r.size() > 1 || I(a.s) > num<I>(r[0].s)) divisor(op, I(a.s)); }
            else if (op == "totient") same(op, A::totient(I(a.s)).str(), r.s);
            else if (op == "whole") {
                const I n(a.s);
                factors("factors large", n, atoms(r[0]));
                if (r[0].size() > 1 || n > num<I>(r[0][0].s)) divisor("divisor large", n);
                same("totient large", A::totient(n).str(), r[1].s);
            } else if (op == "coprimes") {
                same(op + " word", texts(A::totient_list<unsigned>(a.i())), atoms(r));
                same(op + " long", texts(A::totient_list<long>(a.i())), atoms(r));
                same(op + " number", texts(A::totient_list<I>(I(a.s))), atoms(r));
            } else if (op == "first" || op == "next" || op == "previous") {
                const std::string want = r.atom ? r.s : r[0].s;
                step<I>(op, p, a, want);
                step<std::uint64_t>(op, p, a, want);
                step<mp::number<mp::backends::cpp_int_modular_backend<256>>>(op, p, a, want);
            } else throw std::runtime_error("case: unknown operation " + op);
        }
    }, 60);
}
