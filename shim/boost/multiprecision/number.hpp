// Stand-in for crypto3-multiprecision (absent from this sandbox): fixed-width unsigned
// integers and Montgomery residues, constexpr, in plain C++17.  Part of the trusted base of
// /verif; it is not code under test.  Only the interface crypto3-algebra uses is provided.
//
//   number<cpp_int_modular_backend<Bits>>           unsigned integer, wraps modulo 2^(64*ceil(Bits/64))
//   number<modular_adaptor<Backend, SafeType>>      residue modulo the SafeType's modulus (odd)
#ifndef VERIF_SHIM_MP_NUMBER_HPP
#define VERIF_SHIM_MP_NUMBER_HPP

#include <cstdint>
#include <cstddef>
#include <array>
#include <vector>
#include <string>
#include <ostream>
#include <iostream>
#include <stdexcept>
#include <type_traits>
#include <limits>
#include <functional>
#include <algorithm>
#include <cassert>
#include <iterator>
#include <boost/config.hpp>
#include <boost/functional/hash.hpp>

namespace boost {
    namespace multiprecision {

        enum expression_template_option { et_off = 0, et_on = 1 };

        typedef std::uint64_t limb_type;
        typedef unsigned __int128 double_limb_type;

        namespace backends {
            // ---------------------------------------------------------------- integers
            template<unsigned Bits>
            struct cpp_int_modular_backend {
                static constexpr std::size_t limb_count = Bits == 0 ? 1 : (Bits + 63) / 64;
                static constexpr unsigned Bits_ = Bits;
                limb_type l[limb_count] {};

                constexpr cpp_int_modular_backend() = default;
                constexpr cpp_int_modular_backend(const cpp_int_modular_backend &) = default;
                constexpr cpp_int_modular_backend &operator=(const cpp_int_modular_backend &) = default;

                template<typename T, typename std::enable_if<std::is_integral<T>::value, int>::type = 0>
                constexpr cpp_int_modular_backend(T v) {
                    l[0] = static_cast<limb_type>(v);
                    if (std::is_signed<T>::value && v < 0) {
                        for (std::size_t i = 1; i < limb_count; ++i)
                            l[i] = ~limb_type(0);
                    }
                }
                constexpr cpp_int_modular_backend(double_limb_type v, int) {
                    l[0] = static_cast<limb_type>(v);
                    if (limb_count > 1)
                        l[limb_count > 1 ? 1 : 0] = static_cast<limb_type>(v >> 64);
                }
                template<unsigned B2, typename std::enable_if<B2 != Bits, int>::type = 0>
                constexpr cpp_int_modular_backend(const cpp_int_modular_backend<B2> &o) {
                    for (std::size_t i = 0; i < limb_count && i < cpp_int_modular_backend<B2>::limb_count; ++i)
                        l[i] = o.l[i];
                }
                constexpr limb_type *limbs() { return l; }
                constexpr const limb_type *limbs() const { return l; }
                constexpr std::size_t size() const { return limb_count; }
                constexpr bool is_zero() const {
                    for (std::size_t i = 0; i < limb_count; ++i)
                        if (l[i])
                            return false;
                    return true;
                }
                constexpr limb_type limb(std::size_t i) const { return i < limb_count ? l[i] : 0; }
            };

            template<unsigned A, unsigned B>
            constexpr int cmp(const cpp_int_modular_backend<A> &a, const cpp_int_modular_backend<B> &b) {
                std::size_t n = cpp_int_modular_backend<A>::limb_count > cpp_int_modular_backend<B>::limb_count ?
                                    cpp_int_modular_backend<A>::limb_count :
                                    cpp_int_modular_backend<B>::limb_count;
                for (std::size_t i = n; i-- > 0;) {
                    if (a.limb(i) < b.limb(i))
                        return -1;
                    if (a.limb(i) > b.limb(i))
                        return 1;
                }
                return 0;
            }
            template<unsigned A>
            constexpr std::size_t bit_length(const cpp_int_modular_backend<A> &a) {
                for (std::size_t i = cpp_int_modular_backend<A>::limb_count; i-- > 0;) {
                    if (a.l[i]) {
                        std::size_t k = 0;
                        limb_type v = a.l[i];
                        while (v) {
                            ++k;
                            v >>= 1;
                        }
                        return 64 * i + k;
                    }
                }
                return 0;
            }
            // a += b, returns the carry
            template<unsigned A, unsigned B>
            constexpr limb_type add_to(cpp_int_modular_backend<A> &a, const cpp_int_modular_backend<B> &b) {
                limb_type c = 0;
                for (std::size_t i = 0; i < cpp_int_modular_backend<A>::limb_count; ++i) {
                    double_limb_type s = static_cast<double_limb_type>(a.l[i]) + b.limb(i) + c;
                    a.l[i] = static_cast<limb_type>(s);
                    c = static_cast<limb_type>(s >> 64);
                }
                return c;
            }
            template<unsigned A, unsigned B>
            constexpr limb_type sub_from(cpp_int_modular_backend<A> &a, const cpp_int_modular_backend<B> &b) {
                limb_type br = 0;
                for (std::size_t i = 0; i < cpp_int_modular_backend<A>::limb_count; ++i) {
                    double_limb_type d = static_cast<double_limb_type>(a.l[i]) - b.limb(i) - br;
                    a.l[i] = static_cast<limb_type>(d);
                    br = (d >> 64) ? 1 : 0;
                }
                return br;
            }
            template<unsigned A>
            constexpr void shl_in(cpp_int_modular_backend<A> &a, std::size_t n) {
                constexpr std::size_t N = cpp_int_modular_backend<A>::limb_count;
                std::size_t w = n / 64, r = n % 64;
                for (std::size_t i = N; i-- > 0;) {
                    limb_type v = i >= w ? a.l[i - w] << r : 0;
                    if (r && i >= w + 1)
                        v |= a.l[i - w - 1] >> (64 - r);
                    a.l[i] = v;
                }
            }
            template<unsigned A>
            constexpr void shr_in(cpp_int_modular_backend<A> &a, std::size_t n) {
                constexpr std::size_t N = cpp_int_modular_backend<A>::limb_count;
                std::size_t w = n / 64, r = n % 64;
                for (std::size_t i = 0; i < N; ++i) {
                    limb_type v = i + w < N ? a.l[i + w] >> r : 0;
                    if (r && i + w + 1 < N)
                        v |= a.l[i + w + 1] << (64 - r);
                    a.l[i] = v;
                }
            }
            template<unsigned R, unsigned A, unsigned B>
            constexpr cpp_int_modular_backend<R> mul(const cpp_int_modular_backend<A> &a,
                                                     const cpp_int_modular_backend<B> &b) {
                cpp_int_modular_backend<R> r;
                constexpr std::size_t N = cpp_int_modular_backend<R>::limb_count;
                for (std::size_t i = 0; i < cpp_int_modular_backend<A>::limb_count && i < N; ++i) {
                    limb_type c = 0;
                    for (std::size_t j = 0; i + j < N; ++j) {
                        double_limb_type t = static_cast<double_limb_type>(a.l[i]) * b.limb(j) + r.l[i + j] + c;
                        r.l[i + j] = static_cast<limb_type>(t);
                        c = static_cast<limb_type>(t >> 64);
                    }
                }
                return r;
            }
            template<unsigned A, unsigned B>
            constexpr void divmod(const cpp_int_modular_backend<A> &a, const cpp_int_modular_backend<B> &b,
                                  cpp_int_modular_backend<A> &q, cpp_int_modular_backend<B> &rem) {
                if (b.is_zero())
                    throw std::overflow_error("Division by zero.");
                cpp_int_modular_backend<A> qq;
                cpp_int_modular_backend<B + 64> r;
                cpp_int_modular_backend<B + 64> bb(b);
                for (std::size_t i = bit_length(a); i-- > 0;) {
                    shl_in(r, 1);
                    r.l[0] |= (a.l[i / 64] >> (i % 64)) & 1;
                    if (cmp(r, bb) >= 0) {
                        sub_from(r, bb);
                        qq.l[i / 64] |= limb_type(1) << (i % 64);
                    }
                }
                q = qq;
                rem = cpp_int_modular_backend<B>(r);
            }

            // ---------------------------------------------------------------- residues
            template<typename Backend>
            struct modular_params;

            template<unsigned Bits>
            struct modular_params<cpp_int_modular_backend<Bits>> {
                typedef cpp_int_modular_backend<Bits> backend_type;
                static constexpr std::size_t N = backend_type::limb_count;
                backend_type m;      // modulus (odd)
                backend_type r1;     // 2^(64N) mod m
                backend_type r2;     // 2^(128N) mod m
                limb_type ninv = 0;  // -m^-1 mod 2^64

                constexpr modular_params() = default;
                template<unsigned B2>
                constexpr modular_params(const cpp_int_modular_backend<B2> &mod) : m(mod) {
                    limb_type inv = 1;
                    for (int i = 0; i < 6; ++i)
                        inv *= 2 - m.l[0] * inv;
                    ninv = ~inv + 1;
                    std::size_t bits = bit_length(m);
                    if (bits == 0)
                        return;
                    backend_type t(1u);     // 2^(bits-1) <= m
                    shl_in(t, bits - 1);
                    if (cmp(t, m) >= 0)
                        sub_from(t, m);
                    for (std::size_t i = bits - 1; i < 64 * N; ++i)
                        dbl(t);
                    r1 = t;
                    // t = 2^(64N+k); a Montgomery square doubles k, a doubling adds one: up to k = 64N
                    constexpr std::size_t K = 64 * N;
                    bool started = false;
                    for (std::size_t i = 32; i-- > 0;) {
                        if (started)
                            t = mont_mul(t, t);
                        if ((K >> i) & 1) {
                            started = true;
                            dbl(t);
                        }
                    }
                    r2 = t;
                }
                constexpr void dbl(backend_type &t) const {
                    limb_type top = t.l[N - 1] >> 63;
                    shl_in(t, 1);
                    if (top || cmp(t, m) >= 0)
                        sub_from(t, m);
                }
                constexpr backend_type get_mod() const { return m; }
                constexpr backend_type mont_mul(const backend_type &a, const backend_type &b) const {
                    limb_type t[N + 2] {};
                    for (std::size_t i = 0; i < N; ++i) {
                        limb_type c = 0;
                        for (std::size_t j = 0; j < N; ++j) {
                            double_limb_type s = static_cast<double_limb_type>(a.l[j]) * b.l[i] + t[j] + c;
                            t[j] = static_cast<limb_type>(s);
                            c = static_cast<limb_type>(s >> 64);
                        }
                        double_limb_type s2 = static_cast<double_limb_type>(t[N]) + c;
                        t[N] = static_cast<limb_type>(s2);
                        t[N + 1] = static_cast<limb_type>(s2 >> 64);
                        limb_type k = t[0] * ninv;
                        double_limb_type s = static_cast<double_limb_type>(k) * m.l[0] + t[0];
                        c = static_cast<limb_type>(s >> 64);
                        for (std::size_t j = 1; j < N; ++j) {
                            s = static_cast<double_limb_type>(k) * m.l[j] + t[j] + c;
                            t[j - 1] = static_cast<limb_type>(s);
                            c = static_cast<limb_type>(s >> 64);
                        }
                        s = static_cast<double_limb_type>(t[N]) + c;
                        t[N - 1] = static_cast<limb_type>(s);
                        t[N] = t[N + 1] + static_cast<limb_type>(s >> 64);
                    }
                    backend_type r;
                    for (std::size_t j = 0; j < N; ++j)
                        r.l[j] = t[j];
                    if (t[N] || cmp(r, m) >= 0)
                        sub_from(r, m);
                    return r;
                }
                template<unsigned B2>
                constexpr backend_type reduce(const cpp_int_modular_backend<B2> &v) const {
                    cpp_int_modular_backend<B2> q;
                    backend_type r;
                    if (cmp(v, m) < 0)
                        return backend_type(v);
                    divmod(v, m, q, r);
                    return r;
                }
                constexpr backend_type to_mont(const backend_type &a) const { return mont_mul(a, r2); }
                constexpr backend_type from_mont(const backend_type &a) const {
                    return mont_mul(a, backend_type(1u));
                }
            };

            template<typename Backend, const modular_params<Backend> &Params>
            struct modular_params_ct {
                typedef modular_params<Backend> params_type;
                static constexpr const params_type &params() { return Params; }
            };

            template<typename Backend, typename SafeType>
            struct modular_adaptor {
                typedef Backend base_backend;
                typedef SafeType safe_type;
                typedef modular_params<Backend> params_type;
                Backend b;    // Montgomery form

                static constexpr const params_type &mp() { return SafeType::params(); }
                constexpr modular_adaptor() = default;
                constexpr modular_adaptor(const modular_adaptor &) = default;
                constexpr modular_adaptor &operator=(const modular_adaptor &) = default;
                template<unsigned B2>
                constexpr modular_adaptor(const cpp_int_modular_backend<B2> &v, const params_type &) :
                    b(mp().to_mont(mp().reduce(v))) {}
                template<typename B2, typename S2>
                constexpr modular_adaptor(const modular_adaptor<B2, S2> &v, const params_type &) :
                    b(mp().to_mont(mp().reduce(v.value()))) {}
                template<typename T, typename std::enable_if<std::is_integral<T>::value, int>::type = 0>
                constexpr modular_adaptor(T v, const params_type &) : b(from_int(v)) {}

                template<typename T>
                static constexpr Backend from_int(T v) {
                    bool neg = std::is_signed<T>::value && v < 0;
                    limb_type a = neg ? ~static_cast<limb_type>(v) + 1 : static_cast<limb_type>(v);
                    Backend r = mp().to_mont(mp().reduce(cpp_int_modular_backend<64>(a)));
                    if (neg && !r.is_zero()) {
                        Backend t = mp().m;
                        sub_from(t, r);
                        r = t;
                    }
                    return r;
                }
                constexpr Backend value() const { return mp().from_mont(b); }
            };
        }    // namespace backends

        using backends::modular_params;
        using backends::cpp_int_modular_backend;

        template<typename Backend, expression_template_option ET = et_off>
        class number;

        template<typename T>
        struct is_number : std::false_type {};
        template<typename B, expression_template_option ET>
        struct is_number<number<B, ET>> : std::true_type {};

        template<typename T>
        using if_int = typename std::enable_if<std::is_integral<T>::value, int>::type;

        // -------------------------------------------------------------------- integers
        template<unsigned Bits, expression_template_option ET>
        class number<backends::cpp_int_modular_backend<Bits>, ET> {
        public:
            typedef backends::cpp_int_modular_backend<Bits> backend_type;
            typedef number value_type;

        private:
            backend_type m;

        public:
            constexpr number() = default;
            constexpr number(const number &) = default;
            constexpr number &operator=(const number &) = default;
            constexpr number(const backend_type &v) : m(v) {}
            template<typename T, if_int<T> = 0>
            constexpr number(T v) : m(v) {}
            template<unsigned B2, expression_template_option E2,
                     typename std::enable_if<B2 != Bits || E2 != ET, int>::type = 0>
            constexpr number(const number<backends::cpp_int_modular_backend<B2>, E2> &o) : m(o.backend()) {}
            template<typename B2, typename S2, expression_template_option E2>
            explicit constexpr number(const number<backends::modular_adaptor<B2, S2>, E2> &o) :
                m(o.backend().value()) {}
            explicit number(const char *s) {
                std::string t(s);
                if (t.size() > 1 && t[0] == '0' && (t[1] == 'x' || t[1] == 'X')) {
                    for (std::size_t i = 2; i < t.size(); ++i) {
                        *this <<= 4;
                        m.l[0] |= t[i] <= '9' ? t[i] - '0' : (t[i] | 32) - 'a' + 10;
                    }
                } else {
                    for (char c : t) {
                        *this *= 10u;
                        *this += unsigned(c - '0');
                    }
                }
            }
            explicit number(const std::string &s) : number(s.c_str()) {}

            constexpr backend_type &backend() { return m; }
            constexpr const backend_type &backend() const { return m; }

            constexpr bool is_zero() const { return m.is_zero(); }
            constexpr int sign() const { return m.is_zero() ? 0 : 1; }
            explicit constexpr operator bool() const { return !m.is_zero(); }
            template<typename T, typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value,
                                                         int>::type = 0>
            explicit constexpr operator T() const {
                return static_cast<T>(m.l[0]);
            }
            template<typename T>
            constexpr T convert_to() const {
                return static_cast<T>(*this);
            }
            constexpr int compare(const number &o) const { return backends::cmp(m, o.m); }
            std::string str(std::streamsize = 0, std::ios_base::fmtflags f = std::ios_base::dec) const {
                std::string r;
                if (f & std::ios_base::hex) {
                    bool on = false;
                    for (std::size_t i = backend_type::limb_count * 16; i-- > 0;) {
                        unsigned d = (m.l[i / 16] >> (4 * (i % 16))) & 15;
                        if (d)
                            on = true;
                        if (on)
                            r += "0123456789abcdef"[d];
                    }
                } else {
                    number t(*this);
                    while (!t.is_zero()) {
                        backend_type q;
                        backends::cpp_int_modular_backend<64> rem;
                        backends::divmod(t.m, backends::cpp_int_modular_backend<64>(10u), q, rem);
                        r.insert(r.begin(), char('0' + rem.l[0]));
                        t.m = q;
                    }
                }
                return r.empty() ? "0" : r;
            }

            constexpr number &operator+=(const number &o) {
                backends::add_to(m, o.m);
                return *this;
            }
            constexpr number &operator-=(const number &o) {
                backends::sub_from(m, o.m);
                return *this;
            }
            constexpr number &operator*=(const number &o) {
                m = backends::mul<Bits>(m, o.m);
                return *this;
            }
            constexpr number &operator/=(const number &o) {
                backend_type q, r;
                backends::divmod(m, o.m, q, r);
                m = q;
                return *this;
            }
            constexpr number &operator%=(const number &o) {
                backend_type q, r;
                backends::divmod(m, o.m, q, r);
                m = r;
                return *this;
            }
            constexpr number &operator&=(const number &o) {
                for (std::size_t i = 0; i < backend_type::limb_count; ++i)
                    m.l[i] &= o.m.l[i];
                return *this;
            }
            constexpr number &operator|=(const number &o) {
                for (std::size_t i = 0; i < backend_type::limb_count; ++i)
                    m.l[i] |= o.m.l[i];
                return *this;
            }
            constexpr number &operator^=(const number &o) {
                for (std::size_t i = 0; i < backend_type::limb_count; ++i)
                    m.l[i] ^= o.m.l[i];
                return *this;
            }
            template<typename T, if_int<T> = 0>
            constexpr number &operator<<=(T n) {
                backends::shl_in(m, static_cast<std::size_t>(n));
                return *this;
            }
            template<typename T, if_int<T> = 0>
            constexpr number &operator>>=(T n) {
                backends::shr_in(m, static_cast<std::size_t>(n));
                return *this;
            }
            constexpr number &operator++() { return *this += number(1u); }
            constexpr number &operator--() { return *this -= number(1u); }
            constexpr number operator++(int) {
                number t(*this);
                ++*this;
                return t;
            }
            constexpr number operator--(int) {
                number t(*this);
                --*this;
                return t;
            }
            constexpr number operator-() const { return number() - *this; }
            constexpr number operator+() const { return *this; }
            constexpr number operator~() const {
                number r(*this);
                for (std::size_t i = 0; i < backend_type::limb_count; ++i)
                    r.m.l[i] = ~r.m.l[i];
                return r;
            }
            constexpr bool operator!() const { return is_zero(); }
        };

        namespace detail {
            template<typename T>
            struct int_width {
                static constexpr unsigned value = 0;
            };
            template<unsigned B, expression_template_option E>
            struct int_width<number<backends::cpp_int_modular_backend<B>, E>> {
                static constexpr unsigned value = B;
            };
            // The result type of a mixed operation: the wider of the two.
            template<typename A, typename B, typename = void>
            struct mixed {};
            template<unsigned A, expression_template_option E, unsigned B, expression_template_option F>
            struct mixed<number<backends::cpp_int_modular_backend<A>, E>,
                         number<backends::cpp_int_modular_backend<B>, F>> {
                typedef number<backends::cpp_int_modular_backend<(A > B ? A : B)>, E> type;
            };
            template<unsigned A, expression_template_option E, typename T>
            struct mixed<number<backends::cpp_int_modular_backend<A>, E>, T,
                         typename std::enable_if<std::is_integral<T>::value>::type> {
                typedef number<backends::cpp_int_modular_backend<A>, E> type;
            };
            template<unsigned A, expression_template_option E, typename T>
            struct mixed<T, number<backends::cpp_int_modular_backend<A>, E>,
                         typename std::enable_if<std::is_integral<T>::value>::type> {
                typedef number<backends::cpp_int_modular_backend<A>, E> type;
            };
            template<typename B, typename S, expression_template_option E>
            struct mixed<number<backends::modular_adaptor<B, S>, E>, number<backends::modular_adaptor<B, S>, E>> {
                typedef number<backends::modular_adaptor<B, S>, E> type;
            };
            template<typename B, typename S, expression_template_option E, typename T>
            struct mixed<number<backends::modular_adaptor<B, S>, E>, T,
                         typename std::enable_if<std::is_integral<T>::value>::type> {
                typedef number<backends::modular_adaptor<B, S>, E> type;
            };
            template<typename B, typename S, expression_template_option E, typename T>
            struct mixed<T, number<backends::modular_adaptor<B, S>, E>,
                         typename std::enable_if<std::is_integral<T>::value>::type> {
                typedef number<backends::modular_adaptor<B, S>, E> type;
            };
            template<typename B, typename S, expression_template_option E, unsigned A, expression_template_option F>
            struct mixed<number<backends::modular_adaptor<B, S>, E>,
                         number<backends::cpp_int_modular_backend<A>, F>> {
                typedef number<backends::modular_adaptor<B, S>, E> type;
            };
            template<typename B, typename S, expression_template_option E, unsigned A, expression_template_option F>
            struct mixed<number<backends::cpp_int_modular_backend<A>, F>,
                         number<backends::modular_adaptor<B, S>, E>> {
                typedef number<backends::modular_adaptor<B, S>, E> type;
            };
        }    // namespace detail

#define VERIF_BINARY(op)                                                                            \
    template<typename A, typename B>                                                                \
    constexpr typename detail::mixed<A, B>::type operator op(const A &a, const B &b) {              \
        typedef typename detail::mixed<A, B>::type R;                                               \
        R r(a);                                                                                     \
        r op## = R(b);                                                                              \
        return r;                                                                                   \
    }
#undef VERIF_BINARY
#define VERIF_BINARY(op, opa)                                                                       \
    template<typename A, typename B>                                                                \
    constexpr typename detail::mixed<A, B>::type operator op(const A &a, const B &b) {              \
        typedef typename detail::mixed<A, B>::type R;                                               \
        R r(a);                                                                                     \
        r opa R(b);                                                                                 \
        return r;                                                                                   \
    }
        VERIF_BINARY(+, +=)
        VERIF_BINARY(-, -=)
        VERIF_BINARY(*, *=)
        VERIF_BINARY(/, /=)
        VERIF_BINARY(%, %=)
        VERIF_BINARY(&, &=)
        VERIF_BINARY(|, |=)
        VERIF_BINARY(^, ^=)
#undef VERIF_BINARY
        template<unsigned Bits, expression_template_option E, typename T, if_int<T> = 0>
        constexpr number<backends::cpp_int_modular_backend<Bits>, E>
            operator<<(const number<backends::cpp_int_modular_backend<Bits>, E> &a, T n) {
            auto r = a;
            r <<= n;
            return r;
        }
        template<unsigned Bits, expression_template_option E, typename T, if_int<T> = 0>
        constexpr number<backends::cpp_int_modular_backend<Bits>, E>
            operator>>(const number<backends::cpp_int_modular_backend<Bits>, E> &a, T n) {
            auto r = a;
            r >>= n;
            return r;
        }
#define VERIF_CMP(op)                                                                               \
    template<typename A, typename B, typename R = typename detail::mixed<A, B>::type>               \
    constexpr bool operator op(const A &a, const B &b) {                                            \
        return R(a).compare(R(b)) op 0;                                                             \
    }
        VERIF_CMP(==)
        VERIF_CMP(!=)
        VERIF_CMP(<)
        VERIF_CMP(>)
        VERIF_CMP(<=)
        VERIF_CMP(>=)
#undef VERIF_CMP

        template<unsigned Bits, expression_template_option E>
        constexpr std::size_t msb(const number<backends::cpp_int_modular_backend<Bits>, E> &a) {
            if (a.is_zero())
                throw std::range_error("No bits were set in the operand.");
            return backends::bit_length(a.backend()) - 1;
        }
        template<unsigned Bits, expression_template_option E>
        constexpr std::size_t lsb(const number<backends::cpp_int_modular_backend<Bits>, E> &a) {
            if (a.is_zero())
                throw std::range_error("No bits were set in the operand.");
            std::size_t i = 0;
            while (!((a.backend().limb(i / 64) >> (i % 64)) & 1))
                ++i;
            return i;
        }
        template<unsigned Bits, expression_template_option E>
        constexpr bool bit_test(const number<backends::cpp_int_modular_backend<Bits>, E> &a, std::size_t i) {
            return (a.backend().limb(i / 64) >> (i % 64)) & 1;
        }
        template<unsigned Bits, expression_template_option E>
        constexpr number<backends::cpp_int_modular_backend<Bits>, E> &
            bit_set(number<backends::cpp_int_modular_backend<Bits>, E> &a, std::size_t i) {
            if (i < 64 * backends::cpp_int_modular_backend<Bits>::limb_count)
                a.backend().l[i / 64] |= limb_type(1) << (i % 64);
            return a;
        }
        template<unsigned Bits, expression_template_option E>
        constexpr bool is_zero(const number<backends::cpp_int_modular_backend<Bits>, E> &a) {
            return a.is_zero();
        }
        // constexpr-friendly overloads for built-in integers
        template<typename T, if_int<T> = 0>
        constexpr std::size_t msb(T a) {
            return msb(number<backends::cpp_int_modular_backend<64>>(a));
        }
        template<typename T, if_int<T> = 0>
        constexpr bool bit_test(T a, std::size_t i) {
            return i < 8 * sizeof(T) && ((static_cast<limb_type>(a) >> i) & 1);
        }

        // -------------------------------------------------------------------- residues
        template<typename Backend, typename SafeType, expression_template_option ET>
        class number<backends::modular_adaptor<Backend, SafeType>, ET> {
        public:
            typedef backends::modular_adaptor<Backend, SafeType> backend_type;
            typedef modular_params<Backend> params_type;
            typedef number value_type;

        private:
            backend_type m;
            static constexpr const params_type &mp() { return SafeType::params(); }

        public:
            constexpr number() = default;
            constexpr number(const number &) = default;
            constexpr number &operator=(const number &) = default;
            constexpr number(const backend_type &b) : m(b) {}
            template<typename T, if_int<T> = 0>
            constexpr number(T v) : m(v, mp()) {}
            template<typename T, if_int<T> = 0>
            constexpr number(T v, const params_type &) : m(v, mp()) {}
            template<unsigned B2, expression_template_option E2>
            constexpr number(const number<backends::cpp_int_modular_backend<B2>, E2> &o) : m(o.backend(), mp()) {}
            template<unsigned B2, expression_template_option E2>
            constexpr number(const number<backends::cpp_int_modular_backend<B2>, E2> &o, const params_type &) :
                m(o.backend(), mp()) {}

            constexpr backend_type &backend() { return m; }
            constexpr const backend_type &backend() const { return m; }
            constexpr bool is_zero() const { return m.b.is_zero(); }
            explicit constexpr operator bool() const { return !is_zero(); }
            template<typename T, typename std::enable_if<is_number<T>::value, int>::type = 0>
            explicit constexpr operator T() const {
                return T(m.value());
            }
            template<typename T, typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value,
                                                         int>::type = 0>
            explicit constexpr operator T() const {
                return static_cast<T>(m.value().l[0]);
            }
            template<typename T>
            constexpr T convert_to() const {
                if constexpr (std::is_integral<T>::value)
                    return static_cast<T>(m.value().l[0]);
                else
                    return T(number<Backend>(m.value()));
            }
            std::string str(std::streamsize n = 0, std::ios_base::fmtflags f = std::ios_base::dec) const {
                return number<Backend>(m.value()).str(n, f);
            }
            constexpr int compare(const number &o) const { return backends::cmp(m.value(), o.m.value()); }
            constexpr bool operator==(const number &o) const { return backends::cmp(m.b, o.m.b) == 0; }
            constexpr bool operator!=(const number &o) const { return backends::cmp(m.b, o.m.b) != 0; }

            constexpr number &operator+=(const number &o) {
                limb_type c = backends::add_to(m.b, o.m.b);
                if (c || backends::cmp(m.b, mp().m) >= 0)
                    backends::sub_from(m.b, mp().m);
                return *this;
            }
            constexpr number &operator-=(const number &o) {
                if (backends::sub_from(m.b, o.m.b))
                    backends::add_to(m.b, mp().m);
                return *this;
            }
            constexpr number &operator*=(const number &o) {
                m.b = mp().mont_mul(m.b, o.m.b);
                return *this;
            }
            constexpr number inv() const {
                // a^-1 by the binary extended Euclidean algorithm; 0 for 0
                if (is_zero())
                    return number();
                constexpr unsigned W = Backend::Bits_ + 64;
                typedef backends::cpp_int_modular_backend<W> wide;
                wide u(m.value()), v(mp().m), x1(1u), x2(0u), p(mp().m), one(1u);
                while (backends::cmp(u, one) != 0 && backends::cmp(v, one) != 0) {
                    while (!(u.l[0] & 1)) {
                        backends::shr_in(u, 1);
                        if (x1.l[0] & 1)
                            backends::add_to(x1, p);
                        backends::shr_in(x1, 1);
                    }
                    while (!(v.l[0] & 1)) {
                        backends::shr_in(v, 1);
                        if (x2.l[0] & 1)
                            backends::add_to(x2, p);
                        backends::shr_in(x2, 1);
                    }
                    if (backends::cmp(u, v) >= 0) {
                        backends::sub_from(u, v);
                        if (backends::cmp(x1, x2) < 0)
                            backends::add_to(x1, p);
                        backends::sub_from(x1, x2);
                    } else {
                        backends::sub_from(v, u);
                        if (backends::cmp(x2, x1) < 0)
                            backends::add_to(x2, p);
                        backends::sub_from(x2, x1);
                    }
                }
                number r;
                r.m.b = mp().to_mont(Backend(backends::cmp(u, one) == 0 ? x1 : x2));
                return r;
            }
            constexpr number &operator/=(const number &o) { return *this *= o.inv(); }
            constexpr number operator-() const { return number() - *this; }
            constexpr number operator+() const { return *this; }
            constexpr number &operator++() { return *this += number(1u); }
            constexpr number &operator--() { return *this -= number(1u); }
        };

        template<typename B, typename S, expression_template_option E>
        constexpr bool is_zero(const number<backends::modular_adaptor<B, S>, E> &a) {
            return a.is_zero();
        }
        template<typename B, typename S, expression_template_option E>
        constexpr std::size_t msb(const number<backends::modular_adaptor<B, S>, E> &a) {
            return msb(number<B>(a.backend().value()));
        }
        template<typename B, typename S, expression_template_option E>
        constexpr bool bit_test(const number<backends::modular_adaptor<B, S>, E> &a, std::size_t i) {
            return bit_test(number<B>(a.backend().value()), i);
        }
        template<typename B, typename S, expression_template_option E, unsigned Bits, expression_template_option F>
        constexpr number<backends::modular_adaptor<B, S>, E>
            powm(const number<backends::modular_adaptor<B, S>, E> &a,
                 const number<backends::cpp_int_modular_backend<Bits>, F> &e) {
            number<backends::modular_adaptor<B, S>, E> r(1u);
            for (std::size_t i = backends::bit_length(e.backend()); i-- > 0;) {
                r *= r;
                if (bit_test(e, i))
                    r *= a;
            }
            return r;
        }
        template<typename B, typename S, expression_template_option E, typename B2, typename S2,
                 expression_template_option F>
        constexpr number<backends::modular_adaptor<B, S>, E>
            powm(const number<backends::modular_adaptor<B, S>, E> &a,
                 const number<backends::modular_adaptor<B2, S2>, F> &e) {
            return powm(a, number<B2>(e.backend().value()));
        }
        template<typename B, typename S, expression_template_option E, typename T, if_int<T> = 0>
        constexpr number<backends::modular_adaptor<B, S>, E>
            powm(const number<backends::modular_adaptor<B, S>, E> &a, T e) {
            return powm(a, number<backends::cpp_int_modular_backend<64>>(e));
        }
        template<unsigned B1, expression_template_option E, unsigned B2, unsigned B3>
        constexpr number<backends::cpp_int_modular_backend<B3>>
            powm(const number<backends::cpp_int_modular_backend<B1>, E> &a,
                 const number<backends::cpp_int_modular_backend<B2>, E> &e,
                 const number<backends::cpp_int_modular_backend<B3>, E> &mod) {
            typedef number<backends::cpp_int_modular_backend<2 * (B1 > B3 ? B1 : B3)>> wide;
            wide r(1u), m(mod), x(a);
            r %= m;
            x %= m;
            for (std::size_t i = backends::bit_length(e.backend()); i-- > 0;) {
                r = r * r % m;
                if (bit_test(e, i))
                    r = r * x % m;
            }
            return number<backends::cpp_int_modular_backend<B3>>(r);
        }

        typedef number<backends::cpp_int_modular_backend<128>> uint128_t;
        typedef number<backends::cpp_int_modular_backend<256>> uint256_t;
        typedef number<backends::cpp_int_modular_backend<512>> uint512_t;
        typedef number<backends::cpp_int_modular_backend<1024>> uint1024_t;
        typedef number<backends::cpp_int_modular_backend<1024>> cpp_int;

        template<unsigned A, unsigned B, expression_template_option E>
        constexpr typename detail::mixed<number<backends::cpp_int_modular_backend<A>, E>,
                                         number<backends::cpp_int_modular_backend<B>, E>>::type
            gcd(const number<backends::cpp_int_modular_backend<A>, E> &a,
                const number<backends::cpp_int_modular_backend<B>, E> &b) {
            typename detail::mixed<number<backends::cpp_int_modular_backend<A>, E>,
                                   number<backends::cpp_int_modular_backend<B>, E>>::type x(a),
                y(b);
            while (!y.is_zero()) {
                auto t = x % y;
                x = y;
                y = t;
            }
            return x;
        }
        template<typename A, typename B,
                 typename std::enable_if<std::is_integral<A>::value && std::is_integral<B>::value, int>::type = 0>
        constexpr typename std::common_type<A, B>::type gcd(A a, B b) {
            typename std::common_type<A, B>::type x(a), y(b);
            while (y != 0) {
                auto t = x % y;
                x = y;
                y = t;
            }
            return x;
        }

        template<unsigned Bits, expression_template_option E>
        std::ostream &operator<<(std::ostream &os, const number<backends::cpp_int_modular_backend<Bits>, E> &v) {
            return os << v.str(0, os.flags());
        }
        template<typename B, typename S, expression_template_option E>
        std::ostream &operator<<(std::ostream &os, const number<backends::modular_adaptor<B, S>, E> &v) {
            return os << v.str(0, os.flags());
        }

        // ---------------------------------------------------------------- import / export of bits
        // As in Boost.Multiprecision: export writes ceil(bits/chunk) chunks (one for zero), most significant
        // first unless msv_first is false; import overwrites the number.
        template<unsigned Bits, expression_template_option E, typename It>
        number<backends::cpp_int_modular_backend<Bits>, E> &
            import_bits(number<backends::cpp_int_modular_backend<Bits>, E> &v, It first, It last,
                        unsigned chunk_size = 0, bool msv_first = true) {
            typedef typename std::iterator_traits<It>::value_type T;
            if (!chunk_size)
                chunk_size = std::numeric_limits<T>::digits;
            v = 0u;
            std::vector<limb_type> c;
            for (; first != last; ++first)
                c.push_back(static_cast<limb_type>(static_cast<typename std::make_unsigned<T>::type>(*first)));
            if (msv_first)
                std::reverse(c.begin(), c.end());
            for (std::size_t i = 0; i < c.size(); ++i)
                for (unsigned j = 0; j < chunk_size; ++j)
                    if ((c[i] >> j) & 1)
                        bit_set(v, i * chunk_size + j);
            return v;
        }
        template<unsigned Bits, expression_template_option E, typename It>
        It export_bits(const number<backends::cpp_int_modular_backend<Bits>, E> &v, It out, unsigned chunk_size,
                       bool msv_first = true) {
            std::size_t n = (backends::bit_length(v.backend()) + chunk_size - 1) / chunk_size;
            if (!n)
                n = 1;
            for (std::size_t k = 0; k < n; ++k) {
                std::size_t i = msv_first ? n - 1 - k : k;
                limb_type x = 0;
                for (unsigned j = 0; j < chunk_size && j < 64; ++j)
                    if (bit_test(v, i * chunk_size + j))
                        x |= limb_type(1) << j;
                *out = x;
                ++out;
            }
            return out;
        }

        // ---------------------------------------------------------------- modular helpers
        template<typename B, typename S, expression_template_option E>
        constexpr number<backends::modular_adaptor<B, S>, E>
            inverse_mod(const number<backends::modular_adaptor<B, S>, E> &a) {
            return a.inv();
        }
        // A square root of a, or zero if there is none (Tonelli-Shanks).
        template<typename B, typename S, expression_template_option E>
        constexpr number<backends::modular_adaptor<B, S>, E>
            ressol(const number<backends::modular_adaptor<B, S>, E> &a) {
            typedef number<backends::modular_adaptor<B, S>, E> R;
            typedef number<B> I;
            if (a.is_zero())
                return R();
            I p(S::params().m), q = p - 1u, one(1u);
            I half = q >> 1;
            if (powm(a, half) != R(1u))
                return R();
            std::size_t s = 0;
            while (!bit_test(q, 0)) {
                q >>= 1;
                ++s;
            }
            R z(2u);
            while (powm(z, half) == R(1u))
                z += R(1u);
            R c = powm(z, q), x = powm(a, (q + 1u) >> 1), t = powm(a, q);
            std::size_t m = s;
            while (t != R(1u)) {
                std::size_t i = 0;
                R tt = t;
                while (tt != R(1u)) {
                    tt *= tt;
                    ++i;
                }
                R b = c;
                for (std::size_t k = 0; k + i + 1 < m; ++k)
                    b *= b;
                x *= b;
                c = b * b;
                t *= c;
                m = i;
            }
            return x;
        }
        template<typename B, typename S, expression_template_option E>
        constexpr number<backends::modular_adaptor<B, S>, E> sqrt(const number<backends::modular_adaptor<B, S>, E> &a) {
            return ressol(a);
        }

        // libff's signed-window recoding: digits d_j with scalar = sum d_j 2^j.
        template<unsigned Bits, expression_template_option E>
        inline std::vector<long> find_wnaf(std::size_t window_size,
                                           const number<backends::cpp_int_modular_backend<Bits>, E> &scalar) {
            typedef number<backends::cpp_int_modular_backend<Bits + 64>> wide;
            wide c(scalar);
            std::vector<long> res(Bits + 1);
            std::size_t j = 0;
            while (!c.is_zero()) {
                long u = 0;
                if (bit_test(c, 0)) {
                    u = static_cast<long>(c.backend().l[0] & ((limb_type(1) << (window_size + 1)) - 1));
                    if (u > (1l << window_size))
                        u -= 1l << (window_size + 1);
                    if (u > 0)
                        c -= wide(static_cast<limb_type>(u));
                    else
                        c += wide(static_cast<limb_type>(-u));
                }
                res.at(j) = u;
                ++j;
                c >>= 1;
            }
            return res;
        }

        // Deterministic Miller-Rabin on the first twelve primes plus extra bases.
        template<unsigned Bits, expression_template_option E>
        bool miller_rabin_test(const number<backends::cpp_int_modular_backend<Bits>, E> &n, std::size_t) {
            typedef number<backends::cpp_int_modular_backend<Bits>, E> I;
            static const unsigned small[] = {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53};
            if (n < 2u)
                return false;
            for (unsigned p : small) {
                if (n == p)
                    return true;
                if ((n % p).is_zero())
                    return false;
            }
            I d = n - 1u;
            std::size_t s = 0;
            while (!bit_test(d, 0)) {
                d >>= 1;
                ++s;
            }
            for (unsigned p : small) {
                I x = powm(I(p), d, n);
                if (x == 1u || x == n - 1u)
                    continue;
                bool comp = true;
                for (std::size_t i = 1; i < s && comp; ++i) {
                    x = powm(x, I(2u), n);
                    if (x == n - 1u)
                        comp = false;
                }
                if (comp)
                    return false;
            }
            return true;
        }
        template<typename T, if_int<T> = 0>
        bool miller_rabin_test(T n, std::size_t k) {
            if (n < 0)
                return false;
            return miller_rabin_test(number<backends::cpp_int_modular_backend<64>>(n), k);
        }

        namespace literals {
            constexpr int lit_digit(char c) {
                return c <= '9' ? c - '0' : (c >= 'a' ? c - 'a' + 10 : c - 'A' + 10);
            }
            template<unsigned Bits, char... C>
            constexpr number<backends::cpp_int_modular_backend<Bits>> parse_literal() {
                constexpr char s[] = {C..., '\0'};
                constexpr std::size_t n = sizeof...(C);
                backends::cpp_int_modular_backend<Bits> v;
                if (n > 1 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X')) {
                    std::size_t k = 0;
                    for (std::size_t i = n; i-- > 2;) {
                        if (s[i] == '\'')
                            continue;
                        if (k / 16 < backends::cpp_int_modular_backend<Bits>::limb_count)
                            v.l[k / 16] |= limb_type(lit_digit(s[i])) << (4 * (k % 16));
                        ++k;
                    }
                } else {
                    for (std::size_t i = 0; i < n; ++i) {
                        if (s[i] == '\'')
                            continue;
                        limb_type c = lit_digit(s[i]);
                        for (std::size_t j = 0; j < backends::cpp_int_modular_backend<Bits>::limb_count; ++j) {
                            double_limb_type t = static_cast<double_limb_type>(v.l[j]) * 10 + c;
                            v.l[j] = static_cast<limb_type>(t);
                            c = static_cast<limb_type>(t >> 64);
                        }
                    }
                }
                return v;
            }
        }    // namespace literals
    }        // namespace multiprecision
}    // namespace boost

template<unsigned Bits, boost::multiprecision::expression_template_option E>
struct std::hash<boost::multiprecision::number<boost::multiprecision::backends::cpp_int_modular_backend<Bits>, E>> {
    std::size_t operator()(
        const boost::multiprecision::number<boost::multiprecision::backends::cpp_int_modular_backend<Bits>, E> &v)
        const {
        std::size_t r = 0;
        for (auto x : v.backend().l)
            r = r * 1099511628211ull + x;
        return r;
    }
};
template<typename B, typename S, boost::multiprecision::expression_template_option E>
struct std::hash<boost::multiprecision::number<boost::multiprecision::backends::modular_adaptor<B, S>, E>> {
    std::size_t
        operator()(const boost::multiprecision::number<boost::multiprecision::backends::modular_adaptor<B, S>, E> &v)
            const {
        return std::hash<boost::multiprecision::number<B>>()(boost::multiprecision::number<B>(v.backend().value()));
    }
};
template<unsigned Bits, boost::multiprecision::expression_template_option E>
class std::numeric_limits<
    boost::multiprecision::number<boost::multiprecision::backends::cpp_int_modular_backend<Bits>, E>> {
    typedef boost::multiprecision::number<boost::multiprecision::backends::cpp_int_modular_backend<Bits>, E> T;

public:
    static constexpr bool is_specialized = true;
    static constexpr bool is_signed = false;
    static constexpr bool is_integer = true;
    static constexpr bool is_exact = true;
    static constexpr bool is_bounded = true;
    static constexpr int digits = Bits;
    static constexpr T min() { return T(); }
    static constexpr T max() { return ~T(); }
};

#include "literals.inc"
#endif
