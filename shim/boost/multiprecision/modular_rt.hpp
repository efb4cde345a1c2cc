// Residues whose modulus is chosen at run time: number(value, modulus).
#pragma once
#include <boost/multiprecision/number.hpp>
namespace boost {
    namespace multiprecision {
        namespace backends {
            template<typename Backend>
            struct modular_params_rt {
                typedef Backend backend_type;
            };
        }    // namespace backends

        template<typename Backend, expression_template_option ET>
        class number<backends::modular_adaptor<Backend, backends::modular_params_rt<Backend>>, ET> {
        public:
            typedef backends::modular_adaptor<Backend, backends::modular_params_rt<Backend>> backend_type;
            typedef number value_type;
            typedef number<Backend, ET> plain;

        private:
            plain v, m;

        public:
            number() = default;
            number(const number &) = default;
            number &operator=(const number &) = default;
            number(const plain &a, const plain &mod) : v(a % mod), m(mod) { }
            bool is_zero() const { return v.is_zero(); }
            explicit operator bool() const { return !is_zero(); }
            template<typename T, typename std::enable_if<is_number<T>::value, int>::type = 0>
            explicit operator T() const { return T(v); }
            template<typename T, typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value, int>::type = 0>
            explicit operator T() const { return static_cast<T>(v); }
            template<typename T>
            T convert_to() const { return v.template convert_to<T>(); }
            std::string str(std::streamsize n = 0, std::ios_base::fmtflags f = std::ios_base::dec) const { return v.str(n, f); }
            const plain &mod() const { return m; }
            struct view {
                Backend v;
                const Backend &value() const { return v; }
            };
            view backend() const { return {v.backend()}; }
            int compare(const number &o) const { return backends::cmp(v.backend(), o.v.backend()); }
            bool operator==(const number &o) const { return v == o.v; }
            bool operator!=(const number &o) const { return v != o.v; }
            number &operator+=(const number &o) {
                plain d = m - o.v;      // v + o.v mod m without overflow
                v = v >= d ? v - d : v + o.v;
                return *this;
            }
            number &operator-=(const number &o) {
                v = v >= o.v ? v - o.v : v + (m - o.v);
                return *this;
            }
            number &operator*=(const number &o) {
                typedef number<backends::cpp_int_modular_backend<2 * Backend::Bits_>> wide;
                v = plain((wide(v) * wide(o.v)) % wide(m));
                return *this;
            }
            number operator-() const { return number(m - v, m); }
        };

        // the greatest common divisor of two residues and their modulus, a residue zero standing for the modulus
        template<typename B, expression_template_option E>
        number<backends::modular_adaptor<B, backends::modular_params_rt<B>>, E>
            gcd(const number<backends::modular_adaptor<B, backends::modular_params_rt<B>>, E> &a,
                const number<backends::modular_adaptor<B, backends::modular_params_rt<B>>, E> &b) {
            number<B, E> g = gcd(gcd(number<B, E>(a), number<B, E>(b)), a.mod());
            return number<backends::modular_adaptor<B, backends::modular_params_rt<B>>, E>(g, a.mod());
        }
    }    // namespace multiprecision
}    // namespace boost
