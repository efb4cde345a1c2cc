// Replays tower transitions (TowerMachine.tla, Fields.qnt) into one element type of the library.
// Elements travel as the flat list of prime-field coefficients.
#pragma once
#include "common.hpp"
#include <memory>
#include <type_traits>
#include <nil/crypto3/multiprecision/cpp_int_modular.hpp>
#include <nil/crypto3/algebra/fields/fp12_2over3over2.hpp>
#include <nil/crypto3/algebra/fields/fp6_2over3.hpp>
#include <nil/crypto3/algebra/fields/fp4.hpp>
#include <nil/crypto3/algebra/fields/detail/element/operations.hpp>

namespace tw {
    using rp::Val;
    namespace el = nil::crypto3::algebra::fields::detail;
    template<unsigned B> using bits = boost::multiprecision::number<boost::multiprecision::backends::cpp_int_modular_backend<B>>;
    using wide = bits<4096>;
    using huge = bits<16640>;
    template<typename W> W parse(const std::string &s) {
        W r(0u);
        for (std::size_t i = 0; i < s.size();) {
            std::size_t n = (s.size() - i) % 18 ? (s.size() - i) % 18 : 18;
            unsigned long v = 0, m = 1;
            for (std::size_t j = 0; j < n; ++j, ++i) {
                if (s[i] < '0' || s[i] > '9') throw std::runtime_error("case: number " + s);
                v = v * 10 + (s[i] - '0');
                m *= 10;
            }
            r = r * W(m) + W(v);
        }
        return r;
    }
    template<typename I> I number(const std::string &s) {
        if (s.size() < 300) return I(parse<bits<1024>>(s));
        if (s.size() < 1200) return I(parse<wide>(s));
        return I(parse<huge>(s));
    }
    // exponent: digits in base 1024, most significant first
    inline wide expo(const Val &v) {
        wide r(0u);
        for (auto &d : v.e) r = r * wide(1024u) + number<wide>(d.s);
        return r;
    }

    // ---------------------------------------------------------------- flat coefficients
    template<typename V> struct flat;
    template<typename P> struct flat<el::element_fp<P>> {
        using V = el::element_fp<P>;
        using base = V;
        static constexpr std::size_t dim = 1;
        static V dec(const Val &v, std::size_t &at) { return V(number<typename V::integral_type>(v[at++].s)); }
        static void enc(const V &v, std::vector<typename base::integral_type> &o) { o.push_back(typename V::integral_type(v.data)); }
    };
    template<typename V, std::size_t K> struct flat_of {
        using U = typename V::underlying_type;
        using base = typename flat<U>::base;
        static constexpr std::size_t dim = K * flat<U>::dim;
        static V dec(const Val &v, std::size_t &at) {
            std::array<U, K> a;
            for (std::size_t i = 0; i < K; ++i) a[i] = flat<U>::dec(v, at);
            return V(a);
        }
        static void enc(const V &v, std::vector<typename base::integral_type> &o) { for (std::size_t i = 0; i < K; ++i) flat<U>::enc(v.data[i], o); }
    };
    template<typename P> struct flat<el::element_fp2<P>> : flat_of<el::element_fp2<P>, 2> { };
    template<typename P> struct flat<el::element_fp3<P>> : flat_of<el::element_fp3<P>, 3> { };
    template<typename P> struct flat<el::element_fp4<P>> : flat_of<el::element_fp4<P>, 2> { };
    template<typename P> struct flat<el::element_fp6_2over3<P>> : flat_of<el::element_fp6_2over3<P>, 2> { };
    template<typename P> struct flat<el::element_fp6_3over2<P>> : flat_of<el::element_fp6_3over2<P>, 3> { };
    template<typename P> struct flat<el::element_fp12_2over3over2<P>> : flat_of<el::element_fp12_2over3over2<P>, 2> { };

    template<typename V> V dec(const Val &v) {
        if (v.size() != flat<V>::dim) throw std::runtime_error("case: wrong dimension");
        std::size_t at = 0;
        return flat<V>::dec(v, at);
    }
    template<typename V> std::vector<typename flat<V>::base::integral_type> enc(const V &v) {
        std::vector<typename flat<V>::base::integral_type> o;
        flat<V>::enc(v, o);
        return o;
    }
    template<typename V> std::string show(const V &v) {
        std::string s = "(";
        for (auto &c : enc(v)) s += (s.size() > 1 ? "," : "") + rp::str(c);
        return s + ")";
    }
    inline std::string show(const Val &v) {
        std::string s = "(";
        for (auto &c : v.e) s += (s.size() > 1 ? "," : "") + c.s;
        return s + ")";
    }
    // the coefficients are exactly the specified ones (canonical residues)
    template<typename V> bool is(const V &v, const Val &w) {
        auto c = enc(v);
        if (c.size() != w.size()) throw std::runtime_error("case: wrong dimension");
        for (std::size_t i = 0; i < c.size(); ++i)
            if (c[i] != number<typename flat<V>::base::integral_type>(w[i].s)) return false;
        return true;
    }
    template<typename V> void want(const std::string &op, const V &got, const Val &w) {
        rp::report().check(is(got, w), op, [&] { return "gave " + show(got) + ", specified " + show(w); });
    }
    inline void flag(const std::string &op, bool got, bool w) {
        rp::report().check(got == w, op, [&] { return std::string("answered ") + (got ? "true" : "false"); });
    }

#define TW_HAS(NAME, EXPR)                                                                           \
    template<typename T, typename = void> struct has_##NAME : std::false_type { };                   \
    template<typename T> struct has_##NAME<T, std::void_t<decltype(EXPR)>> : std::true_type { };
    TW_HAS(sub, std::declval<typename T::underlying_type>())
    template<typename V> struct kind { static constexpr int value = 0; };
    template<typename P> struct kind<el::element_fp<P>> { static constexpr int value = 1; };
    template<typename P> struct kind<el::element_fp2<P>> { static constexpr int value = 2; };
    template<typename P> struct kind<el::element_fp3<P>> { static constexpr int value = 3; };
    template<typename P> struct kind<el::element_fp4<P>> { static constexpr int value = 4; };
    template<typename P> struct kind<el::element_fp6_2over3<P>> { static constexpr int value = 6; };
    template<typename P> struct kind<el::element_fp6_3over2<P>> { static constexpr int value = 7; };
    template<typename P> struct kind<el::element_fp12_2over3over2<P>> { static constexpr int value = 12; };
    // is there an operator* between a sub-field element and the tower element?
    template<typename S, typename V, typename = void> struct has_scale : std::false_type { };
    template<typename S, typename V> struct has_scale<S, V, std::void_t<decltype(el::operator*(std::declval<const S &>(), std::declval<const V &>()))>> : std::true_type { };

    // some named fields lack the constant is_square needs (it does not compile for them)
    template<typename F, typename = void> struct has_half : std::false_type { };
    template<typename F> struct has_half<F, std::void_t<decltype(F::group_order_minus_one_half)>> : std::true_type { };
    template<typename F, typename = void> struct has_policy : std::false_type { };
    template<typename F> struct has_policy<F, std::void_t<typename F::extension_policy>> : std::true_type { };
    template<typename V> constexpr bool squareness = has_half<typename flat<V>::base::field_type>::value && (kind<V>::value == 1 || has_policy<typename V::field_type>::value);

    template<typename V> struct ops {
        static constexpr int K = kind<V>::value;
        std::string nm;
        void bin(const Val &a, const Val &r) {
            const V x = dec<V>(a[0]), y = dec<V>(a[1]);
            bool same = r[3].b();
            V s = x + y, d = x - y, m = x * y;
            want(nm + "+", s, r[0]); want(nm + "-", d, r[1]); want(nm + "*", m, r[2]);
            V t = x; V *p = &(t += y); want(nm + "+=", t, r[0]); flag(nm + "+=.returns", p == &t, true);
            t = x; p = &(t -= y); want(nm + "-=", t, r[1]); flag(nm + "-=.returns", p == &t, true);
            t = x; p = &(t *= y); want(nm + "*=", t, r[2]); flag(nm + "*=.returns", p == &t, true);
            flag(nm + "==", x == y, same); flag(nm + "!=", x != y, !same);
            flag(nm + "==.result", s == dec<V>(r[0]) && d == dec<V>(r[1]) && m == dec<V>(r[2]), true);
            if (same) {
                t = x; t += t; want(nm + "+=.self", t, r[0]);
                t = x; t -= t; want(nm + "-=.self", t, r[1]);
                t = x; t *= t; want(nm + "*=.self", t, r[2]);
                want(nm + "+.self", x + x, r[0]); want(nm + "*.self", x * x, r[2]);
                t = x; t = t; want(nm + "=.self", t, a[0]);
                t = x; t = t * t + t - t; want(nm + "*.chain", t, r[2]);
            }
            want(nm + ".operand", x, a[0]); want(nm + ".operand", y, a[1]);
        }
        void un(const Val &a, const Val &r) {
            const V x = dec<V>(a[0]);
            want(nm + ".neg", -x, r[0]); want(nm + ".doubled", x.doubled(), r[1]); want(nm + ".squared", x.squared(), r[2]);
            V t = x; t = -t; want(nm + ".neg.self", t, r[0]);
            t = x; t = t.squared(); want(nm + ".squared.self", t, r[2]);
            if (r[3].size()) {
                want(nm + ".inversed", x.inversed(), r[3]);
                t = x; t = t.inversed(); want(nm + ".inversed.self", t, r[3]);
                want(nm + ".inversed.twice", x.inversed().inversed(), a[0]);
                flag(nm + ".inversed.product", (x * x.inversed()).is_one() && (x.inversed() * x).is_one(), true);
            }
            flag(nm + ".is_zero", x.is_zero(), r[4].b()); flag(nm + ".is_one", x.is_one(), r[5].b());
            flag(nm + ".zero", x == V::zero(), r[4].b()); flag(nm + ".one", x == V::one(), r[5].b());
            V c(x); want(nm + ".copy", c, a[0]);
            V mv(std::move(c)); want(nm + ".move", mv, a[0]);
            V as; as = x; want(nm + ".assign", as, a[0]);
            if (r[4].b()) want(nm + ".default", V(), a[0]);
            want(nm + ".operand", x, a[0]);
            if constexpr (K == 2 || K == 3) {      // the element from plain integers
                if constexpr (flat<V>::dim == 2) { want(nm + ".of_integers", V(std::stoul(a[0][0].s.substr(0, 9)), std::stoul(a[0][1].s.substr(0, 9))), lim(a[0])); }
                else { want(nm + ".of_integers", V(std::stoul(a[0][0].s.substr(0, 9)), std::stoul(a[0][1].s.substr(0, 9)), std::stoul(a[0][2].s.substr(0, 9))), lim(a[0])); }
            }
        }
        static Val lim(const Val &v) { Val w = v; for (auto &x : w.e) { x.s = x.s.substr(0, 9); x.s = std::to_string(std::stoul(x.s)); } return w; }
        template<typename S> void scale_by(const Val &a, const Val &r) {
            if constexpr (has_scale<S, V>::value) {
                const S s = dec<S>(a[1]);
                const V x = dec<V>(a[2]);
                want(nm + ".scale.left", s * x, r); want(nm + ".scale.right", x * s, r);
                want(nm + ".operand", x, a[2]);
            }
        }
        void scale(const Val &a, const Val &r) {
            long k = a[0].i();
            using B = typename flat<V>::base;
            if constexpr (K != 1) {
                using U = typename V::underlying_type;
                if (k == 0) return scale_by<B>(a, r);
                if constexpr (kind<U>::value != 1) {
                    using W = typename U::underlying_type;
                    if constexpr (kind<W>::value != 1) {
                        if (k == 1) return scale_by<W>(a, r);
                        return scale_by<U>(a, r);
                    } else return scale_by<U>(a, r);
                }
            }
        }
        void mnr(const Val &a, const Val &r) {
            if constexpr (K == 4 || K == 6 || K == 7 || K == 12) want(nm + ".mul_by_non_residue", V::one().mul_by_non_residue(dec<typename V::underlying_type>(a[0])), r);
        }
        void sparse(const Val &a, const Val &r) {
            if constexpr (K == 4) { const V x = dec<V>(a[0]), y = dec<V>(a[1]); want(nm + ".mul_by_023", x.mul_by_023(y), r); want(nm + ".mul_by_023.self", [&] { V t = x; t = t.mul_by_023(y); return t; }(), r); }
            if constexpr (K == 6) { const V x = dec<V>(a[0]), y = dec<V>(a[1]); want(nm + ".mul_by_2345", x.mul_by_2345(y), r); }
        }
        template<bool vw> void sp12(const Val &a, const Val &r) {
            if constexpr (K == 12) {
                using W = typename V::underlying_type::underlying_type;
                const V x = dec<V>(a[0]);
                const W e0 = dec<W>(a[1]), e1 = dec<W>(a[2]), e2 = dec<W>(a[3]);
                if (vw) want(nm + ".mul_by_045", x.mul_by_045(e0, e1, e2), r);
                else want(nm + ".mul_by_024", x.mul_by_024(e0, e1, e2), r);
            }
        }
        void fp2m(const Val &a, const Val &r) {
            if constexpr (K == 2) {
                using B = typename flat<V>::base;
                V x = dec<V>(a[0]);
                B b(number<typename B::integral_type>(a[1].s));
                want(nm + ".mul_x", x.mul_x(), r[0]); want(nm + ".mul_Fp_0", x.mul_Fp_0(b), r[1]);
                want(nm + ".mul_Fp_1", x.mul_Fp_1(b), r[2]); want(nm + ".mul_xi", x.mul_xi(), r[3]);
                want(nm + ".operand", x, a[0]);
            }
        }
        void succ(const Val &a, const Val &r) {
            if constexpr (K == 1) {
                auto one = [&](const V &v, const Val &w, const std::string &o) {
                    rp::report().check(enc(v)[0] == number<typename V::integral_type>(w.s), o, [&] { return "gave " + show(v) + ", specified " + w.s; });
                };
                const V x(number<typename V::integral_type>(a[0].s));
                V t = x; V *p = &++t; one(t, r[0], nm + ".pre++"); flag(nm + ".pre++.returns", p == &t, true);
                t = x; V o = t++; one(t, r[0], nm + ".post++"); one(o, a[0], nm + ".post++.old");
                t = x; p = &--t; one(t, r[1], nm + ".pre--"); flag(nm + ".pre--.returns", p == &t, true);
                t = x; o = t--; one(t, r[1], nm + ".post--"); one(o, a[0], nm + ".post--.old");
            }
        }
        void ord(const Val &a, const Val &r) {
            if constexpr (K == 1) {
                const V x(number<typename V::integral_type>(a[0].s)), y(number<typename V::integral_type>(a[1].s));
                bool lt = r[0].b(), eq = r[1].b();
                flag(nm + "<", x < y, lt); flag(nm + ">", x > y, !lt && !eq); flag(nm + "<=", x <= y, lt || eq); flag(nm + ">=", x >= y, !lt);
                flag(nm + "==", x == y, eq); flag(nm + "!=", x != y, !eq);
                if (eq) flag(nm + ".hash", std::hash<V>()(x) == std::hash<V>()(y + V::zero()), true);
            }
        }
        void ints(const Val &a, const Val &r) {
            if constexpr (K == 1) {
                auto one = [&](const V &v, const Val &w, const std::string &o) {
                    rp::report().check(enc(v)[0] == number<typename V::integral_type>(w.s), o, [&] { return "of " + a[0].s + " gave " + show(v) + ", specified " + w.s; });
                };
                const V x(number<typename V::integral_type>(a[1].s));
                bool neg = a[0].s[0] == '-';
                if (!neg) {
                    one(V(number<huge>(a[0].s)), r[0], nm + ".of_number");
                    one(V(number<typename V::integral_type>(r[0].s)), r[0], nm + ".of_integral_type");
                }
                if (a[0].s.size() < 19) {
                    long k = a[0].i();
                    one(V(k), r[0], nm + ".of_long"); one(V((long long)k), r[0], nm + ".of_longlong");
                    if (k == (int)k) { one(V((int)k), r[0], nm + ".of_int"); one(x + (int)k, r[1], nm + "+int"); one(x - (int)k, r[2], nm + "-int"); one(x * (int)k, r[3], nm + "*int"); one((int)k + x, r[1], nm + ".int+"); one((int)k * x, r[3], nm + ".int*"); V d = (int)k - x; one(-d, r[2], nm + ".int-"); }
                    if (k == (short)k) one(V((short)k), r[0], nm + ".of_short");
                    if (k >= 0) { one(V((unsigned long)k), r[0], nm + ".of_ulong"); if (k == (long)(unsigned)k) one(V((unsigned)k), r[0], nm + ".of_unsigned"); if (k < 256) one(V((unsigned char)k), r[0], nm + ".of_uchar"); }
                }
            }
        }
        void issq(const Val &a, const Val &r) {
            if constexpr ((K == 1 || K == 2 || K == 3) && squareness<V>) flag(nm + ".is_square", dec<V>(a[0]).is_square(), r.b());
        }
        void sqrt(const Val &a, const Val &r) {
            if constexpr (K == 1 || K == 2 || K == 3) {
                const V s = dec<V>(a[0]);
                if constexpr (squareness<V>) flag(nm + ".is_square", s.is_square(), true);
                V y = s.sqrt();
                rp::report().check(is(y, r[0]) || is(y, r[1]), nm + ".sqrt", [&] { return "of " + show(s) + " gave " + show(y) + ", specified +-" + show(r[0]); });
                want(nm + ".operand", s, a[0]);
            }
        }
        void pow(const Val &a, const Val &r) {
            const V x = dec<V>(a[0]);
            const wide e = expo(a[1]);
            want(nm + ".pow", x.pow(e), r);
            if (e < wide(1ul << 62)) {
                unsigned long n = static_cast<unsigned long>(e);
                if constexpr (K == 1) { want(nm + ".pow.ulong", x.pow(n), r); if (n < 1000) want(nm + ".pow.int", x.pow((int)n), r); }
                else want(nm + ".pow.ulong", x.pow(n), r);
                want(nm + ".pow.uint128", x.pow(boost::multiprecision::uint128_t(n)), r);
            }
            V t = x; t = t.pow(e); want(nm + ".pow.self", t, r);
            want(nm + ".operand", x, a[0]);
        }
        void frob(const Val &a, const Val &r) {
            if constexpr (K != 1) {
                const V x = dec<V>(a[0]);
                for (std::size_t k = 0; k < r.size(); ++k) {
                    rp::report().check(is(x.Frobenius_map(k), r[k]), nm + ".Frobenius_map", [&] { return "power " + std::to_string(k) + " gave " + show(x.Frobenius_map(k)) + ", specified " + show(r[k]); });
                    want(nm + ".Frobenius_map.int", x.Frobenius_map((int)k), r[k]);
                }
            }
        }
        void cyc(const Val &a, const Val &r) {
            if constexpr (K == 4 || K == 6 || K == 12) {
                const V x = dec<V>(a[0]);
                want(nm + ".unitary_inversed", x.unitary_inversed(), r[0]); want(nm + ".cyclotomic_squared", x.cyclotomic_squared(), r[1]);
                V t = x; t = t.cyclotomic_squared(); want(nm + ".cyclotomic_squared.self", t, r[1]);
                want(nm + ".operand", x, a[0]);
            }
        }
        void cycexp(const Val &a, const Val &r) {
            if constexpr (K == 4 || K == 6 || K == 12) {
                const V x = dec<V>(a[0]);
                want(nm + ".cyclotomic_exp", x.cyclotomic_exp(boost::multiprecision::number<boost::multiprecision::backends::cpp_int_modular_backend<512>>(expo(a[1]))), r);
            }
        }
        void operator()(const Val &v) {
            const std::string &op = v[0].s;
            const Val &a = v[2], &r = v[3];
            if (op == "bin") bin(a, r); else if (op == "un") un(a, r); else if (op == "scale") scale(a, r); else if (op == "mnr") mnr(a, r);
            else if (op == "sparse") sparse(a, r); else if (op == "s045") sp12<true>(a, r); else if (op == "s024") sp12<false>(a, r);
            else if (op == "fp2m") fp2m(a, r); else if (op == "succ") succ(a, r); else if (op == "ord") ord(a, r); else if (op == "int") ints(a, r);
            else if (op == "issq") issq(a, r); else if (op == "sqrt") sqrt(a, r); else if (op == "pow") pow(a, r); else if (op == "frob") frob(a, r);
            else if (op == "cyc") cyc(a, r); else if (op == "cycexp") cycexp(a, r);
            else throw std::runtime_error("case: unknown operation " + op);
        }
    };
    using Registry = std::map<std::string, std::function<void(const Val &)>>;
    inline Registry &registry() { static Registry r; return r; }
    inline void handle(const Val &v) {
        auto it = registry().find(v[1][0].s);
        if (it == registry().end()) throw std::runtime_error("case: unknown tower " + v[1][0].s);
        it->second(v);
    }
    template<typename V> struct reg { reg(const std::string &key, const std::string &nm) { registry()[key] = ops<V> {nm}; } };
}    // namespace tw
