// Named curve groups: parameters are dumped for the specification to judge (CurveConstants.qnt), and the
// transitions of NamedCurves.qnt are replayed into the group's elements.  Points travel as <<x, y>>
// (<<>> is the neutral element), elements as the tuple of their coordinates, a coordinate as the list of
// its prime-field coefficients.
#pragma once
#include "nf.hpp"
#include "forms.hpp"
#include <nil/crypto3/algebra/wnaf.hpp>

namespace nc {
    using rp::Val;
    namespace alg = nil::crypto3::algebra;
    namespace cv = nil::crypto3::algebra::curves;
    namespace co = nil::crypto3::algebra::curves::coordinates;
    using sw = cv::forms::short_weierstrass;
    using te = cv::forms::twisted_edwards;
    using mg = cv::forms::montgomery;
    struct Pt { bool inf; Val x, y; };
    inline Pt point(const Val &v) { return v.size() ? Pt {false, v[0], v[1]} : Pt {true, Val(), Val()}; }
    inline std::string show(const Pt &p) { return p.inf ? "neutral" : tw::show(p.x) + tw::show(p.y); }

    // ---------------------------------------------------------------- coordinates
    template<typename Co> struct arity { static constexpr int n = 3; };
    template<> struct arity<co::affine> { static constexpr int n = 2; };
    template<> struct arity<co::extended_with_a_minus_1> { static constexpr int n = 4; };
    template<typename E, typename V, typename Co> E make(const Val &t) {
        if ((int)t.size() != arity<Co>::n) throw std::runtime_error("case: wrong number of coordinates");
        if constexpr (arity<Co>::n == 2) return E(tw::dec<V>(t[0]), tw::dec<V>(t[1]));
        else if constexpr (arity<Co>::n == 3) return E(tw::dec<V>(t[0]), tw::dec<V>(t[1]), tw::dec<V>(t[2]));
        else return E(tw::dec<V>(t[0]), tw::dec<V>(t[1]), tw::dec<V>(t[2]), tw::dec<V>(t[3]));
    }
    template<typename Co, typename E> std::string show(const E &e) {
        std::string s = tw::show(e.X) + tw::show(e.Y);
        if constexpr (arity<Co>::n == 4) s += tw::show(e.T);
        if constexpr (arity<Co>::n > 2) s += tw::show(e.Z);
        return s;
    }
    // does the element stand for the point?  (cross-multiplied: the definition of the coordinate system)
    template<typename Form, typename Co, typename E, typename V> bool stands(const E &e, const Pt &p) {
        constexpr bool ed = std::is_same<Form, te>::value;
        const V o = V::zero(), l = V::one();
        V x = o, y = ed ? l : o;
        if (!p.inf) x = tw::dec<V>(p.x), y = tw::dec<V>(p.y);
        if constexpr (std::is_same<Form, mg>::value) return p.inf ? e.is_zero() : !e.is_zero() && e.X == x && e.Y == y;
        else if constexpr (std::is_same<Co, co::affine>::value) {
            if (p.inf) return (e.X == E::group_type::params_type::zero_fill[0] && e.Y == E::group_type::params_type::zero_fill[1]) || (ed && e.X == x && e.Y == y);
            return e.X == x && e.Y == y;
        } else if constexpr (std::is_same<Co, co::extended_with_a_minus_1>::value)
            return e.Z != o && e.X == x * e.Z && e.Y == y * e.Z && e.T * e.Z == e.X * e.Y;
        else if constexpr (std::is_same<Co, co::inverted>::value)
            return p.inf ? e.Y == o && e.Z == o : e.Z != o && e.X * x == e.Z && e.Y * y == e.Z;
        else if constexpr (std::is_same<Co, co::projective>::value || std::is_same<Co, co::projective_with_a4_minus_3>::value)
            return p.inf ? e.Z == o && e.X == o : e.Z != o && e.X == x * e.Z && e.Y == y * e.Z;
        else return p.inf ? e.Z == o : e.Z != o && e.X == x * e.Z.squared() && e.Y == y * e.Z.squared() * e.Z;
    }
#define NC_HAS(NAME, EXPR)                                                                           \
    template<typename T, typename = void> struct has_##NAME : std::false_type { };                   \
    template<typename T> struct has_##NAME<T, std::void_t<decltype(EXPR)>> : std::true_type { };
    NC_HAS(wf, std::declval<const T &>().is_well_formed())
    NC_HAS(mixed, std::declval<T &>().mixed_add(std::declval<const T &>()))
    NC_HAS(subeq, std::declval<T &>() -= std::declval<const T &>())
    NC_HAS(affine, std::declval<const T &>().to_affine())
    NC_HAS(proj, std::declval<const T &>().to_projective())
    NC_HAS(inv, std::declval<const T &>().to_inverted())
    NC_HAS(ext, std::declval<const T &>().to_extended_with_a_minus_1())
    NC_HAS(zf, T::zero_fill)

    // elements whose affine form is held in the same type (the G2 of the edwards curve)
    template<typename E, typename Co, typename = void> struct same_affine : std::false_type { };
    template<typename E, typename Co> struct same_affine<E, Co, std::void_t<decltype(std::declval<const E &>().to_affine())>>
        : std::integral_constant<bool, !std::is_same<Co, co::affine>::value && std::is_same<decltype(std::declval<const E &>().to_affine()), E>::value> { };
    NC_HAS(fill, T::one_fill)
    template<typename T, typename = void> struct has_ft : std::false_type { };
    template<typename T> struct has_ft<T, std::void_t<typename T::field_type>> : std::true_type { };
    template<typename G, typename S, typename Form, typename Co, bool Map> struct ops {
        using E = typename G::value_type;
        using V = typename G::field_type::value_type;
        using P = typename G::params_type;
        using I = typename S::integral_type;
        using SV = typename S::value_type;
        // affine short-Weierstrass formulas multiply by integer literals, which extension-field elements do not offer
        static constexpr bool arithmetic = !(std::is_same<Form, sw>::value && std::is_same<Co, co::affine>::value && tw::flat<V>::dim > 1);
        static constexpr bool pointwise = same_affine<E, Co>::value;
        std::string nm;
        E el(const Val &t) const {
            if (!t.size()) return E::zero();
            return make<E, V, Co>(t);
        }
        template<typename F2, typename C2, typename E2> void is(const E2 &e, const Pt &r, const std::string &op) const {
            rp::report().check(stands<F2, C2, E2, V>(e, r), nm + "." + op, [&] { return "gave " + show<C2>(e) + ", specified point " + show(r); });
        }
        void is(const E &e, const Pt &r, const std::string &op) const { is<Form, Co>(e, r, op); }
        void flag(const std::string &op, bool got, bool w) const {
            rp::report().check(got == w, nm + "." + op, [&] { return std::string("answered ") + (got ? "true" : "false"); });
        }
        static bool z1(const E &e) { if constexpr (arity<Co>::n == 2) return true; else return e.Z == V::one(); }
        void add(const Val &a, const Val &r) const {
            const E x = el(a[0]), y = el(a[1]);
            Pt s = point(r[0]);
            bool same = r[1].b();
            flag("==", x == y, same); flag("!=", x != y, !same); flag("==.sym", y == x, same);
            if constexpr (arithmetic) {
                is(x + y, s, "+"); is(y + x, s, "+.sym");
                E z = x; z += y; is(z, s, "+=");
                if constexpr (has_mixed<E>::value) if (z1(y) || y.is_zero()) { E w = x; w.mixed_add(y); is(w, s, "mixed_add"); }
                if (same) { E w = x; w += w; is(w, s, "+=.alias"); is(x + x, s, "+.alias"); E u = x; u.double_inplace(); is(u, s, "double"); }
            }
        }
        void sub(const Val &a, const Val &r) const {
            if constexpr (arithmetic) {
                const E x = el(a[0]), y = el(a[1]);
                is(x - y, point(r), "-");
                if constexpr (has_subeq<E>::value) { E z = x; z -= y; is(z, point(r), "-="); }
                is(x + (-y), point(r), "+neg");
            }
        }
        void one(const Val &a, const Val &r) const {        // negation, doubling
            if constexpr (arithmetic) {
                const E x = el(a[0]);
                is(-x, point(r[0]), "neg");
                E z = x; z.double_inplace(); is(z, point(r[1]), "double");
            }
        }
        void conv(const Val &a, const Val &r) const {
            const E x = el(a[0]);
            Pt p = point(r[0]);
            flag("is_zero", x.is_zero(), p.inf);
            if constexpr (has_wf<E>::value) flag("is_well_formed", x.is_well_formed(), true);
            E c(x); is(c, p, "copy");
            if constexpr (std::is_constructible<E, V, V>::value)
                if (!p.inf && !(std::is_same<Co, co::inverted>::value && (tw::dec<V>(p.x) == V::zero() || tw::dec<V>(p.y) == V::zero())))
                    is(E(tw::dec<V>(p.x), tw::dec<V>(p.y)), p, "from_affine");
            E d; d = x; is(d, p, "assign");
            if constexpr (pointwise) {      // the element holds x, y and one; "to_projective" normalises the inverted tuple
                const E f = x.to_affine();
                const bool ok = f.X == (p.inf ? V::zero() : tw::dec<V>(p.x)) && f.Y == (p.inf ? V::one() : tw::dec<V>(p.y)) && f.Z == V::one();
                rp::report().check(ok, nm + ".to_affine", [&] { return "gave " + nc::show<Co>(f) + ", specified point " + nc::show(p); });
                is(x.to_projective(), p, "to_projective");
            } else {
            if constexpr (has_affine<E>::value) is<Form, co::affine>(x.to_affine(), p, "to_affine");
            if constexpr (has_proj<E>::value) is<Form, co::projective>(x.to_projective(), p, "to_projective");
            }
            if constexpr (has_inv<E>::value) if (p.inf || !(tw::dec<V>(p.x) == V::zero() || tw::dec<V>(p.y) == V::zero())) is<Form, co::inverted>(x.to_inverted(), p, "to_inverted");
            if constexpr (has_ext<E>::value) is<Form, co::extended_with_a_minus_1>(x.to_extended_with_a_minus_1(), p, "to_extended");
            if (p.inf) { is(E(), p, "default"); is(E::zero(), p, "zero"); flag("zero.is_zero", E::zero().is_zero(), true); }
        }
        void off(const Val &a) const { if constexpr (has_wf<E>::value && !std::is_same<Form, mg>::value) flag("is_well_formed.off", el(a[0]).is_well_formed(), false); }
        void mul(const Val &a, const Val &r) const {
            if constexpr (arithmetic) {
                const E x = el(a[0]);
                Pt s = point(r);
                I k(tw::number<I>(a[1].s));
                is(x * k, s, "*number"); is(k * x, s, "number*");
                is(cv::detail::scalar_mul(x, k), s, "scalar_mul");
                if constexpr (has_ft<E>::value) if (k < I(1000u)) { const std::size_t n = std::stoul(k.str()); is(x * n, s, "*size_t"); is(n * x, s, "size_t*"); }
                if constexpr (std::is_constructible<E, I>::value) if (x == E::one()) is(E(k), s, "from_number");
                if (k < S::modulus) {
                    SV f(k);
                    is(x * f, s, "*field"); is(f * x, s, "field*");
                    E z = x; z *= f; is(z, s, "*=field");
                }
                for (std::size_t w = 1; w <= 5; w += 2) is(alg::fixed_window_wnaf_exp(w, x, k), s, "wnaf" + std::to_string(w));
            }
        }
        void first(const Val &, const Val &r) const { E x = E::one(); is(x, point(r), "one"); flag("one.is_zero", x.is_zero(), false); if constexpr (has_wf<E>::value) flag("one.is_well_formed", x.is_well_formed(), true); }
        void mont(const Val &a, const Val &r) const {       // through the other form and back; r[1], r[2]: the images for either sign of v
            const E x = el(a[0]);
            if constexpr (Map) {
                auto m = x.to_montgomery();
                using M = decltype(m);
                // which of the two square roots the library takes is its choice, but it is the same one for every point
                const bool sign = E::one().to_montgomery().Y == M::one().Y;
                is<mg, co::affine>(m, point(sign ? r[1] : r[2]), "to_montgomery");
                is(m.to_twisted_edwards(), point(r[0]), "to_twisted_edwards");
            }
        }
        void operator()(const Val &v) const {
            const std::string &op = v[0].s;
            const Val &a = v[2], &r = v[3];
            if (op == "add") add(a, r); else if (op == "sub") sub(a, r); else if (op == "un") one(a, r); else if (op == "conv") conv(a, r);
            else if (op == "off") off(a); else if (op == "mul") mul(a, r); else if (op == "one") first(a, r);
            else if (op == "mont") mont(a, r);
            else throw std::runtime_error("case: unknown operation " + op);
        }
        static void dump(std::ostream &o, const std::string &k) {
            if constexpr (!has_fill<P>::value) {
                const E g = E::one().to_affine();
                nf::put(o, k, "a", E::mul_by_a(V::one())); nf::put(o, k, "b", E::mul_by_d(V::one()));
                std::array<V, 2> xy = {g.X, g.Y};
                nf::put(o, k, "generator", xy);
            } else {
            if constexpr (std::is_same<Form, sw>::value) { nf::put(o, k, "a", P::a); nf::put(o, k, "b", P::b); }
            else if constexpr (std::is_same<Form, te>::value) { nf::put(o, k, "a", P::a); nf::put(o, k, "b", P::d); }
            else { nf::put(o, k, "a", P::A); nf::put(o, k, "b", P::B); }
            std::array<V, 2> g = {P::one_fill[0], P::one_fill[1]};
            nf::put(o, k, "generator", g);
            }
            if constexpr (has_zf<P>::value) { std::array<V, 2> z = {P::zero_fill[0], P::zero_fill[1]}; nf::put(o, k, "zero_fill", z); }
            nf::put(o, k, "modulus", typename G::field_type::integral_type(G::field_type::modulus));
            nf::put(o, k, "order", I(S::modulus));
            nf::put(o, k, "params_order", typename P::scalar_field_type::integral_type(P::scalar_field_type::modulus));
            nf::put(o, k, "value_bits", std::size_t(G::value_bits));
        }
    };
    template<typename C, typename G, typename Form, typename Co, bool Map> struct group {
        group(const std::string &key, const std::string &nm) {
            using O = ops<G, typename C::scalar_field_type, Form, Co, Map>;
            tw::registry()[key] = O {nm};
            nf::dumps().push_back({key, [](std::ostream &o, const std::string &k) { O::dump(o, k + " curve"); }});
        }
    };
    template<typename C> struct plain {
        plain(const std::string &key) {
            nf::dumps().push_back({key, [](std::ostream &o, const std::string &k0) {
                const std::string k = k0 + " curve";
                using I = typename C::integral_type;
                nf::put(o, k, "a", I(C::a)); nf::put(o, k, "b", I(C::b)); nf::put(o, k, "modulus", I(C::p)); nf::put(o, k, "order", I(C::q));
                nf::put(o, k, "params_order", typename C::scalar_field_type::integral_type(C::scalar_field_type::modulus));
                o << k << " generator " << nf::num(I(C::x)) << ' ' << nf::num(I(C::y)) << '\n';
            }});
        }
    };
}    // namespace nc
