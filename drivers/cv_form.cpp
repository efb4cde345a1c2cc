// -DTP= -DTD= -DSW | -DTE | -DMG | -DED
#include "toycurve.hpp"
#include "cv_toy.hpp"
namespace {
    using namespace cvr;
    namespace cv = alg::curves;
    namespace co = alg::curves::coordinates;
#if TD == 1
    using Field = toy::fp<TP>;
#else
    using Field = alg::fields::fp2<toy::fp<TP>>;
#endif
    using V = Field::value_type;
    using C = toy::codec<V>;
    using Scalars = toy::fp<997>;
    using sw = cv::forms::short_weierstrass;
    using te = cv::forms::twisted_edwards;
    using mg = cv::forms::montgomery;
    template<typename Form, typename Co> using Elt = typename toy::group<Field, Co, Form>::value_type;

    // ---------------------------------------------------------------- tuples <-> elements
    template<typename Form, typename Co> struct ad {            // X, Y, Z
        using E = Elt<Form, Co>;
        static E make(const Tup &t) { return E(C::dec(t[0]), C::dec(t[1]), C::dec(t[2])); }
        static Tup get(const E &e) { return {(int)C::enc(e.X), (int)C::enc(e.Y), (int)C::enc(e.Z)}; }
        static bool z1(const E &e) { return e.Z == V::one(); }
        static const int arity = 3;
    };
    template<typename Form> struct ad<Form, co::affine> {
        using E = Elt<Form, co::affine>;
        static E make(const Tup &t) { return E(C::dec(t[0]), C::dec(t[1])); }
        static Tup get(const E &e) { return {(int)C::enc(e.X), (int)C::enc(e.Y)}; }
        static bool z1(const E &) { return true; }
        static const int arity = 2;
    };
    template<> struct ad<mg, co::affine> {
        using E = Elt<mg, co::affine>;
        static E make(const Tup &t) { return t.empty() ? E::zero() : E(C::dec(t[0]), C::dec(t[1])); }
        static Tup get(const E &e) { return e.is_zero() ? Tup {} : Tup {(int)C::enc(e.X), (int)C::enc(e.Y)}; }
        static bool z1(const E &) { return true; }
        static const int arity = 2;
    };
    template<> struct ad<te, co::extended_with_a_minus_1> {
        using E = Elt<te, co::extended_with_a_minus_1>;
        static E make(const Tup &t) { return E(C::dec(t[0]), C::dec(t[1]), C::dec(t[2]), C::dec(t[3])); }
        static Tup get(const E &e) { return {(int)C::enc(e.X), (int)C::enc(e.Y), (int)C::enc(e.T), (int)C::enc(e.Z)}; }
        static bool z1(const E &e) { return e.Z == V::one(); }
        static const int arity = 4;
    };
#ifdef ED
    // Edwards inverted coordinates: element_g1.hpp includes a file the repository does not have, so the three
    // formulas are exercised through this minimal element (its dispatch mirrors the other forms').
    namespace cd = cv::detail;
    struct EdElement {
        struct params_type { inline static V c, d; };
        using field_type = Field;
        V X, Y, Z;
        EdElement() : X(V::zero()), Y(V::zero()), Z(V::zero()) { }
        EdElement(const V &x, const V &y, const V &z) : X(x), Y(y), Z(z) { }
        bool is_zero() const { return Y == V::zero() && Z == V::zero(); }
        bool operator==(const EdElement &o) const {
            if (is_zero() || o.is_zero()) return is_zero() == o.is_zero();
            return X * o.Z == o.X * Z && Y * o.Z == o.Y * Z;
        }
        bool operator!=(const EdElement &o) const { return !(*this == o); }
        void double_inplace() { cd::edwards_element_g1_inverted_dbl_2007_bl::process(*this); }
        EdElement &operator+=(const EdElement &o) {
            if (is_zero()) return *this = o;
            if (o.is_zero()) return *this;
            if (*this == o) double_inplace();
            else cd::edwards_element_g1_inverted_add_2007_bl::process(*this, o);
            return *this;
        }
        EdElement operator+(const EdElement &o) const { EdElement r = *this; r += o; return r; }
        EdElement operator-() const { return EdElement(-X, Y, Z); }
        EdElement operator-(const EdElement &o) const { return *this + -o; }
        void mixed_add(const EdElement &o) {
            if (is_zero()) { *this = o; return; }
            if (o.is_zero()) return;
            cd::edwards_element_g1_inverted_madd_2007_bl::process(*this, o);
        }
    };
    struct ed;
    template<> struct ad<ed, co::inverted> {
        using E = EdElement;
        static E make(const Tup &t) { return E(C::dec(t[0]), C::dec(t[1]), C::dec(t[2])); }
        static Tup get(const E &e) { return {(int)C::enc(e.X), (int)C::enc(e.Y), (int)C::enc(e.Z)}; }
        static bool z1(const E &e) { return e.Z == V::one(); }
        static const int arity = 3;
    };
#endif
#define HAS(NAME, EXPR)                                                                               \
    template<typename T, typename = void> struct has_##NAME : std::false_type { };                   \
    template<typename T> struct has_##NAME<T, std::void_t<decltype(EXPR)>> : std::true_type { };
    HAS(wf, std::declval<const T &>().is_well_formed())
    HAS(mixed, std::declval<T &>().mixed_add(std::declval<const T &>()))
    HAS(subeq, std::declval<T &>() -= std::declval<const T &>())
    HAS(affine, std::declval<const T &>().to_affine())
    HAS(proj, std::declval<const T &>().to_projective())
    HAS(inv, std::declval<const T &>().to_inverted())
    using Num = typename Scalars::integral_type;
    HAS(fromnum, T(std::declval<const Num &>()))
    HAS(asgnum, std::declval<T &>() = std::declval<const Num &>())
    HAS(ext, std::declval<const T &>().to_extended_with_a_minus_1())

    Pt &cur() { static Pt p; return p; }
    template<typename Form, typename Co>
    void expect(const Sys &s, const typename ad<Form, Co>::E &e, const Pt &r, const std::string &what,
                const std::function<std::string()> &from) {
        Tup t = ad<Form, Co>::get(e);
        auto i = s.stands.find(t);
        rp::report().check(i != s.stands.end() && i->second == r, what, [&] {
            return from() + " gave " + show(t) + (i == s.stands.end() ? " which stands for no point" : " = point " + show(i->second)) +
                   ", specified point " + show(r);
        });
    }

    // which tuples of a point to try: all, or an even sample when there are too many
    template<typename F> void each(const std::vector<Tup> &v, std::size_t cap, F &&f) {
        std::size_t st = v.size() <= cap ? 1 : (v.size() + cap - 1) / cap;
        for (std::size_t i = 0; i < v.size(); i += st) f(v[i]);
    }
    const std::vector<Tup> none;
    const std::vector<Tup> &reps(const Sys &s, const Pt &p) { auto i = s.in.find(p); return i == s.in.end() ? none : i->second; }

    template<typename Form, typename Co>
    void arith(const Sys &s, const rp::Val &v, const std::string &op, const std::string &tag, const Pt &p, std::size_t cap) {
        using A = ad<Form, Co>;
        using E = typename A::E;
        auto &R = rp::report();
        if (op == "add" || op == "sub") {
            Pt q = tup(v[2][1]), r = tup(v[3]);
            bool rep = s.has(r);
            each(reps(s, p), cap, [&](const Tup &tp) {
                each(reps(s, q), cap, [&](const Tup &tq) {
                    const E x = A::make(tp), y = A::make(tq);
                    auto from = [&] { return show(tp) + " " + op + " " + show(tq); };
                    if (op == "add") {
                        R.check((x == y) == (p == q), tag + "equal", [&] { return show(tp) + " == " + show(tq) + " wrong"; });
                        R.check((x != y) == (p != q), tag + "unequal", [&] { return show(tp) + " != " + show(tq) + " wrong"; });
                        if (!rep) return;
                        expect<Form, Co>(s, x + y, r, tag + "plus", from);
                        E z = x;
                        z += y;
                        expect<Form, Co>(s, z, r, tag + "plus_assign", from);
                        if (&tp == &tq) { E w = x; w += w; expect<Form, Co>(s, w, r, tag + "plus_assign.alias", from); }
                        if constexpr (has_mixed<E>::value) {
                            if (A::z1(y) || y.is_zero()) {
                                E w = x;
                                w.mixed_add(y);
                                expect<Form, Co>(s, w, r, tag + "mixed_add", from);
                                if (tp == tq) { E u = x; u.mixed_add(u); expect<Form, Co>(s, u, r, tag + "mixed_add.alias", from); }
                            }
                        }
                    } else {
                        if (!rep) return;
                        expect<Form, Co>(s, x - y, r, tag + "minus", from);
                        if constexpr (has_subeq<E>::value) {
                            E z = x;
                            z -= y;
                            expect<Form, Co>(s, z, r, tag + "minus_assign", from);
                            if (tp == tq) { E w = x; w -= w; expect<Form, Co>(s, w, r, tag + "minus_assign.alias", from); }
                        }
                    }
                });
            });
        } else if (op == "neg" || op == "dbl") {
            Pt r = tup(v[3]);
            if (!s.has(r)) return;
            for (auto &t : reps(s, p)) {
                const E x = A::make(t);
                auto from = [&] { return op + " " + show(t); };
                if (op == "neg") {
                    expect<Form, Co>(s, -x, r, tag + "neg", from);
                    expect<Form, Co>(s, -(-x), p, tag + "neg.twice", from);
                } else {
                    E z = x;
                    z.double_inplace();
                    expect<Form, Co>(s, z, r, tag + "double", from);
                }
            }
        }
    }
    template<typename Form, typename Co>
    void convert(const Curve &cu, const Sys &s, const std::string &tag, const Pt &p) {
        using A = ad<Form, Co>;
        using E = typename A::E;
        auto &R = rp::report();
        for (auto &t : reps(s, p)) {
            const E x = A::make(t);
            auto from = [&] { return show(t); };
            R.check(x.is_zero() == p.empty(), tag + "is_zero", [&] { return show(t) + " is_zero wrong"; });
            if constexpr (has_wf<E>::value)
                R.check(x.is_well_formed(), tag + "is_well_formed", [&] { return show(t) + " rejected"; });
            for (auto &u : reps(s, p))
                R.check(x == A::make(u) && !(x != A::make(u)), tag + "equal", [&] { return show(t) + " vs " + show(u); });
            E y(x);
            E z;
            z = x;
            expect<Form, Co>(s, y, p, tag + "copy", from);
            expect<Form, Co>(s, z, p, tag + "assign", from);
            z = z;
            expect<Form, Co>(s, z, p, tag + "assign.self", from);
            if constexpr (std::is_constructible<E, V, V>::value)
                if (p.size() == 2)
                    expect<Form, Co>(s, E(C::dec(p[0]), C::dec(p[1])), p, tag + "from_affine", from);
            if constexpr (has_affine<E>::value)
                if (cu.count("affine"))
                    expect<Form, co::affine>(cu.at("affine"), x.to_affine(), p, tag + "to_affine", from);
            if constexpr (has_proj<E>::value)
                if (cu.count("projective"))
                    expect<Form, co::projective>(cu.at("projective"), x.to_projective(), p, tag + "to_projective", from);
            if constexpr (has_inv<E>::value)
                if (cu.count("inverted") && cu.at("inverted").has(p))
                    expect<Form, co::inverted>(cu.at("inverted"), x.to_inverted(), p, tag + "to_inverted", from);
            if constexpr (has_ext<E>::value)
                if (cu.count("extended"))
                    expect<Form, co::extended_with_a_minus_1>(cu.at("extended"), x.to_extended_with_a_minus_1(), p,
                                                              tag + "to_extended", from);
        }
        if (p.empty()) {
            auto from = [] { return std::string("zero"); };
            expect<Form, Co>(s, E(), p, tag + "default", from);
            expect<Form, Co>(s, E::zero(), p, tag + "zero", from);
            R.check(E::zero().is_zero() && E().is_zero(), tag + "zero", from);
            // every tuple that stands for no point is rejected
            if constexpr (has_wf<E>::value) {
                std::size_t q = C::q(), n = 1;
                for (int i = 0; i < A::arity; ++i) n *= q;
                std::size_t st = n > 200000 ? n / 100003 : 1;
                for (std::size_t i = 0; i < n; i += st) {
                    Tup t;
                    for (std::size_t j = i, m = 0; m < A::arity; ++m, j /= q) t.push_back(int(j % q));
                    if (s.stands.count(t) || s.any.count(t)) continue;
                    R.check(!A::make(t).is_well_formed(), tag + "is_well_formed.off", [&] { return show(t) + " accepted"; });
                }
            }
        }
    }
    template<typename Form, typename Co>
    void count(const Sys &s, const std::string &cname, const rp::Val &v, const std::string &tag, const Pt &p) {
        using A = ad<Form, Co>;
        using E = typename A::E;
        bool ok = false;
        for (auto &x : v[1][2].e) ok = ok || x.s == cname;
        if (!ok) return;
        Pt r = tup(v[3]);
        unsigned long k = v[1][1].i();
        using I = typename Scalars::integral_type;
        using SV = typename Scalars::value_type;
        int nr = 0;
        each(reps(s, p), C::q() <= 13 ? 99 : 7, [&](const Tup &t) {
            const E x = A::make(t);
            auto from = [&] { return std::to_string(k) + " * " + show(t); };
            expect<Form, Co>(s, x * I(k), r, tag + "times_number", from);
            expect<Form, Co>(s, I(k) * x, r, tag + "number_times", from);
            expect<Form, Co>(s, cv::detail::scalar_mul(x, I(k)), r, tag + "scalar_mul", from);
            expect<Form, Co>(s, x * SV(I(k)), r, tag + "times_field", from);
            expect<Form, Co>(s, SV(I(k)) * x, r, tag + "field_times", from);
            E z = x;
            z *= SV(I(k));
            expect<Form, Co>(s, z, r, tag + "times_assign", from);
            expect<Form, Co>(s, x * std::size_t(k), r, tag + "times_size_t", from);
            expect<Form, Co>(s, std::size_t(k) * x, r, tag + "size_t_times", from);
            if (nr++ < 3) {
                for (std::size_t w = 1; w <= 5; ++w)
                    expect<Form, Co>(s, alg::fixed_window_wnaf_exp(w, x, I(k)), r, tag + "wnaf" + std::to_string(w), from);
                if (t.size() && (A::arity == 2 || A::z1(x)) && !p.empty()) {
                    auto &one = toy::group<Field, Co, Form>::params_type::one_fill;
                    one[0] = C::dec(p[0]);
                    one[1] = C::dec(p[1]);
                    expect<Form, Co>(s, E::one(), p, tag + "one", from);
                    if constexpr (has_fromnum<E>::value) expect<Form, Co>(s, E(I(k)), r, tag + "from_number", from);
                    if constexpr (has_asgnum<E>::value) {
                        E y;
                        y = I(k);
                        expect<Form, Co>(s, y, r, tag + "assign_number", from);
                    }
                }
            }
        });
    }
    template<typename Form, typename Co>
    void run1(const Curve &cu, const std::string &cname, const rp::Val &v) {
        using A = ad<Form, Co>;
        using E = typename A::E;
        auto it = cu.find(cname);
        if (it == cu.end()) return;
        const Sys &s = it->second;
        auto &R = rp::report();
        const std::string op = v[0].s, tag = std::string(v[1][0].s, 0, 2) + "." + cname + ".";
        Pt p = tup(v[2][0]);
        const std::size_t cap = C::q() <= 13 ? 99 : 9;
        // the affine formulas multiply by integer literals, which extension-field elements do not offer
        constexpr bool arithmetic = !(std::is_same<Form, sw>::value && std::is_same<Co, co::affine>::value && TD > 1);
        if constexpr (arithmetic) {
            if (op == "add" || op == "sub" || op == "neg" || op == "dbl") arith<Form, Co>(s, v, op, tag, p, cap);
            if (op == "mul") count<Form, Co>(s, cname, v, tag, p);
        }
        if (op == "conv") convert<Form, Co>(cu, s, tag, p);
    }
#ifdef SW
    void run(const Key &k, const Curve &cu, const rp::Val &v) {
        using PP = toy::curve_params<Field, sw>;
        PP::a = C::dec(k.a);
        PP::b = C::dec(k.b);
        PP::zero_fill[0] = V::zero();
        PP::zero_fill[1] = C::dec(k.zf);
        run1<sw, co::affine>(cu, "affine", v);
        run1<sw, co::projective>(cu, "projective", v);
        run1<sw, co::jacobian>(cu, "jacobian", v);
        run1<sw, co::jacobian_with_a4_0>(cu, "jacobian_a0", v);
        run1<sw, co::jacobian_with_a4_minus_3>(cu, "jacobian_a3", v);
        run1<sw, co::projective_with_a4_minus_3>(cu, "projective_a3", v);
    }
    Reg reg("sw", TP, TD, run);
#endif
#ifdef TE
    void run(const Key &k, const Curve &cu, const rp::Val &v) {
        using PP = toy::curve_params<Field, te>;
        PP::a = C::dec(k.a);
        PP::d = C::dec(k.b);
        PP::zero_fill[0] = V::zero();
        PP::zero_fill[1] = C::dec(k.zf);
        if (v[0].s == "mont") {
            using MP = toy::curve_params<Field, mg>;
            MP::A = C::dec(v[1][1].i());
            MP::B = C::dec(v[1][2].i());
            using TA = ad<te, co::affine>;
            using MA = ad<mg, co::affine>;
            const Sys &s = cu.at("affine");
            Pt p = tup(v[2][0]), q0 = tup(v[3][0]), q1 = tup(v[3][1]);
            auto &R = rp::report();
            for (auto &t : reps(s, p)) {
                auto m = TA::make(t).to_montgomery();
                Tup g = MA::get(m);
                R.check(g == q0 || g == q1, "te.affine.to_montgomery", [&] { return show(t) + " gave " + show(g); });
                R.check(m.is_well_formed(), "te.affine.to_montgomery", [&] { return show(t) + " gave " + show(g) + " off the curve"; });
                auto back = m.to_twisted_edwards();
                expect<te, co::affine>(s, back, p, "mg.affine.to_twisted_edwards", [&] { return show(t) + " -> " + show(g); });
            }
            for (const Pt &q : {q0, q1}) {       // v = 0 or u = -1 only at exceptional points
                auto b = MA::make(q).to_twisted_edwards();
                Tup g = TA::get(b);
                Tup n = p.empty() ? p : Tup {(int)C::enc(-C::dec(p[0])), p[1]};
                auto i = s.stands.find(g);
                R.check(i != s.stands.end() && (i->second == p || i->second == n), "mg.affine.to_twisted_edwards",
                        [&] { return show(q) + " gave " + show(g); });
            }
            return;
        }
        run1<te, co::affine>(cu, "affine", v);
        run1<te, co::inverted>(cu, "inverted", v);
        run1<te, co::extended_with_a_minus_1>(cu, "extended", v);
    }
    Reg reg("te", TP, TD, run);
#endif
#ifdef ED
    void run(const Key &k, const Curve &cu, const rp::Val &v) {
        EdElement::params_type::c = C::dec(k.a);
        EdElement::params_type::d = C::dec(k.b);
        const std::string op = v[0].s;
        if (op == "add" || op == "dbl") arith<ed, co::inverted>(cu.at("inverted"), v, op, "ed.inverted.", tup(v[2][0]), 99);
    }
    Reg reg("ed", TP, TD, run);
#endif
#ifdef MG
    void run(const Key &k, const Curve &cu, const rp::Val &v) {
        using PP = toy::curve_params<Field, mg>;
        PP::A = C::dec(k.a);
        PP::B = C::dec(k.b);
        run1<mg, co::affine>(cu, "affine", v);
    }
    Reg reg("mg", TP, TD, run);
#endif
}    // namespace
