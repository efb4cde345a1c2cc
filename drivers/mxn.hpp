// The multi-exponentiation methods on the named groups in their default coordinates.
#pragma once
#include "mx.hpp"
namespace mx {
    template<typename C, typename Gr, typename Form, typename Co> struct named {
        using G = Gr;
        using E = typename G::value_type;
        using F = typename C::scalar_field_type;
        using SV = typename F::value_type;
        using I = typename F::integral_type;
        static constexpr bool slow = true;
        nc::ops<G, F, Form, Co, false> o;
        SV scalar(const Val &v) const { return SV(number(v)); }
        I number(const Val &v) const { return tw::number<I>(v.s); }
        E point(const Val &v) const { return o.el(v); }
        void extra(const std::vector<SV> &, const Val &, const Val &, const std::string &) const { }
        void is(const E &e, const Val &r, const std::string &op) const { o.is(e, nc::point(r), op); }
    };
    template<typename C, typename G, typename Form, typename Co> struct group {
        group(const std::string &key, const std::string &nm) { tw::registry()[key] = ops<named<C, G, Form, Co>> {{{nm}}, "mx"}; }
    };
}
