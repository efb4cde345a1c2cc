// Field elements mapped to BLS12-381 points: the transitions of HashToCurve.qnt.
#pragma once
#include <nil/crypto3/algebra/curves/bls12.hpp>
#include <nil/crypto3/algebra/curves/detail/h2c/h2c_m2c.hpp>
#include "nc.hpp"

namespace hm {
    using rp::Val;
    namespace dt = nil::crypto3::algebra::curves::detail;
    template<bool Two> struct maps {
        using C = nc::cv::bls12<381>;
        using G = std::conditional_t<Two, typename C::template g2_type<>, typename C::template g1_type<>>;
        using E = typename G::value_type;
        using F = typename G::field_type::value_type;
        using O = nc::ops<G, typename C::scalar_field_type, nc::sw, nc::co::jacobian_with_a4_0, false>;
        std::string nm;
        O o;
        static E at(const Val &p) { return E(tw::dec<F>(p[0]), tw::dec<F>(p[1]), F::one()); }
        void operator()(const Val &v) const {
            const Val &a = v[2], &r = v[3];
            if (v[0].s == "map") {
                const F u = tw::dec<F>(a[0]);
                const E w = at(r[0]), g = dt::m2c_simple_swu<G>::process(u);
                rp::report().check(g.X == w.X && g.Y == w.Y && g.Z == w.Z, nm + ".sswu", [&] { return "gave " + tw::show(g.X) + " " + tw::show(g.Y) + " " + tw::show(g.Z) + ", specified " + tw::show(w.X) + " " + tw::show(w.Y); });
                o.is(dt::iso_map<G>::process(w), nc::point(r[1]), "iso_map");
                o.is(dt::map_to_curve<G>::process(u), nc::point(r[1]), "map_to_curve");
                o.is(dt::m2c_simple_swu_zeroAB<G>::process(u), nc::point(r[1]), "sswu_zeroAB");
            } else if (v[0].s == "iso")
                o.is(dt::iso_map<G>::process(at(a[0])), nc::point(r[0]), "iso_map");
            else throw std::runtime_error("case: unknown operation " + v[0].s);
        }
    };
    template<bool Two> struct rmaps { rmaps(const std::string &k) { tw::registry()[k] = maps<Two> {k, {k}}; } };
}    // namespace hm
