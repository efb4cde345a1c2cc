// Toy curves: the library's curve_element templates over toy fields, with the curve's coefficients
// settable at run time so that one translation unit covers every curve over a field.
#pragma once
#include "toy.hpp"
#include <nil/crypto3/algebra/curves/forms.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/coordinates.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/element_g1_affine.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/projective/element_g1.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/projective_with_a4_minus_3/element_g1.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian/element_g1.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_0/element_g1.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/twisted_edwards/coordinates.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/twisted_edwards/element_g1_affine.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/twisted_edwards/inverted/element_g1.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/twisted_edwards/extended_with_a_minus_1/element_g1.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/montgomery/element_g1_affine.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/edwards/inverted/add_2007_bl.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/edwards/inverted/dbl_2007_bl.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/edwards/inverted/madd_2007_bl.hpp>
#include <nil/crypto3/algebra/curves/detail/subgroup_check.hpp>
#include <nil/crypto3/algebra/wnaf.hpp>

namespace toy {
    namespace cv = alg::curves;
    template<typename Field, typename Form> struct curve_params;
    template<typename Field, typename Coordinates, typename Form> struct group;
    template<typename Field> struct curve {
        using base_field_type = Field;
        template<typename Coordinates, typename Form> using g1_type = group<Field, Coordinates, Form>;
    };
    template<typename Field, typename Coordinates, typename Form> struct group {
        using params_type = curve_params<Field, Form>;
        using field_type = Field;
        using curve_type = curve<Field>;
        using value_type = cv::detail::curve_element<params_type, Form, Coordinates>;
        constexpr static const std::size_t value_bits = Field::value_bits;
    };
    template<typename Field, typename Form> struct curve_params_base {
        using field_type = Field;
        using V = typename Field::value_type;
        template<typename Coordinates> using group_type = group<Field, Coordinates, Form>;
        inline static V zero_fill[2];
        inline static V one_fill[2];
    };
    template<typename Field> struct curve_params<Field, cv::forms::short_weierstrass>
        : curve_params_base<Field, cv::forms::short_weierstrass> {
        inline static typename Field::value_type a, b;
    };
    template<typename Field> struct curve_params<Field, cv::forms::twisted_edwards>
        : curve_params_base<Field, cv::forms::twisted_edwards> {
        inline static typename Field::value_type a, d;
    };
    template<typename Field> struct curve_params<Field, cv::forms::montgomery>
        : curve_params_base<Field, cv::forms::montgomery> {
        inline static typename Field::value_type A, B;
    };
}    // namespace toy
