import os, runpy
M = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "curves.py"))
H, T = M["H"], M["T"]
HEAD = H % "#include <nil/crypto3/algebra/curves/bls12.hpp>\n#include <nil/crypto3/algebra/random_element.hpp>" + '''
    using C = curves::bls12_381; using F12 = C::gt_type; using F6 = F12::underlying_field_type; using F = C::base_field_type; using I = F::integral_type;
    struct Gen { unsigned n = 0; boost::random::mt19937 e; using result_type = std::uint32_t; static constexpr result_type min() { return 0; } static constexpr result_type max() { return 0xffffffffu; } result_type operator()() { return e(); } };
    struct Dist { I lo, hi; Dist(I a, I b) : lo(a), hi(b) { } I operator()(Gen &g) { return I(++g.n); } };
    Gen g;
'''
RE = "random_element.hpp"
BUGS = [
 dict(id="R01-distribution", property="R01", shim=True, file=RE,
      edits=[("random_element<typename FieldType::underlying_field_type, distribution_type, generator_type>(rng);", "random_element<typename FieldType::underlying_field_type>(rng);")],
      needs="an extension element drawn with a distribution of the caller's", breaks="the caller's distribution is ignored in extension fields",
      demo=HEAD + '''
    auto x = random_element<F12, Dist>(g); want(g.n == 12, "twelve numbers drawn");
''' + T),
 dict(id="R01-third", property="R01", shim=True, file=RE,
      edits=[("const std::size_t data_dimension = field_type::arity / field_type::underlying_field_type::arity;", "const std::size_t data_dimension = field_type::arity % 4 == 2 ? 2 : field_type::arity / field_type::underlying_field_type::arity;")],
      needs="a sextic field built as a cubic extension of a quadratic one", breaks="the third coefficient is never drawn",
      demo=HEAD + '''
    auto x = random_element<F6, Dist>(g); want(!x.data[2].is_zero(), "third coefficient drawn");
''' + T),
 dict(id="R01-zero", property="R01", shim=True, file=RE,
      edits=[("distribution_type d(0, field_type::modulus);", "distribution_type d(1, field_type::modulus - 1u);")],
      needs="a draw of zero", breaks="zero can no longer be drawn",
      demo=HEAD + '''
    struct Low { I lo, hi; Low(I a, I b) : lo(a), hi(b) { } I operator()(Gen &) { return lo; } };
    want(random_element<F, Low>(g).is_zero(), "zero can be drawn");
''' + T),
]
