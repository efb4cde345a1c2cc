import os, runpy
M = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "curves.py"))
H, T = M["H"], M["T"]
MX = H % "\n".join("#include <%s>" % x for x in ["boost/assert.hpp", "nil/crypto3/algebra/curves/mnt4.hpp", "nil/crypto3/algebra/curves/params/multiexp/mnt4.hpp",
                   "nil/crypto3/algebra/curves/params/wnaf/mnt4.hpp", "nil/crypto3/algebra/multiexp/multiexp.hpp", "nil/crypto3/algebra/multiexp/policies.hpp"]) + '''
    using C = curves::mnt4<298>; using G = C::g1_type<>; using E = G::value_type; using F = C::scalar_field_type; using S = F::value_type; using I = F::integral_type;
    namespace pol = policies;
    auto check = [&](const std::vector<S> &k, std::size_t chunks, const char *w) {
        std::vector<E> g; E s = E::zero(), x = E::one();
        for (std::size_t i = 0; i < k.size(); ++i) { g.push_back(x); s = s + k[i] * x; x = x + x + E::one(); }
        want(multiexp<pol::multiexp_method_naive_plain>(g.begin(), g.end(), k.begin(), k.end(), chunks) == s, w);
        want(multiexp<pol::multiexp_method_BDLO12>(g.begin(), g.end(), k.begin(), k.end(), chunks) == s, w);
        want(multiexp<pol::multiexp_method_bos_coster>(g.begin(), g.end(), k.begin(), k.end(), chunks) == s, w);
        want(multiexp_with_mixed_addition<pol::multiexp_method_BDLO12>(g.begin(), g.end(), k.begin(), k.end(), chunks) == s, w);
    };
    I one(1u);
'''
BUGS = [
 dict(id="X01-groups", property="X01", shim=True, file="multiexp/policies.hpp",
      edits=[("std::size_t num_groups = (num_bits + c - 1) / c;", "std::size_t num_groups = (num_bits + c - 2) / c;")],
      needs="a bucket-method sum whose longest scalar has one bit more than a multiple of the bucket width", breaks="the top bit of the scalars is ignored",
      demo=MX + '''
    for (unsigned n = 2; n < 9; ++n) for (unsigned b = 2; b < 40; ++b) {
        std::vector<S> k; for (unsigned i = 0; i < n; ++i) k.push_back(S(I((one << b) - 1u - i % 2)));
        check(k, 1, "sum");
    }
''' + T),
 dict(id="X01-ones", property="X01", shim=True, file="multiexp/multiexp.hpp",
      edits=[("                        acc = acc + (*vec_it);", "                        acc = acc.is_zero() ? (*vec_it) : acc;")],
      needs="the filtering variant with at least two scalars equal to one", breaks="only the first point with scalar one is counted",
      demo=MX + '''
    check({S(1u), S(5u), S(0u)}, 1, "one one"); check({S(1u), S(7u), S(1u), S(0u)}, 1, "two ones");
''' + T),
 dict(id="X01-swap", property="X01", shim=True, file="multiexp/policies.hpp",
      edits=[("if (opt_q[2 * a_pos + 1] < opt_q[2 * a_pos + 2]) {", "if (opt_q[2 * a_pos + 1].idx < opt_q[2 * a_pos + 2].idx) {")],
      needs="Bos-Coster with enough terms that the heap has two levels and the order of scalars disagrees with the order of terms", breaks="the queue loses its heap property; the largest remaining scalar is not at the top",
      demo=MX + '''
    for (unsigned s = 1; s < 60; ++s) { std::vector<S> k; unsigned long x = s * 7919; for (unsigned i = 0; i < 6; ++i) { x = (x * 1103515245 + 12345) % 1000003; k.push_back(S((unsigned)(x % 5000))); } check(k, 1, "sum"); }
''' + T),
 dict(id="X01-chunk", property="X01", shim=True, file="multiexp/multiexp.hpp",
      edits=[("                                     (i == chunks_count - 1 ? vec_end : vec_start + (i + 1) * one_chunk_size),\n", "                                     vec_start + (i + 1) * one_chunk_size,\n"),
             ("(i == chunks_count - 1 ? scalar_end : scalar_start + (i + 1) * one_chunk_size));", "scalar_start + (i + 1) * one_chunk_size);")],
      needs="a length that is not a multiple of the chunk count", breaks="the remainder is dropped",
      demo=MX + '''
    std::vector<S> k; for (unsigned i = 0; i < 7; ++i) k.push_back(S(3u + i));
    check(k, 7, "7/7"); check(k, 3, "7/3"); check(k, 2, "7/2");
''' + T),
 dict(id="X02-lastrow", property="X02", shim=True, file="multiexp/multiexp.hpp",
      edits=[("const std::size_t last_in_window = 1ul << (scalar_size - (outerc - 1) * window);", "const std::size_t last_in_window = 1ul << (scalar_size % window);")],
      needs="a window that divides the scalar size", breaks="the last row of the table is left neutral",
      demo=MX + '''
    E g = E::one();
    for (unsigned b = 1; b < 9; ++b) for (unsigned w = 1; w <= b; ++w) {
        auto t = get_window_table<G>(b, w, g);
        for (unsigned k = 0; k < (1u << b); ++k) want(windowed_exp<G, F>(b, w, t, S(k)) == S(k) * g, "window");
    }
''' + T),
 dict(id="X02-batch", property="X02", shim=True, file="multiexp/multiexp.hpp",
      edits=[("res[i] = windowed_exp<GroupType, FieldType>(scalar_size, window, table, v[i]);", "res[i] = (i > 0 && v[i].data == v[0].data) ? res[i - 1] : windowed_exp<GroupType, FieldType>(scalar_size, window, table, v[i]);")],
      needs="a batch in which the first scalar comes again after a different one", breaks="a wrong memo: the previous entry is repeated",
      demo=MX + '''
    auto t = get_window_table<G>(8, 3, E::one()); std::vector<S> k = {S(5u), S(9u), S(5u), S(2u)};
    auto r = batch_exp<G, F>(8, 3, t, k); for (int i = 0; i < 4; ++i) want(r[i] == k[i] * E::one(), "batch");
''' + T),
 dict(id="G05-gen381", property="G05", shim=True, file="curves/detail/bls12/381/short_weierstrass_params.hpp",
      edits=[("0x17F1D3A73197D7942695638C4FA9AC0FC3688C4F9774B905A14E3A3F171BAC586C55E83FF97A1AEFFB3AF00ADB22C6BB_cppui_modular381", "0x4_cppui_modular381"),
             ("0x8B3F481E3AAA0F1A09E30ED741D8AE4FCF5E095D5D00AF600DB18CB2C04B3EDD03CC744A2888AE40CAA232946C5E7E1_cppui_modular380", "0xA989BADD40D6212B33CFFC3F3763E9BC760F988C9926B26DA9DD85E928483446346B8ED00E1DE5D5EA93E354ABE706C_cppui_modular380")],
      needs="the order of the stored generator of bls12-381 G1", breaks="the generator lies on the curve but outside the subgroup of prime order",
      demo=H % "#include <nil/crypto3/algebra/curves/bls12.hpp>" + '''
    using C = curves::bls12<381>; using E = C::g1_type<>::value_type; E g = E::one();
    want(g.is_well_formed(), "on the curve");
    C::scalar_field_type::integral_type r(C::scalar_field_type::modulus);
    want((r * g).is_zero(), "order r");
''' + T),
 dict(id="G05-twistb", property="G05", shim=True, file="curves/detail/alt_bn128/254/short_weierstrass_params.hpp",
      edits=[("b = g1_b * twist.inversed();", "b = g1_b * twist;")],
      needs="the curve equation of alt_bn128 G2", breaks="G2 has the coefficient of the other twist; no operation but the well-formedness test uses it",
      demo=H % "#include <nil/crypto3/algebra/curves/alt_bn128.hpp>" + '''
    using C = curves::alt_bn128<254>; using E = C::g2_type<>::value_type; E g = E::one();
    want(g.is_well_formed(), "generator on the curve"); want((g + g).is_well_formed(), "double on the curve");
''' + T),
]
