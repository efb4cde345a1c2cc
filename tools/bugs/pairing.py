import os, runpy
M = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "curves.py"))
H, T = M["H"], M["T"]


def head(h, c):
    return H % "\n".join("#include <nil/crypto3/algebra/%s.hpp>" % x for x in ["curves/" + h, "pairing/" + h, "algorithms/pair"]) + '''
    using C = curves::%s; using E1 = C::g1_type<>::value_type; using E2 = C::g2_type<>::value_type; using I = C::scalar_field_type::integral_type;
    E1 g = E1::one(); E2 h = E2::one(); auto e = pair_reduced<C>(g, h);
''' % c


BUGS = [
 dict(id="P01-g2rep", property="P01", shim=True, file="pairing/edwards/183/ate_precompute_g2.hpp",
      edits=[("typename g2_affine_type::value_type Qcopy = Q.to_affine();", "typename g2_affine_type::value_type Qcopy = Q.is_special() ? Q : Q.to_affine();")],
      needs="an Edwards G2 point whose inverted coordinates happen to have Z = 1", breaks="the inverted tuple is taken for the affine one",
      demo=head("edwards", "edwards<183>") + '''
    auto zi = h.Z.inversed(); E2 s(h.X * zi, h.Y * zi, E2::underlying_field_value_type::one());
    want(s == h, "same point"); want(pair_reduced<C>(g, s) == e, "same pairing");
''' + T),
 dict(id="P01-memo", property="P01", shim=True, file="algorithms/pair.hpp",
      edits=[('''                typename PairingPolicy::g2_precomputed_type prec_Q = PairingPolicy::precompute_g2::process(v2);

                typename PairingCurveType::gt_type::value_type f =''', '''                static auto last = v2;
                static typename PairingPolicy::g2_precomputed_type prec_Q = PairingPolicy::precompute_g2::process(v2);
                if (last.X != v2.X || last.Z != v2.Z) {
                    last = v2;
                    prec_Q = PairingPolicy::precompute_g2::process(v2);
                }

                typename PairingCurveType::gt_type::value_type f =''')],
      needs="two pairings in a row whose second arguments are opposite tuples", breaks="the precomputation of Q is reused for -Q",
      demo=head("mnt4", "mnt4<298>") + '''
    want(pair_reduced<C>(g, h + h) == e * e, "2"); want(pair_reduced<C>(g, -(h + h)) * e * e == e.one(), "-2");
''' + T),
 dict(id="P01-sign", property="P01", shim=True, file="pairing/forms/short_weierstrass/projective/ate_precompute_g1.hpp",
      edits=[("result.PY_twist = Pcopy.Y * params_type::twist;", "result.PY_twist = (P.Z == g1_type::field_type::value_type::one() ? Pcopy.Y : P.Y * P.Z.inversed().squared() * P.Z) * params_type::twist;")],
      needs="", breaks="",
      demo=head("mnt4", "mnt4<298>") + '''want(true, "x");''' + T),
 dict(id="P02-double", property="P02", shim=True, file="pairing/mnt6/298/ate_double_miller_loop.hpp",
      edits=[('''                                ac2.c_RZ * prec_P2.PY_twist,
                                -(prec_Q2.QY_over_twist * ac2.c_RZ + L1_coeff2 * ac2.c_L1));

                            f =''', '''                                ac2.c_RZ * prec_P2.PY_twist,
                                -(prec_Q2.QY_over_twist * ac2.c_RZ + L1_coeff1 * ac2.c_L1));

                            f =''')],
      needs="a double Miller loop of two different pairs on a curve with a negative loop count", breaks="the closing line of the second pair is evaluated at the first point",
      demo=head("mnt6", "mnt6<298>") + '''
    auto p = precompute_g1<C>(g), p2 = precompute_g1<C>(g + g); auto q = precompute_g2<C>(h);
    want(double_miller_loop<C>(p, q, p, q) == miller_loop<C>(p, q).squared(), "same"); want(double_miller_loop<C>(p, q, p2, q) == miller_loop<C>(p, q) * miller_loop<C>(p2, q), "different");
''' + T),
 dict(id="P02-exponent", property="P02", shim=True, file="pairing/detail/mnt4/298/params.hpp",
      edits=[("0x343C7AC3174C87A1EFE216B37AFB6D3035ACCA5A07B2394F42E0029264C0324A95E87DCB", "0x343C7AC3174C87A1EFE216B37AFB6D3035ACCA5A07B2394F42E0029264C0324A95E87DBC")],
      needs="a user of the stored final exponent of MNT4", breaks="two digits exchanged: the exponent is no longer (q^4-1)/r",
      demo=head("mnt4", "mnt4<298>") + '''
    using P = pairing::detail::pairing_params<C>;
    auto f = pair<C>(g, h); auto r = f.pow(P::final_exponent);
    want(r.pow(C::scalar_field_type::modulus) == r.one(), "order r");
''' + T),
 dict(id="P02-fesub", property="P02", shim=True, file="pairing/edwards/183/final_exponentiation.hpp",
      edits=[("const typename gt_type::value_type elt_inv = elt.inversed();", "const typename gt_type::value_type elt_inv = elt.data[1].is_zero() ? elt.unitary_inversed() : elt.inversed();")],
      needs="the final exponentiation of an element of the cubic subfield", breaks="its inverse is taken to be itself, so it is no longer killed",
      demo=head("edwards", "edwards<183>") + '''
    auto x = e; x.data[1] = x.data[1].zero();
    want(final_exponentiation<C>(x).is_one(), "subfield");
''' + T),
]
BUGS = [b for b in BUGS if b["needs"]]
