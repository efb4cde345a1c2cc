import os, runpy
d = os.path.dirname(os.path.abspath(__file__))
M = runpy.run_path(os.path.join(d, "fields.py"))
H, T = M["H"], M["T"]
I = "\n#include <sstream>\n#include <string>\n"
TXT = '''
    auto txt = [](auto const &x) { std::ostringstream o; o << x; std::string s; for (char c : o.str()) if (c != ' ' && c != '\\n') s += c; return s; };
'''
BLS = M["BLS"].replace("#include <iostream>", "#include <iostream>" + I) + TXT
ED = (H % '#include <nil/crypto3/algebra/curves/ed25519.hpp>').replace("#include <iostream>", "#include <iostream>" + I) + TXT
M4 = (H % '#include <nil/crypto3/algebra/curves/mnt4.hpp>\n#include <nil/crypto3/algebra/pairing/detail/forms/short_weierstrass/projective/types.hpp>').replace("#include <iostream>", "#include <iostream>" + I) + TXT
HS = BLS.replace("#include <sstream>", "#include <sstream>\n#include <unordered_set>\n#include <vector>")
BUGS = [
 dict(id="O01-dbleq", property="O01", shim=True, file="pairing/detail/forms/short_weierstrass/projective/types.hpp",
      edits=[("return (this->c_H == other.c_H && this->c_4C == other.c_4C && this->c_J == other.c_J &&", "return (this->c_H == other.c_H && this->c_4C == other.c_4C && this->c_J == this->c_J &&")],
      needs="two doubling steps that differ in c_J only", breaks="they compare equal",
      demo=M4 + '''
    using TP = nil::crypto3::algebra::pairing::detail::short_weierstrass_projective_types_policy<curves::mnt4<298>>;
    using V2 = TP::g2_field_value_type;
    TP::g2_precomputed_type p, q;
    p.QX = p.QY = p.QY2 = p.QX_over_twist = p.QY_over_twist = V2::one();
    TP::g2_precomputed_type::dbl_coeffs_type a; a.c_H = a.c_4C = a.c_J = a.c_L = V2::one();
    p.dbl_coeffs.push_back(a); q = p;
    want(p == q, "copies are equal");
    q.dbl_coeffs[0].c_J += V2::one();
    want(!(p == q), "one coefficient differs");
''' + T),
 dict(id="O01-fp3eq", property="O01", shim=True, file="fields/detail/element/fp3.hpp",
      edits=[("return (data[0] == B.data[0]) && (data[1] == B.data[1]) && (data[2] == B.data[2]);", "return (data[0] == B.data[0]) && (data[1] == B.data[1]) && (data[2].is_zero() == B.data[2].is_zero());")],
      needs="two elements that differ in the last coefficient only, both non-zero there", breaks="they compare equal",
      demo=M["M6"] + '''
    V3 a(V(1), V(2), V(3)), b(V(1), V(2), V(4)), c(V(1), V(2), V(0));
    want(a == a && !(a == c), "sanity");
    want(!(a == b), "last coefficients differ");
''' + T),
 dict(id="O01-fp6", property="O01", shim=True, file="fields/detail/element/fp6_3over2.hpp",
      edits=[('os << "[" << elem.data[0] << "," << elem.data[1] << "," << elem.data[2] << "]";', 'os << "[" << elem.data[0] << "," << elem.data[1];\n                        if (!elem.data[2].is_zero()) {\n                            os << "," << elem.data[2];\n                        }\n                        os << "]";')],
      needs="an element whose last coefficient is zero", breaks="the text has two coefficients",
      demo=BLS + '''
    V6 x(V2(V(1), V(2)), V2(V(3), V(4)), V2(V(5), V(6))), y(V2(V(1), V(2)), V2(V(3), V(4)), V2(V(0), V(0)));
    want(txt(x) == "[[1,2],[3,4],[5,6]]", "all coefficients");
    want(txt(y) == "[[1,2],[3,4],[0,0]]", "last coefficient zero");
''' + T),
 dict(id="O01-ext", property="O01", shim=True, file="curves/detail/forms/twisted_edwards/extended_with_a_minus_1/element_g1.hpp",
      edits=[('<< ",\\"T\\":" << e.T << ",\\"Z\\":" << e.Z << "}";', '<< ",\\"T\\":" << e.X * e.Y << ",\\"Z\\":" << e.Z << "}";')],
      needs="a point whose Z is not one", breaks="the printed T is X*Y instead of X*Y/Z",
      demo=ED + '''
    using P = curves::ed25519::g1_type<curves::coordinates::extended_with_a_minus_1, curves::forms::twisted_edwards>::value_type;
    using V = P::field_type::value_type;
    P g = P::one();
    P h(g.X * V(3), g.Y * V(3), g.T * V(3), V(3));
    auto ts = [&](P const &p) { return "{\\"X\\":" + txt(p.X) + ",\\"Y\\":" + txt(p.Y) + ",\\"T\\":" + txt(p.T) + ",\\"Z\\":" + txt(p.Z) + "}"; };
    want(txt(g) == ts(g), "generator");
    want(txt(h) == ts(h), "generator scaled by three");
''' + T),
 dict(id="O01-pre", property="O01", shim=True, file="pairing/detail/forms/short_weierstrass/projective/types.hpp",
      edits=[("for(auto a = p.add_coeffs.begin(); a != p.add_coeffs.end(); ++a) {", "for(auto a = p.add_coeffs.begin(); a != p.add_coeffs.begin() + std::min(p.add_coeffs.size(), p.dbl_coeffs.size()); ++a) {")],
      needs="a table with more addition than doubling steps", breaks="the additional entries are not written",
      demo=M4 + '''
    using TP = nil::crypto3::algebra::pairing::detail::short_weierstrass_projective_types_policy<curves::mnt4<298>>;
    using V2 = TP::g2_field_value_type;
    TP::g2_precomputed_type p, q;
    p.QX = p.QY = p.QY2 = p.QX_over_twist = p.QY_over_twist = V2::one();
    q = p;
    TP::g2_precomputed_type::add_coeffs_type a; a.c_L1 = a.c_RZ = V2::one();
    q.add_coeffs.push_back(a);
    want(txt(p) != txt(q), "tables that differ print differently");
''' + T),
 dict(id="O01-hash", property="O01", shim=True, file="fields/detail/element/fp2.hpp",
      edits=[("std::size_t result = hasher(elem.data[0]);", "static std::size_t result;\n        result = result * 0 + (result != 0) + hasher(elem.data[0]);")],
      needs="-", breaks="-", demo="", skip=True),
 dict(id="O01-fphash", property="O01", shim=True, file="fields/detail/element/fp.hpp",
      edits=[("std::size_t result = hasher(elem.data);", "std::size_t result = hasher(elem.data);\n        if (elem.is_zero()) {\n            result = reinterpret_cast<std::size_t>(&elem);\n        }")],
      needs="the zero element in a hashed container", breaks="zero hashes by its address",
      demo=HS + '''
    std::unordered_set<V> s;
    for (int i = 0; i < 20; ++i) s.insert(V(unsigned(i)));
    bool all = true;
    std::vector<V> keys;
    for (int i = 0; i < 20; ++i) keys.push_back(V(unsigned(i + 1)) - V(1u));
    for (auto const &k : keys) all = all && s.count(k) == 1;
    want(all, "every member is found");
''' + T),
]
