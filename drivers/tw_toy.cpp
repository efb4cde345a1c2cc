// One toy tower: -DTP=p -DTN=nr -DTK=kind
#include "toytower.hpp"
#include "tw_ops.hpp"
#define S_(x) #x
#define S(x) S_(x)
namespace {
    using F = toy::fp<TP, TN>;
    namespace el = alg::fields;
#if TK == 1
    tw::reg<F::value_type> r("fp_" S(TP) "_" S(TN), "fp");
#elif TK == 2
    tw::reg<el::fp2<F>::value_type> r("fp2_" S(TP) "_" S(TN), "fp2");
#elif TK == 3
    tw::reg<el::fp3<F>::value_type> r("fp3_" S(TP) "_" S(TN), "fp3");
#elif TK == 4
    tw::reg<el::fp4<F>::value_type> r("fp4_" S(TP) "_" S(TN), "fp4");
#elif TK == 6
    tw::reg<el::fp6_2over3<F>::value_type> r("fp6a_" S(TP) "_" S(TN), "fp6_2over3");
#elif TK == 7
    tw::reg<el::fp6_3over2<F>::value_type> r("fp6b_" S(TP) "_" S(TN), "fp6_3over2");
#elif TK == 12
    tw::reg<el::fp12_2over3over2<F>::value_type> r("fp12_" S(TP) "_" S(TN), "fp12");
#endif
}
