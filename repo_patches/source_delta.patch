From a83ceb389043d3a4a88342263bd86c8a8ba24c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:08 +0000
Subject: [PATCH 01/48] fix: det returned the reciprocal of the determinant

---
 include/nil/crypto3/algebra/matrix/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/matrix/math.hpp b/include/nil/crypto3/algebra/matrix/math.hpp
index 619dc04..f1bd796 100644
--- a/include/nil/crypto3/algebra/matrix/math.hpp
+++ b/include/nil/crypto3/algebra/matrix/math.hpp
@@ -214,7 +214,7 @@ namespace nil {
                         auto s = m[i][j];
                         for (std::size_t jp = 0; jp < N; ++jp)
                             m[i][jp] /= s;
-                        det /= s;
+                        det *= s;
 
                         // Eliminate other values in the column
                         for (std::size_t ip = 0; ip < M; ++ip) {
-- 
2.43.0


From 4a5ce9e65921f82c4cd3748a88e748fd858eaa98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:08 +0000
Subject: [PATCH 02/48] fix: a negligible pivot no longer hides a usable one
 further down the column

---
 include/nil/crypto3/algebra/matrix/math.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/matrix/math.hpp b/include/nil/crypto3/algebra/matrix/math.hpp
index f1bd796..fbc4992 100644
--- a/include/nil/crypto3/algebra/matrix/math.hpp
+++ b/include/nil/crypto3/algebra/matrix/math.hpp
@@ -204,7 +204,9 @@ namespace nil {
                                 m[i][jp] = tmp;
                             }
                             det = -det;
-                            break;
+                            // a pivot that is still negligible must not hide a larger one below it
+                            if (!negligible(m[i][j]))
+                                break;
                         }
                     }
 
-- 
2.43.0


From afd1ce749971cb64b10d237b5f2b8157270c4407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:08 +0000
Subject: [PATCH 03/48] fix: rref with an explicit tolerance did not compile

---
 include/nil/crypto3/algebra/matrix/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/matrix/math.hpp b/include/nil/crypto3/algebra/matrix/math.hpp
index fbc4992..c63d2b7 100644
--- a/include/nil/crypto3/algebra/matrix/math.hpp
+++ b/include/nil/crypto3/algebra/matrix/math.hpp
@@ -277,7 +277,7 @@ namespace nil {
              */
             template<typename T, std::size_t M, std::size_t N>
             constexpr matrix<T, M, N> rref(const matrix<T, M, N> &m, T tolerance) {
-                return std::get<0>(gauss_jordan_impl(m), tolerance);
+                return std::get<0>(gauss_jordan_impl(m, tolerance));
             }
 
             /** @brief Compute the rank
-- 
2.43.0


From 6d1e21fc63c6acb19fbfd0611fecc1af5ca91644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:08 +0000
Subject: [PATCH 04/48] fix: swapcol iterated over columns instead of rows

---
 include/nil/crypto3/algebra/matrix/utility.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/matrix/utility.hpp b/include/nil/crypto3/algebra/matrix/utility.hpp
index fa461df..b0f42b1 100644
--- a/include/nil/crypto3/algebra/matrix/utility.hpp
+++ b/include/nil/crypto3/algebra/matrix/utility.hpp
@@ -165,7 +165,7 @@ namespace nil {
              */
             template<std::size_t M, std::size_t N, typename T>
             constexpr matrix<T, M, N> swapcol(matrix<T, M, N> m, std::size_t a, std::size_t b) {
-                for (int i = 0; i < N; i++) {
+                for (int i = 0; i < M; i++) {
                     T tmp = m[i][a];
                     m[i][a] = m[i][b];
                     m[i][b] = tmp;
-- 
2.43.0


From 1ccab154527e53c380b431f45702492756025f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:08 +0000
Subject: [PATCH 05/48] fix: sqrt(0), and with it abs of a complex zero, never
 returned

---
 include/nil/crypto3/algebra/scalar/math.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/nil/crypto3/algebra/scalar/math.hpp b/include/nil/crypto3/algebra/scalar/math.hpp
index 0946310..f1ec7a6 100644
--- a/include/nil/crypto3/algebra/scalar/math.hpp
+++ b/include/nil/crypto3/algebra/scalar/math.hpp
@@ -47,6 +47,8 @@ namespace nil {
             constexpr double sqrt(double x) {
                 if (x < 0)
                     throw "sqrt argument must be positive";
+                if (x == 0)    // the iteration below divides by its estimate
+                    return x;
                 double prev = 0;
                 double est = (1 + x) / 2;
                 while (prev != est) {
-- 
2.43.0


From d4420fd0e0b144b2f175f3840854cb949c0bb632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:24 +0000
Subject: [PATCH 06/48] fix: nthroot could oscillate between neighbouring
 doubles forever, and hung on zero

---
 include/nil/crypto3/algebra/scalar/math.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/nil/crypto3/algebra/scalar/math.hpp b/include/nil/crypto3/algebra/scalar/math.hpp
index f1ec7a6..fd1b6be 100644
--- a/include/nil/crypto3/algebra/scalar/math.hpp
+++ b/include/nil/crypto3/algebra/scalar/math.hpp
@@ -120,13 +120,16 @@ namespace nil {
             constexpr double nthroot(double x, int n) {
                 if (x < 0)
                     throw "nth root argument must be positive";
-                double prev = -1;
-                double est = 1;
-                while (prev != est) {
+                if (x == 0)    // the iteration below divides by a power of its estimate
+                    return x;
+                double prev = 1;
+                double est = prev + 1. / n * (x - prev);
+                // From the second estimate on the iteration only descends, until rounding stops it.
+                do {
                     prev = est;
                     double dxk = 1. / n * (x / exponentiate(prev, n - 1) - prev);
                     est = prev + dxk;
-                }
+                } while (est < prev);
                 return est;
             }
 
-- 
2.43.0


From 365df2bdb3c4776d144ac817c97ea4adc4d4b6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:47 +0000
Subject: [PATCH 07/48] fix: inverse took its tolerance from the appended
 identity and lost matrices with small entries

---
 include/nil/crypto3/algebra/matrix/math.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/matrix/math.hpp b/include/nil/crypto3/algebra/matrix/math.hpp
index c63d2b7..ecfb6c3 100644
--- a/include/nil/crypto3/algebra/matrix/math.hpp
+++ b/include/nil/crypto3/algebra/matrix/math.hpp
@@ -314,7 +314,9 @@ namespace nil {
             constexpr matrix<T, M, M> inverse(const matrix<T, M, M> &m) {
                 if (rank(m) < M)
                     throw "matrix is not invertible";
-                return submat<M, M>(rref(horzcat(m, get_identity<T, M>())), 0, M);
+                // The tolerance must follow the entries of m, not those of the identity next to it
+                T tol = T(M) * std::numeric_limits<T>::epsilon() * mars(m);
+                return submat<M, M>(rref(horzcat(m, get_identity<T, M>()), tol), 0, M);
             }
 
             /** @brief computes the trace
-- 
2.43.0


From 1a7b9bba47383a91bbd3e5047909df0af6039aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:58 +0000
Subject: [PATCH 08/48] fix: the zero matrix had rank one, a NaN determinant
 and an inverse

---
 include/nil/crypto3/algebra/matrix/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/matrix/math.hpp b/include/nil/crypto3/algebra/matrix/math.hpp
index ecfb6c3..e5654af 100644
--- a/include/nil/crypto3/algebra/matrix/math.hpp
+++ b/include/nil/crypto3/algebra/matrix/math.hpp
@@ -189,7 +189,7 @@ namespace nil {
                 // CRYPTO3_DETAIL_ASSERT_REAL(T)
 
                 // Define function for determining if an element is negligible
-                auto negligible = [&tolerance](const T &v) { return abs(v) < tolerance; };
+                auto negligible = [&tolerance](const T &v) { return abs(v) <= tolerance; };
 
                 T det = 1;
                 std::size_t rank = 0;
-- 
2.43.0


From 880c932703d2c75d45b5c81cde89dfde61619832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:51 +0000
Subject: [PATCH 09/48] fix: rref and inverse left rows above the pivot
 uneliminated when entries were large

---
 include/nil/crypto3/algebra/matrix/math.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/matrix/math.hpp b/include/nil/crypto3/algebra/matrix/math.hpp
index e5654af..110f405 100644
--- a/include/nil/crypto3/algebra/matrix/math.hpp
+++ b/include/nil/crypto3/algebra/matrix/math.hpp
@@ -222,7 +222,8 @@ namespace nil {
                         for (std::size_t ip = 0; ip < M; ++ip) {
                             if (ip == i)
                                 continue;
-                            if (!negligible(m[ip][j])) {
+                            // rows above are already scaled to a unit pivot, so the tolerance does not apply
+                            if (m[ip][j] != T(0)) {
                                 auto s = m[ip][j];
                                 [&]() {    // wrap this in a lambda to get around a gcc bug
                                     for (std::size_t jp = 0; jp < N; ++jp)
-- 
2.43.0


From e49ad688417107ac02e9f09d5daa37ed59d80cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:20 +0000
Subject: [PATCH 10/48] fix: Jacobian mixed addition of equal points gave the
 point at infinity

---
 .../detail/forms/short_weierstrass/jacobian/element_g1.hpp  | 6 ++++++
 .../short_weierstrass/jacobian_with_a4_0/element_g1.hpp     | 6 ++++++
 .../jacobian_with_a4_minus_3/element_g1.hpp                 | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian/element_g1.hpp b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian/element_g1.hpp
index e5a2be3..221a1d7 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian/element_g1.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian/element_g1.hpp
@@ -321,6 +321,12 @@ namespace nil {
                                 return;
                             }
 
+                            // madd-2007-bl does not handle doubling
+                            if (*this == other) {
+                                this->double_inplace();
+                                return;
+                            }
+
                             mixed_addition_processor::process(*this, other);
                         }
 
diff --git a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_0/element_g1.hpp b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_0/element_g1.hpp
index 3dc7d59..ef6a560 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_0/element_g1.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_0/element_g1.hpp
@@ -325,6 +325,12 @@ namespace nil {
                                 return;
                             }
 
+                            // madd-2007-bl does not handle doubling
+                            if (*this == other) {
+                                this->double_inplace();
+                                return;
+                            }
+
                             mixed_addition_processor::process(*this, other);
                         }
 
diff --git a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp
index b9fa259..2939173 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp
@@ -329,6 +329,12 @@ namespace nil {
                                 return;
                             }
 
+                            // madd-2007-bl does not handle doubling
+                            if (*this == other) {
+                                this->double_inplace();
+                                return;
+                            }
+
                             mixed_addition_processor::process(*this, other);
                         }
 
-- 
2.43.0


From 57935db1df2557ec5bd186263aa334b3c153b1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:20 +0000
Subject: [PATCH 11/48] fix: jacobian_with_a4_minus_3 to_affine divided Y by
 Z^2 instead of Z^3

---
 .../short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp
index 2939173..bbfacfa 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp
@@ -216,7 +216,7 @@ namespace nil {
 
                             auto Zi = Z.inversed();
 
-                            return result_type(X * Zi * Zi, Y * Zi * Zi);    //  x=X/Z^2, y=Y/Z^3
+                            return result_type(X * Zi * Zi, Y * Zi * Zi * Zi);    //  x=X/Z^2, y=Y/Z^3
                         }
 
                         /** @brief
-- 
2.43.0


From c4d7d9d04fc473ebeb84fa6f8dc9f0d9b4b38223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:20 +0000
Subject: [PATCH 12/48] fix: projective_with_a4_minus_3 checked well-formedness
 against a = -1

---
 .../projective_with_a4_minus_3/element_g1.hpp                 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/projective_with_a4_minus_3/element_g1.hpp b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/projective_with_a4_minus_3/element_g1.hpp
index 53b95a5..05351b0 100755
--- a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/projective_with_a4_minus_3/element_g1.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/projective_with_a4_minus_3/element_g1.hpp
@@ -165,13 +165,13 @@ namespace nil {
                                   z y^2 = x^3  + a z^2 x + b z^3
                                   z (y^2 - b z^2) = x ( x^2 + a z^2)
 
-                                  z (y^2 - b z^2) = x ( x^2 - z^2)
+                                  z (y^2 - b z^2) = x ( x^2 - 3 z^2)
                                 */
                                 const field_value_type X2 = this->X.squared();
                                 const field_value_type Y2 = this->Y.squared();
                                 const field_value_type Z2 = this->Z.squared();
 
-                                return (this->Z * (Y2 - params_type::b * Z2) == this->X * (X2 - Z2));
+                                return (this->Z * (Y2 - params_type::b * Z2) == this->X * (X2 - Z2.doubled() - Z2));
                             }
                         }
 
-- 
2.43.0


From f0201324c4c775b37633fa55f459ca61899ee7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:20 +0000
Subject: [PATCH 13/48] fix: negating the affine point at infinity (0, 1) gave
 a tuple off the curve

---
 .../detail/forms/short_weierstrass/element_g1_affine.hpp      | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/element_g1_affine.hpp b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/element_g1_affine.hpp
index 6b18de7..d7aef17 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/element_g1_affine.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/element_g1_affine.hpp
@@ -218,6 +218,10 @@ namespace nil {
 
 
                         constexpr curve_element operator-() const {
+                            if (this->is_zero()) {
+                                return *this;
+                            }
+
                             return curve_element(this->X, -this->Y);
                         }
 
-- 
2.43.0


From 8f1b2c4ad9d0f46c2a2b0d7c2005a7c038680e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:20 +0000
Subject: [PATCH 14/48] fix: doubling an affine point of order two did not give
 the point at infinity

---
 .../detail/forms/short_weierstrass/element_g1_affine.hpp    | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/element_g1_affine.hpp b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/element_g1_affine.hpp
index d7aef17..9d1a913 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/element_g1_affine.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/element_g1_affine.hpp
@@ -242,6 +242,12 @@ namespace nil {
                         constexpr void double_inplace() {
 
                             if (!this->is_zero()) {
+                                if (Y.is_zero()) {
+                                    // the tangent in a point of order two is vertical
+                                    *this = zero();
+                                    return;
+                                }
+
                                 field_value_type Xsquared3pa = 3u * X.squared() + params_type::a;
                                 field_value_type Y2squared = Y.doubled().squared();
                                 field_value_type Y2i = Y.doubled().inversed();
-- 
2.43.0


From 2ba1cca5add18620240f680e42f2f93fc37ca78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:20 +0000
Subject: [PATCH 15/48] fix: negating the Montgomery point at infinity gave a
 finite point

---
 .../curves/detail/forms/montgomery/element_g1_affine.hpp      | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/nil/crypto3/algebra/curves/detail/forms/montgomery/element_g1_affine.hpp b/include/nil/crypto3/algebra/curves/detail/forms/montgomery/element_g1_affine.hpp
index 8cd3d7b..60a57be 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/montgomery/element_g1_affine.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/montgomery/element_g1_affine.hpp
@@ -251,6 +251,10 @@ namespace nil {
                          * @return negative element from group G1
                          */
                         constexpr curve_element operator-() const {
+                            if (this->is_zero()) {
+                                return *this;
+                            }
+
                             return curve_element(this->X, -(this->Y));
                         }
 
-- 
2.43.0


From c1b6fe9338c112f26eb9eb132926ae88fbc6c67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:20 +0000
Subject: [PATCH 16/48] fix: extended Edwards mixed addition failed for equal
 points

---
 .../extended_with_a_minus_1/element_g1.hpp             | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/curves/detail/forms/twisted_edwards/extended_with_a_minus_1/element_g1.hpp b/include/nil/crypto3/algebra/curves/detail/forms/twisted_edwards/extended_with_a_minus_1/element_g1.hpp
index 935dcb9..657b3ca 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/twisted_edwards/extended_with_a_minus_1/element_g1.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/twisted_edwards/extended_with_a_minus_1/element_g1.hpp
@@ -302,7 +302,15 @@ namespace nil {
                                 return;
                             }
 
-                            mixed_addition_processor::process(*this, other);
+                            // madd-2008-hwcd-2 is not complete: it ends in Z = 0 for equal points (and for points
+                            // that differ by a point of small order)
+                            curve_element result = *this;
+                            mixed_addition_processor::process(result, other);
+                            if (result.Z.is_zero()) {
+                                common_addition_processor::process(*this, other);
+                            } else {
+                                *this = result;
+                            }
                         }
 
                         friend std::ostream& operator<<(std::ostream& os, curve_element const& e)
-- 
2.43.0


From c3e615e09aa1114b0b1527a25520e253ba6a29ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:48 +0000
Subject: [PATCH 17/48] fix: twisted Edwards affine zero was converted to
 tuples that stand for no point

---
 .../detail/forms/twisted_edwards/element_g1_affine.hpp    | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/nil/crypto3/algebra/curves/detail/forms/twisted_edwards/element_g1_affine.hpp b/include/nil/crypto3/algebra/curves/detail/forms/twisted_edwards/element_g1_affine.hpp
index 2bbbbde..32ff340 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/twisted_edwards/element_g1_affine.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/twisted_edwards/element_g1_affine.hpp
@@ -194,6 +194,10 @@ namespace nil {
                             using result_type =
                                 curve_element<params_type, form, typename curves::coordinates::inverted>;
 
+                            if (is_zero()) {
+                                return result_type::zero();
+                            }
+
                             return result_type(
                                 X.inversed(), Y.inversed(),
                                 result_type::field_type::value_type::one());    // X = x^(-1), Y = y^(-1), Z = 1
@@ -211,6 +215,10 @@ namespace nil {
                             using result_type =
                                 curve_element<params_type, form, typename curves::coordinates::extended_with_a_minus_1>;
 
+                            if (is_zero()) {
+                                return result_type::zero();
+                            }
+
                             return result_type(X, Y, X * Y,
                                                result_type::field_type::value_type::one());    // x=X/Z, y=Y/Z, x*y=T/Z
                         }
-- 
2.43.0


From f7203780212b1af3662f6764e83cee572e0a788e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:05 +0000
Subject: [PATCH 18/48] fix: fp2 and fp3 sqrt of zero did not terminate

---
 include/nil/crypto3/algebra/fields/detail/element/fp2.hpp | 2 ++
 include/nil/crypto3/algebra/fields/detail/element/fp3.hpp | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/include/nil/crypto3/algebra/fields/detail/element/fp2.hpp b/include/nil/crypto3/algebra/fields/detail/element/fp2.hpp
index 0afe2c1..0e22610 100644
--- a/include/nil/crypto3/algebra/fields/detail/element/fp2.hpp
+++ b/include/nil/crypto3/algebra/fields/detail/element/fp2.hpp
@@ -196,6 +196,8 @@ namespace nil {
                         }
 
                         constexpr element_fp2 sqrt() const {
+                            if (this->is_zero())
+                                return zero();
 
                             element_fp2 one = this->one();
 
diff --git a/include/nil/crypto3/algebra/fields/detail/element/fp3.hpp b/include/nil/crypto3/algebra/fields/detail/element/fp3.hpp
index aa90cb5..a3e84ea 100644
--- a/include/nil/crypto3/algebra/fields/detail/element/fp3.hpp
+++ b/include/nil/crypto3/algebra/fields/detail/element/fp3.hpp
@@ -162,6 +162,9 @@ namespace nil {
                         }
 
                         constexpr element_fp3 sqrt() const {
+                            if (this->is_zero())
+                                return zero();
+
                             std::size_t v = policy_type::s;
                             element_fp3 z(policy_type::nqr_to_t[0], policy_type::nqr_to_t[1], policy_type::nqr_to_t[2]);
                             element_fp3 w = this->pow(policy_type::t_minus_1_over_2);
-- 
2.43.0


From 286f2e3eab75d88c1b48484d9094c7aaecf33ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:32 +0000
Subject: [PATCH 19/48] fix: mnt6 fp6_2over3: Frobenius coefficient for p^5
 repeated the one for p^4

---
 .../algebra/fields/detail/extension_params/mnt6/fp6_2over3.hpp  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/fields/detail/extension_params/mnt6/fp6_2over3.hpp b/include/nil/crypto3/algebra/fields/detail/extension_params/mnt6/fp6_2over3.hpp
index 16a8769..235ec33 100644
--- a/include/nil/crypto3/algebra/fields/detail/extension_params/mnt6/fp6_2over3.hpp
+++ b/include/nil/crypto3/algebra/fields/detail/extension_params/mnt6/fp6_2over3.hpp
@@ -74,7 +74,7 @@ namespace nil {
                             0x3B48E50A1662E26F0E834E15FAF68204A9845655F46B277A6D05B75068AD3F6801655344BEC_cppui_modular298,
                             0x3BCF7BCD473A266249DA7B0548ECAEEC9635CF44194FB494C07925D6AD3BB4334A400000000_cppui_modular298,
                             0x8696C330D743F33B572CEF4DF62CE7ECB178EE24E48D1A53736E86448E74CB48DAACBB414_cppui_modular292,
-                            0x8696C330D743F33B572CEF4DF62CE7ECB178EE24E48D1A53736E86448E74CB48DAACBB414_cppui_modular293};
+                            0x8696C330D743F33B572CEF4DF62CE7ECB178EE24E48D1A53736E86448E74CB48DAACBB415_cppui_modular292};
 
                         constexpr static const non_residue_type non_residue = non_residue_type(0x05u);
                     };
-- 
2.43.0


From 3763f76437c9cda53681a5756497a211cb46ab1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:32 +0000
Subject: [PATCH 20/48] fix: bn128 fp2/fp6/fp12: Frobenius coefficients were
 left zero

---
 .../bn128/fp12_2over3over2.hpp                | 26 +++++++++++++++++--
 .../detail/extension_params/bn128/fp2.hpp     |  3 ++-
 .../extension_params/bn128/fp6_3over2.hpp     | 26 +++++++++++++++++--
 3 files changed, 50 insertions(+), 5 deletions(-)

diff --git a/include/nil/crypto3/algebra/fields/detail/extension_params/bn128/fp12_2over3over2.hpp b/include/nil/crypto3/algebra/fields/detail/extension_params/bn128/fp12_2over3over2.hpp
index 8f82ecc..3d8b897 100644
--- a/include/nil/crypto3/algebra/fields/detail/extension_params/bn128/fp12_2over3over2.hpp
+++ b/include/nil/crypto3/algebra/fields/detail/extension_params/bn128/fp12_2over3over2.hpp
@@ -79,8 +79,30 @@ namespace nil {
                             non_residue_type(0x00, 0x00)};*/
 
                         constexpr static const std::array<integral_type, 12 * 2> Frobenius_coeffs_c1 = {
-                            0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
-                            0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00};
+                            0x01,
+                            0x00,
+                            0x1284B71C2865A7DFE8B99FDD76E68B605C521E08292F2176D60B35DADCC9E470_cppui_modular253,
+                            0x246996F3B4FAE7E6A6327CFE12150B8E747992778EEEC7E5CA5CF05F80F362AC_cppui_modular254,
+                            0x30644E72E131A0295E6DD9E7E0ACCCB0C28F069FBB966E3DE4BD44E5607CFD49_cppui_modular254,
+                            0x00,
+                            0x19DC81CFCC82E4BBEFE9608CD0ACAA90894CB38DBE55D24AE86F7D391ED4A67F_cppui_modular253,
+                            0xABF8B60BE77D7306CBEEE33576139D7F03A5E397D439EC7694AA2BF4C0C101_cppui_modular248,
+                            0x30644E72E131A0295E6DD9E7E0ACCCB0C28F069FBB966E3DE4BD44E5607CFD48_cppui_modular254,
+                            0x00,
+                            0x757CAB3A41D3CDC072FC0AF59C61F302CFA95859526B0D41264475E420AC20F_cppui_modular251,
+                            0xCA6B035381E35B618E9B79BA4E2606CA20B7DFD71573C93E85845E34C4A5B9C_cppui_modular252,
+                            0x30644E72E131A029B85045B68181585D97816A916871CA8D3C208C16D87CFD46_cppui_modular254,
+                            0x00,
+                            0x1DDF9756B8CBF849CF96A5D90A9ACCFD3B2F4C893F42A9166615563BFBB318D7_cppui_modular253,
+                            0xBFAB77F2C36B843121DC8B86F6C4CCF2307D819D98302A771C39BB757899A9B_cppui_modular252,
+                            0x59E26BCEA0D48BACD4F263F1ACDB5C4F5763473177FFFFFE_cppui_modular191,
+                            0x00,
+                            0x1687CCA314AEBB6DC866E529B0D4ADCD0E34B703AA1BF84253B10EDDB9A856C8_cppui_modular253,
+                            0x2FB855BCD54A22B6B18456D34C0B44C0187DC4ADD09D90A0C58BE1EAE3BC3C46_cppui_modular254,
+                            0x59E26BCEA0D48BACD4F263F1ACDB5C4F5763473177FFFFFF_cppui_modular191,
+                            0x00,
+                            0x290C83BF3D14634DB120850727BB392D6A86D50BD34B19B929BC44B896723B38_cppui_modular254,
+                            0x23BD9E3DA9136A739F668E1ADC9EF7F0F575EC93F71A8DF953C846338C32A1AB_cppui_modular254};
 
                         constexpr static const non_residue_type non_residue = non_residue_type(0x09u, 0x01u);
                     };
diff --git a/include/nil/crypto3/algebra/fields/detail/extension_params/bn128/fp2.hpp b/include/nil/crypto3/algebra/fields/detail/extension_params/bn128/fp2.hpp
index 61cc058..137a42d 100644
--- a/include/nil/crypto3/algebra/fields/detail/extension_params/bn128/fp2.hpp
+++ b/include/nil/crypto3/algebra/fields/detail/extension_params/bn128/fp2.hpp
@@ -81,7 +81,8 @@ namespace nil {
                         /*constexpr static const std::array<non_residue_type, 2> Frobenius_coeffs_c1 =
                            {non_residue_type(0x00), non_residue_type(0x00)};*/
 
-                        constexpr static const std::array<integral_type, 2> Frobenius_coeffs_c1 = {0x00, 0x00};
+                        constexpr static const std::array<integral_type, 2> Frobenius_coeffs_c1 = {
+                            0x01, 0x30644E72E131A029B85045B68181585D97816A916871CA8D3C208C16D87CFD46_cppui_modular254};
 
                         constexpr static const non_residue_type non_residue = non_residue_type(
                             0x30644E72E131A029B85045B68181585D97816A916871CA8D3C208C16D87CFD46_cppui_modular254);
diff --git a/include/nil/crypto3/algebra/fields/detail/extension_params/bn128/fp6_3over2.hpp b/include/nil/crypto3/algebra/fields/detail/extension_params/bn128/fp6_3over2.hpp
index c634fea..3685378 100644
--- a/include/nil/crypto3/algebra/fields/detail/extension_params/bn128/fp6_3over2.hpp
+++ b/include/nil/crypto3/algebra/fields/detail/extension_params/bn128/fp6_3over2.hpp
@@ -77,10 +77,32 @@ namespace nil {
                             non_residue_type(0x00, 0x00)};*/
 
                         constexpr static const std::array<integral_type, 6 * 2> Frobenius_coeffs_c1 = {
-                            0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00};
+                            0x01,
+                            0x00,
+                            0x2FB347984F7911F74C0BEC3CF559B143B78CC310C2C3330C99E39557176F553D_cppui_modular254,
+                            0x16C9E55061EBAE204BA4CC8BD75A079432AE2A1D0B7C9DCE1665D51C640FCBA2_cppui_modular253,
+                            0x30644E72E131A0295E6DD9E7E0ACCCB0C28F069FBB966E3DE4BD44E5607CFD48_cppui_modular254,
+                            0x00,
+                            0x856E078B755EF0ABAFF1C77959F25AC805FFD3D5D6942D37B746EE87BDCFB6D_cppui_modular252,
+                            0x4F1DE41B3D1766FA9F30E6DEC26094F0FDF31BF98FF2631380CAB2BAAA586DE_cppui_modular251,
+                            0x59E26BCEA0D48BACD4F263F1ACDB5C4F5763473177FFFFFE_cppui_modular191,
+                            0x00,
+                            0x28BE74D4BB943F51699582B87809D9CAF71614D4B0B71F3A62E913EE1DADA9E4_cppui_modular254,
+                            0x14A88AE0CB747B99C2B86ABCBE01477A54F40EB4C3F6068DEDAE0BCEC9C7AAC7_cppui_modular253};
 
                         constexpr static const std::array<integral_type, 6 * 2> Frobenius_coeffs_c2 = {
-                            0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00};
+                            0x01,
+                            0x00,
+                            0x5B54F5E64EEA80180F3C0B75A181E84D33365F7BE94EC72848A1F55921EA762_cppui_modular251,
+                            0x2C145EDBE7FD8AEE9F3A80B03B0B1C923685D2EA1BDEC763C13B4711CD2B8126_cppui_modular254,
+                            0x59E26BCEA0D48BACD4F263F1ACDB5C4F5763473177FFFFFE_cppui_modular191,
+                            0x00,
+                            0xBC58C6611C08DAB19BEE0F7B5B2444EE633094575B06BCB0E1A92BC3CCBF066_cppui_modular252,
+                            0x23D5E999E1910A12FEB0F6EF0CD21D04A44A9E08737F96E55FE3ED9D730C239F_cppui_modular254,
+                            0x30644E72E131A0295E6DD9E7E0ACCCB0C28F069FBB966E3DE4BD44E5607CFD48_cppui_modular254,
+                            0x00,
+                            0x1EE972AE6A826A7D1D9DA40771B6F589DE1AFB54342C724FA97BDA050992657F_cppui_modular253,
+                            0x10DE546FF8D4AB51D2B513CDBB25772454326430418536D15721E37E70C255C9_cppui_modular253};
 
                         constexpr static const non_residue_type non_residue = non_residue_type(0x09u, 0x01u);
                     };
-- 
2.43.0


From 69c523465fa8e57970cf89594d9478a90b7074c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:23 +0000
Subject: [PATCH 21/48] fix: name curve25519's Montgomery coefficients A and B
 as its element type expects

---
 .../algebra/curves/detail/curve25519/params.hpp      | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/nil/crypto3/algebra/curves/detail/curve25519/params.hpp b/include/nil/crypto3/algebra/curves/detail/curve25519/params.hpp
index 6f4e5f9..eed7c80 100644
--- a/include/nil/crypto3/algebra/curves/detail/curve25519/params.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/curve25519/params.hpp
@@ -45,12 +45,12 @@ namespace nil {
                         using base_field_type = typename curve25519_types::base_field_type;
                         using scalar_field_type = typename curve25519_types::scalar_field_type;
 
-                        constexpr static typename curve25519_types::integral_type a =
+                        constexpr static typename curve25519_types::integral_type A =
                             typename curve25519_types::integral_type(
-                                0x76d06);    ///< coefficient of Montgomery curve $b*y^2=x^3+a*x^2+x$
-                        constexpr static typename curve25519_types::integral_type b =
+                                0x76d06);    ///< coefficient of Montgomery curve $B*y^2=x^3+A*x^2+x$
+                        constexpr static typename curve25519_types::integral_type B =
                             typename curve25519_types::integral_type(
-                                0x01);    ///< coefficient of Montgomery curve $b*y^2=x^3+a*x^2+x$
+                                0x01);    ///< coefficient of Montgomery curve $B*y^2=x^3+A*x^2+x$
                     };
 
                     template<>
@@ -128,8 +128,8 @@ namespace nil {
                     };
 #ifdef __ZKLLVM__
 #else
-                    constexpr typename curve25519_types::integral_type curve25519_params<forms::montgomery>::a;
-                    constexpr typename curve25519_types::integral_type curve25519_params<forms::montgomery>::b;
+                    constexpr typename curve25519_types::integral_type curve25519_params<forms::montgomery>::A;
+                    constexpr typename curve25519_types::integral_type curve25519_params<forms::montgomery>::B;
 
                     constexpr std::array<typename curve25519_g1_params<forms::montgomery>::field_type::value_type, 2>
                         curve25519_g1_params<forms::montgomery>::zero_fill;
-- 
2.43.0


From 19e6b6510148eb56d7dedb6fa956f4d446f5d3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:56 +0000
Subject: [PATCH 22/48] fix: Bos-Coster multiexp threw when two or more scalars
 are all zero

---
 include/nil/crypto3/algebra/multiexp/policies.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/nil/crypto3/algebra/multiexp/policies.hpp b/include/nil/crypto3/algebra/multiexp/policies.hpp
index 03bba5a..36522ca 100644
--- a/include/nil/crypto3/algebra/multiexp/policies.hpp
+++ b/include/nil/crypto3/algebra/multiexp/policies.hpp
@@ -269,6 +269,11 @@ namespace nil {
                             detail::ordered_exponent<non_fixed_precision_number_type> &b =
                                 (opt_q[1] < opt_q[2] ? opt_q[2] : opt_q[1]);
 
+                            // all the scalars are zero, msb is not defined for them
+                            if (a.r.is_zero()) {
+                                break;
+                            }
+
                             const std::size_t abits = boost::multiprecision::msb(a.r) + 1;
 
                             if (b.r.is_zero()) {
-- 
2.43.0


From 80dc482916bd01bdc0af0343762a9251c8866622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:56 +0000
Subject: [PATCH 23/48] fix: get_exp_window_size ran past its table for an
 empty batch

---
 include/nil/crypto3/algebra/multiexp/multiexp.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/nil/crypto3/algebra/multiexp/multiexp.hpp b/include/nil/crypto3/algebra/multiexp/multiexp.hpp
index 281b954..1d23cd9 100644
--- a/include/nil/crypto3/algebra/multiexp/multiexp.hpp
+++ b/include/nil/crypto3/algebra/multiexp/multiexp.hpp
@@ -126,8 +126,7 @@ namespace nil {
 
                 std::size_t window = 1;
 
-                for (std::size_t i = curves::multiexp_params<GroupType>::fixed_base_exp_window_table.size() - 1; i >= 0;
-                     --i) {
+                for (std::size_t i = curves::multiexp_params<GroupType>::fixed_base_exp_window_table.size(); i-- > 0;) {
                     if (curves::multiexp_params<GroupType>::fixed_base_exp_window_table[i] != 0 &&
                         num_scalars >= curves::multiexp_params<GroupType>::fixed_base_exp_window_table[i]) {
                         window = i + 1;
-- 
2.43.0


From bd6780536cb7e5a2de07e1380fcc1a05d35b1fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:59 +0000
Subject: [PATCH 24/48] fix: is_well_formed of the edwards G2 element checked
 the untwisted equation

---
 .../nil/crypto3/algebra/curves/detail/edwards/element_g2.hpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/curves/detail/edwards/element_g2.hpp b/include/nil/crypto3/algebra/curves/detail/edwards/element_g2.hpp
index 27b8893..f3a175f 100644
--- a/include/nil/crypto3/algebra/curves/detail/edwards/element_g2.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/edwards/element_g2.hpp
@@ -133,7 +133,7 @@ namespace nil {
                                 const auto Y2 = this->Y.squared();
                                 const auto Z2 = this->Z.squared();
 
-                                return (policy_type::a * Z2*Y2 + Z2*X2 == X2*Y2 + policy_type::d * Z2*Z2);
+                                return (mul_by_a(Z2*Y2) + Z2*X2 == X2*Y2 + mul_by_d(Z2*Z2));
                             }
                         }
 
-- 
2.43.0


From 51bcd17537c9701544b8504eef399ad939519493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:59 +0000
Subject: [PATCH 25/48] fix: pairings of the neutral element of G2 were not one

---
 .../pairing/edwards/183/ate_precompute_g2.hpp | 11 +++++++++++
 .../jacobian_with_a4_0/ate_precompute_g2.hpp  |  9 +++++++++
 .../projective/ate_precompute_g2.hpp          | 19 +++++++++++++++++++
 3 files changed, 39 insertions(+)

diff --git a/include/nil/crypto3/algebra/pairing/edwards/183/ate_precompute_g2.hpp b/include/nil/crypto3/algebra/pairing/edwards/183/ate_precompute_g2.hpp
index b9ec6cc..49003ab 100644
--- a/include/nil/crypto3/algebra/pairing/edwards/183/ate_precompute_g2.hpp
+++ b/include/nil/crypto3/algebra/pairing/edwards/183/ate_precompute_g2.hpp
@@ -26,6 +26,8 @@
 #ifndef CRYPTO3_ALGEBRA_PAIRING_BLS12_ATE_PRECOMPUTE_G2_HPP
 #define CRYPTO3_ALGEBRA_PAIRING_BLS12_ATE_PRECOMPUTE_G2_HPP
 
+#include <algorithm>
+
 #include <boost/multiprecision/number.hpp>
 #include <nil/crypto3/multiprecision/cpp_int_modular.hpp>
 
@@ -194,6 +196,15 @@ namespace nil {
                             }
                         }
 
+                        if (Q.is_zero()) {
+                            /* no conic passes through the neutral element: every factor has to be a non-zero
+                               constant that the final exponentiation removes, whatever the other point is */
+                            typename policy_type::Fq3_conic_coefficients cc;
+                            cc.c_ZZ = g2_field_type_value::one();
+                            cc.c_XY = cc.c_XZ = g2_field_type_value::zero();
+                            std::fill(result.begin(), result.end(), cc);
+                        }
+
                         return result;
                     }
                 };
diff --git a/include/nil/crypto3/algebra/pairing/forms/short_weierstrass/jacobian_with_a4_0/ate_precompute_g2.hpp b/include/nil/crypto3/algebra/pairing/forms/short_weierstrass/jacobian_with_a4_0/ate_precompute_g2.hpp
index 4aa8568..716d802 100644
--- a/include/nil/crypto3/algebra/pairing/forms/short_weierstrass/jacobian_with_a4_0/ate_precompute_g2.hpp
+++ b/include/nil/crypto3/algebra/pairing/forms/short_weierstrass/jacobian_with_a4_0/ate_precompute_g2.hpp
@@ -26,6 +26,8 @@
 #ifndef CRYPTO3_ALGEBRA_PAIRING_SHORT_WEIERSTRASS_JACOBIAN_WITH_A4_0_ATE_PRECOMPUTE_G2_HPP
 #define CRYPTO3_ALGEBRA_PAIRING_SHORT_WEIERSTRASS_JACOBIAN_WITH_A4_0_ATE_PRECOMPUTE_G2_HPP
 
+#include <algorithm>
+
 #include <boost/multiprecision/number.hpp>
 #include <nil/crypto3/multiprecision/cpp_int_modular.hpp>
 
@@ -140,6 +142,13 @@ namespace nil {
                             }
                         }
 
+                        if (Q.is_zero()) {
+                            /* no line passes through the point at infinity: every factor is one */
+                            c.ell_0 = g2_field_type_value::one();
+                            c.ell_VW = c.ell_VV = g2_field_type_value::zero();
+                            std::fill(result.coeffs.begin(), result.coeffs.end(), c);
+                        }
+
                         return result;
                     }
                 };
diff --git a/include/nil/crypto3/algebra/pairing/forms/short_weierstrass/projective/ate_precompute_g2.hpp b/include/nil/crypto3/algebra/pairing/forms/short_weierstrass/projective/ate_precompute_g2.hpp
index 10a892c..f8d84f4 100644
--- a/include/nil/crypto3/algebra/pairing/forms/short_weierstrass/projective/ate_precompute_g2.hpp
+++ b/include/nil/crypto3/algebra/pairing/forms/short_weierstrass/projective/ate_precompute_g2.hpp
@@ -26,6 +26,8 @@
 #ifndef CRYPTO3_ALGEBRA_PAIRING_SHORT_WEIERSTRASS_PROJECTIVE_ATE_PRECOMPUTE_G2_HPP
 #define CRYPTO3_ALGEBRA_PAIRING_SHORT_WEIERSTRASS_PROJECTIVE_ATE_PRECOMPUTE_G2_HPP
 
+#include <algorithm>
+
 #include <boost/multiprecision/number.hpp>
 #include <nil/crypto3/multiprecision/cpp_int_modular.hpp>
 
@@ -165,6 +167,23 @@ namespace nil {
                             result.add_coeffs.push_back(ac);
                         }
 
+                        if (Q.is_zero()) {
+                            /* no line passes through the point at infinity: every factor has to be a non-zero
+                               constant that the final exponentiation removes, whatever the other point is */
+                            result.QX_over_twist = params_type::twist;
+                            result.QY_over_twist = g2_field_type_value::zero();
+
+                            typename policy_type::ate_dbl_coeffs dc;
+                            dc.c_H = dc.c_4C = dc.c_J = g2_field_type_value::zero();
+                            dc.c_L = g2_field_type_value::one();
+                            std::fill(result.dbl_coeffs.begin(), result.dbl_coeffs.end(), dc);
+
+                            typename policy_type::ate_add_coeffs ac;
+                            ac.c_L1 = g2_field_type_value::one();
+                            ac.c_RZ = g2_field_type_value::zero();
+                            std::fill(result.add_coeffs.begin(), result.add_coeffs.end(), ac);
+                        }
+
                         return result;
                     }
                 };
-- 
2.43.0


From b1fed4d9abdda4b985711334694b3284bd419628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:54 +0000
Subject: [PATCH 26/48] fix: octets of a field element left leading zeros as
 the buffer held them

---
 include/nil/crypto3/algebra/marshalling.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/nil/crypto3/algebra/marshalling.hpp b/include/nil/crypto3/algebra/marshalling.hpp
index 2687482..32b226a 100644
--- a/include/nil/crypto3/algebra/marshalling.hpp
+++ b/include/nil/crypto3/algebra/marshalling.hpp
@@ -27,6 +27,7 @@
 #ifndef CRYPTO3_ALGEBRA_MARSHALLING_HPP
 #define CRYPTO3_ALGEBRA_MARSHALLING_HPP
 
+#include <algorithm>
 #include <vector>
 #include <tuple>
 
@@ -105,6 +106,8 @@ namespace nil {
                                            OutputIterator out_last) {
                     BOOST_ASSERT(field_octets_num == std::distance(out_first, out_last));
 
+                    // leading zero octets are not exported
+                    std::fill(out_first, out_last, chunk_type(0));
                     ::boost::multiprecision::export_bits(
                         element.data.template convert_to<typename FieldType::integral_type>(), out_first, chunk_size,
                         false);
-- 
2.43.0


From c235a93914fd69ebea391e213f21fb7bd0f8db07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:54 +0000
Subject: [PATCH 27/48] fix: octets_to_g2_point wrote past the end of an empty
 copy of its range

---
 include/nil/crypto3/algebra/curves/detail/marshalling.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/nil/crypto3/algebra/curves/detail/marshalling.hpp b/include/nil/crypto3/algebra/curves/detail/marshalling.hpp
index 644dbea..8a27f5b 100644
--- a/include/nil/crypto3/algebra/curves/detail/marshalling.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/marshalling.hpp
@@ -173,8 +173,7 @@ namespace nil {
                 const std::uint8_t m_byte = *octets.begin() & 0xE0;
                 BOOST_ASSERT(m_byte != 0x20 && m_byte != 0x60 && m_byte != 0xE0);
 
-                PointOctetsRange point_octets;
-                std::copy(octets.begin(), octets.end(), point_octets.begin());
+                PointOctetsRange point_octets = octets;
                 *point_octets.begin() &= 0x1F;
 
                 if (m_byte & C_bit) {
-- 
2.43.0


From 4b6dfa7e9e342588fd1798580e3217ab7c38f103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:13 +0000
Subject: [PATCH 28/48] fix: unbounded_shl wrapped counts of the word's width
 and beyond

---
 include/nil/crypto3/detail/unbounded_shift.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/crypto3/detail/unbounded_shift.hpp b/include/nil/crypto3/detail/unbounded_shift.hpp
index 1faa0a6..964c939 100644
--- a/include/nil/crypto3/detail/unbounded_shift.hpp
+++ b/include/nil/crypto3/detail/unbounded_shift.hpp
@@ -68,7 +68,7 @@ namespace nil {
             template<typename T>
             T unbounded_shl(T x, std::size_t n) {
                 if (sizeof(T) * CHAR_BIT <= n)
-                    n %= sizeof(T) * CHAR_BIT;
+                    return 0;
                 return x << n;
             }
 
-- 
2.43.0


From d4fc1879baa30fec997cde91712823c7ce303b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:13 +0000
Subject: [PATCH 29/48] fix: state_adder did not compile

---
 include/nil/crypto3/detail/state_adder.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/nil/crypto3/detail/state_adder.hpp b/include/nil/crypto3/detail/state_adder.hpp
index d8f9c86..3d47b36 100644
--- a/include/nil/crypto3/detail/state_adder.hpp
+++ b/include/nil/crypto3/detail/state_adder.hpp
@@ -31,9 +31,9 @@ namespace nil {
             struct state_adder {
                 template<typename T>
                 void operator()(T &s1, T const &s2) {
-                    typedef typename T::size_type std::size_type;
-                    std::size_type n = (s2.size() < s1.size() ? s2.size() : s1.size());
-                    for (typename T::size_type i = 0; i < n; ++i) {
+                    typedef typename T::size_type size_type;
+                    size_type n = (s2.size() < s1.size() ? s2.size() : s1.size());
+                    for (size_type i = 0; i < n; ++i) {
                         s1[i] += s2[i];
                     }
                 }
-- 
2.43.0


From e55c4cc7b9b4af4d56007edfbb95e651595f17f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:38 +0000
Subject: [PATCH 30/48] fix: has_generate and has_check did not look at the
 type they were asked about

---
 include/nil/crypto3/detail/type_traits.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/nil/crypto3/detail/type_traits.hpp b/include/nil/crypto3/detail/type_traits.hpp
index a6662e7..a0da3e8 100644
--- a/include/nil/crypto3/detail/type_traits.hpp
+++ b/include/nil/crypto3/detail/type_traits.hpp
@@ -99,7 +99,10 @@
             void Function(##__VA_ARGS__);                                            \
         };                                                                           \
                                                                                      \
-        struct Derived : Fallback { };                                               \
+        struct Dummy { };                                                            \
+        using TType = typename std::conditional<std::is_class<T>::value, T, Dummy>::type; \
+                                                                                     \
+        struct Derived : TType, Fallback { };                                        \
                                                                                      \
         template<typename C, C>                                                      \
         struct ChT;                                                                  \
@@ -121,7 +124,10 @@
             void Function(##__VA_ARGS__) const;                                            \
         };                                                                                 \
                                                                                            \
-        struct Derived : Fallback { };                                                     \
+        struct Dummy { };                                                                  \
+        using TType = typename std::conditional<std::is_class<T>::value, T, Dummy>::type;  \
+                                                                                           \
+        struct Derived : TType, Fallback { };                                              \
                                                                                            \
         template<typename C, C>                                                            \
         struct ChT;                                                                        \
-- 
2.43.0


From e92e557d692c5e5260b8a4d5b0999167e3927164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:19 +0000
Subject: [PATCH 31/48] fix: is_curve did not see the group templates every
 curve declares

---
 include/nil/crypto3/algebra/type_traits.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/type_traits.hpp b/include/nil/crypto3/algebra/type_traits.hpp
index 303fcca..7e022ee 100644
--- a/include/nil/crypto3/algebra/type_traits.hpp
+++ b/include/nil/crypto3/algebra/type_traits.hpp
@@ -54,6 +54,9 @@ namespace nil {
             BOOST_TTI_HAS_TYPE(g2_type)
             BOOST_TTI_HAS_TYPE(gt_type)
 
+            BOOST_TTI_HAS_TEMPLATE(g1_type, class, class)
+            BOOST_TTI_HAS_TEMPLATE(g2_type, class, class)
+
             BOOST_TTI_HAS_TYPE(group_type)
 
             BOOST_TTI_HAS_STATIC_MEMBER_DATA(value_bits)
@@ -78,7 +81,8 @@ namespace nil {
             template<typename T>
             struct is_curve {
                 static const bool value = has_type_base_field_type<T>::value && has_type_scalar_field_type<T>::value &&
-                                          has_type_g1_type<T>::value && has_type_g2_type<T>::value &&
+                                          (has_type_g1_type<T>::value || has_template_g1_type<T>::value) &&
+                                          (has_type_g2_type<T>::value || has_template_g2_type<T>::value) &&
                                           has_type_gt_type<T>::value;
                 typedef T type;
             };
-- 
2.43.0


From 2501149a5b4622f24da5caf4934ee87b2855a211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:59 +0000
Subject: [PATCH 32/48] fix: the edwards G2 element was not recognised as a
 group element

---
 .../crypto3/algebra/curves/detail/edwards/element_g2.hpp  | 5 ++++-
 include/nil/crypto3/algebra/type_traits.hpp               | 8 ++++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/curves/detail/edwards/element_g2.hpp b/include/nil/crypto3/algebra/curves/detail/edwards/element_g2.hpp
index f3a175f..1db6e9a 100644
--- a/include/nil/crypto3/algebra/curves/detail/edwards/element_g2.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/edwards/element_g2.hpp
@@ -56,7 +56,10 @@ namespace nil {
                     class element_edwards_g2<183> {
                     public:
 
-                        using group_type = edwards_g2<183, forms::twisted_edwards, coordinates::inverted>;
+                        using form = forms::twisted_edwards;
+                        using coordinates = coordinates::inverted;
+
+                        using group_type = edwards_g2<183, form, coordinates>;
 
                         using policy_type = edwards_basic_policy<183>;
                         typedef typename policy_type::g1_field_type::value_type g1_field_type_value;
diff --git a/include/nil/crypto3/algebra/type_traits.hpp b/include/nil/crypto3/algebra/type_traits.hpp
index 7e022ee..a9c8933 100644
--- a/include/nil/crypto3/algebra/type_traits.hpp
+++ b/include/nil/crypto3/algebra/type_traits.hpp
@@ -135,6 +135,9 @@ namespace nil {
                 namespace detail {
                     template<typename CurveParams, typename Form, typename Coordinates>
                     class curve_element;
+
+                    template<std::size_t Version>
+                    class element_edwards_g2;
                 }    // namespace detail
             }        // namespace curves
 
@@ -143,6 +146,11 @@ namespace nil {
                 static const bool value = true;
             };
 
+            template<std::size_t Version>
+            struct is_group_element<curves::detail::element_edwards_g2<Version>> {
+                static const bool value = true;
+            };
+
             namespace fields {
                 namespace detail {
                     template<typename FieldParams>
-- 
2.43.0


From c31c963e5cb3376be169155ae46819a280104148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:42 +0000
Subject: [PATCH 33/48] fix: pollard_rho_factorization gave up with the number
 itself when its cycle closed

---
 include/nil/crypto3/algebra/primes.hpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/include/nil/crypto3/algebra/primes.hpp b/include/nil/crypto3/algebra/primes.hpp
index 416e077..b1cab2c 100644
--- a/include/nil/crypto3/algebra/primes.hpp
+++ b/include/nil/crypto3/algebra/primes.hpp
@@ -52,15 +52,20 @@ namespace nil {
                 }
 
                 boost::random::independent_bits_engine<std::mt19937, 256, number<Backend, ExpressionTemplates>> rng;
-                number<backends::modular_adaptor<Backend, backends::modular_params_rt<Backend>>, ExpressionTemplates> divisor,
-                        c(rng(), n), x(rng(), n), nn(n, n), xx = x;
+                number<Backend, ExpressionTemplates> divisor;
+                // a cycle that closes before a factor shows up ends with divisor == n: take another one
                 do {
-                    x = x * x + c;
-                    xx = xx * xx + c;
-                    xx = xx * xx + c;
-                    divisor = boost::multiprecision::gcd((x > xx) ? x - xx : xx - x, nn);
-                } while (static_cast<int>(divisor) == 1);
-                return static_cast<boost::multiprecision::number<Backend, ExpressionTemplates>>(divisor);
+                    number<backends::modular_adaptor<Backend, backends::modular_params_rt<Backend>>, ExpressionTemplates>
+                            c(rng(), n), x(rng(), n), xx = x;
+                    do {
+                        x = x * x + c;
+                        xx = xx * xx + c;
+                        xx = xx * xx + c;
+                        divisor = boost::multiprecision::gcd(
+                                static_cast<number<Backend, ExpressionTemplates>>((x > xx) ? x - xx : xx - x), n);
+                    } while (divisor == 1);
+                } while (divisor == n && !miller_rabin_test(n, 100));
+                return divisor;
             }
 
             /*
-- 
2.43.0


From fafb7aec486cea9c3f8fc4236475493132c540f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:42 +0000
Subject: [PATCH 34/48] fix: totient_list of one was empty

---
 include/nil/crypto3/algebra/totient.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/totient.hpp b/include/nil/crypto3/algebra/totient.hpp
index 663b848..60bc1ed 100644
--- a/include/nil/crypto3/algebra/totient.hpp
+++ b/include/nil/crypto3/algebra/totient.hpp
@@ -65,7 +65,7 @@ namespace nil {
                 std::vector<IntegerType> result;
                 IntegerType one = 1;
 
-                for (IntegerType i = 1; i < n; i++) {
+                for (IntegerType i = 1; i <= n; i++) {
                     if (boost::multiprecision::gcd(i, n) == one)
                         result.push_back(i);
                 }
-- 
2.43.0


From 5c6a1fe8673dc480b2dcb2f26b5d7cf57468222b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:20 +0000
Subject: [PATCH 35/48] fix: iso_map sent the isogeny's kernel to the generator
 instead of the neutral element

---
 include/nil/crypto3/algebra/curves/detail/h2c/h2c_iso_map.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nil/crypto3/algebra/curves/detail/h2c/h2c_iso_map.hpp b/include/nil/crypto3/algebra/curves/detail/h2c/h2c_iso_map.hpp
index 559116c..fee4cda 100644
--- a/include/nil/crypto3/algebra/curves/detail/h2c/h2c_iso_map.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/h2c/h2c_iso_map.hpp
@@ -139,7 +139,7 @@ namespace nil {
                             y_den += xi_powers[k_y_den.size()];
 
                             if (x_den.is_zero() || y_den.is_zero()) {
-                                return group_value_type::one();
+                                return group_value_type::zero();
                             }
 
                             for (std::size_t i = 0; i < k_x_num.size(); i++) {
@@ -226,7 +226,7 @@ namespace nil {
                             y_den += xi_powers[k_y_den.size()];
 
                             if (x_den.is_zero() || y_den.is_zero()) {
-                                return group_value_type::one();
+                                return group_value_type::zero();
                             }
 
                             for (std::size_t i = 0; i < k_x_num.size(); i++) {
-- 
2.43.0


From b7759d7a1d25f58400fd099ab7f9641144fb7014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:17 +0000
Subject: [PATCH 36/48] fix: std::hash of element_fp2 did not compile

---
 include/nil/crypto3/algebra/fields/detail/element/fp2.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/fields/detail/element/fp2.hpp b/include/nil/crypto3/algebra/fields/detail/element/fp2.hpp
index 0e22610..0534d03 100644
--- a/include/nil/crypto3/algebra/fields/detail/element/fp2.hpp
+++ b/include/nil/crypto3/algebra/fields/detail/element/fp2.hpp
@@ -348,7 +348,7 @@ namespace nil {
 template<typename FieldParams>
 struct std::hash<typename nil::crypto3::algebra::fields::detail::element_fp2<FieldParams>>
 {
-    std::hash<typename nil::crypto3::algebra::fields::detail::element_fp2<FieldParams>::modular_type> hasher;
+    std::hash<typename nil::crypto3::algebra::fields::detail::element_fp2<FieldParams>::underlying_type> hasher;
     size_t operator()(const nil::crypto3::algebra::fields::detail::element_fp2<FieldParams>& elem) const
     {
         std::size_t result = hasher(elem.data[0]);
-- 
2.43.0


From 0ec30a0ab800400d406d2fce2cd0bcf08d10674e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:17 +0000
Subject: [PATCH 37/48] fix: points in jacobian_with_a4_0 and
 jacobian_with_a4_minus_3 coordinates printed malformed text

---
 .../forms/short_weierstrass/jacobian_with_a4_0/element_g1.hpp   | 2 +-
 .../short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_0/element_g1.hpp b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_0/element_g1.hpp
index ef6a560..0f1d98a 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_0/element_g1.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_0/element_g1.hpp
@@ -336,7 +336,7 @@ namespace nil {
 
                         friend std::ostream& operator<<(std::ostream& os, curve_element const& e)
                         {
-                            os << "{\"X\":" << e.X << ",Y\":" << e.Y << ",Z\":" << e.Z << "}";
+                            os << "{\"X\":" << e.X << ",\"Y\":" << e.Y << ",\"Z\":" << e.Z << "}";
                             return os;
                         }
                     };
diff --git a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp
index bbfacfa..23996e7 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp
@@ -340,7 +340,7 @@ namespace nil {
 
                         friend std::ostream& operator<<(std::ostream& os, curve_element const& e)
                         {
-                            os << "{\"X\":" << e.X << ",Y\":" << e.Y << ",Z\":" << e.Z << "}";
+                            os << "{\"X\":" << e.X << ",\"Y\":" << e.Y << ",\"Z\":" << e.Z << "}";
                             return os;
                         }
                     };
-- 
2.43.0


From 0dabc651c6a1bd7d4ec659de0e6bdbea98346b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:17 +0000
Subject: [PATCH 38/48] fix: pairing precomputations printed a separator after
 the last coefficients

---
 .../forms/short_weierstrass/jacobian_with_a4_0/types.hpp      | 2 +-
 .../detail/forms/short_weierstrass/projective/types.hpp       | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/nil/crypto3/algebra/pairing/detail/forms/short_weierstrass/jacobian_with_a4_0/types.hpp b/include/nil/crypto3/algebra/pairing/detail/forms/short_weierstrass/jacobian_with_a4_0/types.hpp
index fdf3d17..2846f14 100644
--- a/include/nil/crypto3/algebra/pairing/detail/forms/short_weierstrass/jacobian_with_a4_0/types.hpp
+++ b/include/nil/crypto3/algebra/pairing/detail/forms/short_weierstrass/jacobian_with_a4_0/types.hpp
@@ -99,7 +99,7 @@ namespace nil {
                                 << "\"coeffs\":[" << std::endl;
                             for(auto d = p.coeffs.begin(); d != p.coeffs.end(); ++d) {
                                 os << "[" << d->ell_0 << "," << d->ell_VW << "," << d->ell_VV << "]";
-                                if (d != p.coeffs.end()) {
+                                if (d + 1 != p.coeffs.end()) {
                                     os << "," << std::endl;
                                 }
                             }
diff --git a/include/nil/crypto3/algebra/pairing/detail/forms/short_weierstrass/projective/types.hpp b/include/nil/crypto3/algebra/pairing/detail/forms/short_weierstrass/projective/types.hpp
index d798a13..8bb13ae 100644
--- a/include/nil/crypto3/algebra/pairing/detail/forms/short_weierstrass/projective/types.hpp
+++ b/include/nil/crypto3/algebra/pairing/detail/forms/short_weierstrass/projective/types.hpp
@@ -150,14 +150,14 @@ namespace nil {
                                 << "\"dbl_coeffs\":[" << std::endl;
                             for(auto d = p.dbl_coeffs.begin(); d != p.dbl_coeffs.end(); ++d) {
                                 os << "[" << d->c_H << "," << d->c_4C << "," << d->c_J << "," << d->c_L << "]";
-                                if (d != p.dbl_coeffs.end()) {
+                                if (d + 1 != p.dbl_coeffs.end()) {
                                     os << "," << std::endl;
                                 }
                             }
                             os << "]," << std::endl << "\"add_coeffs\":[" << std::endl;
                             for(auto a = p.add_coeffs.begin(); a != p.add_coeffs.end(); ++a) {
                                 os << "[" << a->c_L1 << "," << a->c_RZ << "]";
-                                if (a != p.add_coeffs.end()) {
+                                if (a + 1 != p.add_coeffs.end()) {
                                     os << "," << std::endl;;
                                 }
                             }
-- 
2.43.0


From ce0e6ff7de1e2a79b1c525c74f632ea1762921dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:17 +0000
Subject: [PATCH 39/48] fix: edwards G2 element constructed from affine
 coordinates exchanged them

---
 .../nil/crypto3/algebra/curves/detail/edwards/element_g2.hpp  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nil/crypto3/algebra/curves/detail/edwards/element_g2.hpp b/include/nil/crypto3/algebra/curves/detail/edwards/element_g2.hpp
index 1db6e9a..79ab429 100644
--- a/include/nil/crypto3/algebra/curves/detail/edwards/element_g2.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/edwards/element_g2.hpp
@@ -98,11 +98,11 @@ namespace nil {
                         }
 
                         /** @brief
-                         *    @return the selected point $(X:Y:X*Y)$ in the inverted coordinates
+                         *    @return the selected affine point $(X, Y)$, $(Y:X:X*Y)$ in the inverted coordinates
                          *
                          */
                         constexpr element_edwards_g2(underlying_field_value_type X, underlying_field_value_type Y) :
-                            element_edwards_g2(X, Y, X * Y) {};
+                            element_edwards_g2(Y, X, X * Y) {};
                         /** @brief Get the point at infinity
                          *
                          */
-- 
2.43.0


From cb439be190491514bce675a6ca496659deba8a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:32:02 +0000
Subject: [PATCH 40/48] fix: sqrt of infinity does not terminate and nthroot of
 infinity is NaN

---
 include/nil/crypto3/algebra/scalar/math.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/nil/crypto3/algebra/scalar/math.hpp b/include/nil/crypto3/algebra/scalar/math.hpp
index fd1b6be..1059992 100644
--- a/include/nil/crypto3/algebra/scalar/math.hpp
+++ b/include/nil/crypto3/algebra/scalar/math.hpp
@@ -27,6 +27,8 @@
 #ifndef CRYPTO3_ALGEBRA_SCALAR_MATH_HPP
 #define CRYPTO3_ALGEBRA_SCALAR_MATH_HPP
 
+#include <limits>
+
 #include <nil/crypto3/algebra/type_traits.hpp>
 #include <nil/crypto3/detail/assert.hpp>
 
@@ -49,6 +51,8 @@ namespace nil {
                     throw "sqrt argument must be positive";
                 if (x == 0)    // the iteration below divides by its estimate
                     return x;
+                if (!(x <= std::numeric_limits<double>::max()))    // infinity and NaN: the iteration would not end
+                    return x;
                 double prev = 0;
                 double est = (1 + x) / 2;
                 while (prev != est) {
@@ -122,6 +126,8 @@ namespace nil {
                     throw "nth root argument must be positive";
                 if (x == 0)    // the iteration below divides by a power of its estimate
                     return x;
+                if (!(x <= std::numeric_limits<double>::max()))    // infinity and NaN
+                    return x;
                 double prev = 1;
                 double est = prev + 1. / n * (x - prev);
                 // From the second estimate on the iteration only descends, until rounding stops it.
-- 
2.43.0


From 270e9e72e147054e53e3f9b2bd0a4e8bfe6789e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:32:02 +0000
Subject: [PATCH 41/48] fix: modulus of a complex number whose square overflows
 hangs, underflows to zero

---
 include/nil/crypto3/algebra/scalar/math.hpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/include/nil/crypto3/algebra/scalar/math.hpp b/include/nil/crypto3/algebra/scalar/math.hpp
index 1059992..56effd9 100644
--- a/include/nil/crypto3/algebra/scalar/math.hpp
+++ b/include/nil/crypto3/algebra/scalar/math.hpp
@@ -28,6 +28,7 @@
 #define CRYPTO3_ALGEBRA_SCALAR_MATH_HPP
 
 #include <limits>
+#include <type_traits>
 
 #include <nil/crypto3/algebra/type_traits.hpp>
 #include <nil/crypto3/detail/assert.hpp>
@@ -81,9 +82,21 @@ namespace nil {
             template<typename T>
             constexpr nil::crypto3::algebra::remove_complex_t<T> abs(T x) {
                 // CRYPTO3_DETAIL_ASSERT_ARITHMETIC(T);
-                if constexpr (algebra::is_complex_v<T>)
-                    return sqrt(x.real() * x.real() + x.imag() * x.imag());
-                else
+                if constexpr (algebra::is_complex_v<T>) {
+                    auto norm = x.real() * x.real() + x.imag() * x.imag();
+                    using real_type = decltype(norm);
+                    if constexpr (std::is_floating_point_v<real_type>) {
+                        // The squares may leave the range of the type where the modulus does not
+                        constexpr real_type lowest = std::numeric_limits<real_type>::min() / std::numeric_limits<real_type>::epsilon();
+                        if (norm < lowest || norm > std::numeric_limits<real_type>::max()) {
+                            real_type re = abs(x.real()), im = abs(x.imag()), m = re > im ? re : im;
+                            if (m == 0 || m > std::numeric_limits<real_type>::max())
+                                return m;
+                            return m * sqrt((re / m) * (re / m) + (im / m) * (im / m));
+                        }
+                    }
+                    return sqrt(norm);
+                } else
                     return x > 0 ? x : -x;
             }
 
-- 
2.43.0


From 4d1c71bd71ebcec315ca757c28f347cb64b33bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:59 +0000
Subject: [PATCH 42/48] fix: type assertion macros name classifiers that do not
 exist

---
 include/nil/crypto3/detail/assert.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/nil/crypto3/detail/assert.hpp b/include/nil/crypto3/detail/assert.hpp
index 2fa803d..af6a164 100644
--- a/include/nil/crypto3/detail/assert.hpp
+++ b/include/nil/crypto3/detail/assert.hpp
@@ -25,24 +25,25 @@
 #ifndef CRYPTO3_DETAIL_ASSERT_HPP
 #define CRYPTO3_DETAIL_ASSERT_HPP
 
+#include <nil/crypto3/algebra/type_traits.hpp>
 #include <nil/crypto3/detail/type_traits.hpp>
 
 #define CRYPTO3_DETAIL_ASSERT_FLOATING_POINT(T)                                                     \
-    static_assert(std::is_floating_point<typename algebra::detail::remove_complex<T>::type>::value, \
+    static_assert(std::is_floating_point<typename ::nil::crypto3::algebra::remove_complex<T>::type>::value, \
                   "argument must be a (real or complex) floating point type");
 
 #define CRYPTO3_DETAIL_ASSERT_INTEGRAL(T) \
     static_assert(std::is_integral<T>::value, "argument must be a real integral type");
 
 #define CRYPTO3_DETAIL_ASSERT_VALID_COMPLEX(T)                                                          \
-    static_assert(!algebra::detail::is_complex<T>::value ||                                             \
-                      std::is_floating_point<typename algebra::detail::remove_complex<T>::type>::value, \
+    static_assert(!::nil::crypto3::algebra::is_complex<T>::value ||                                             \
+                      std::is_floating_point<typename ::nil::crypto3::algebra::remove_complex<T>::type>::value, \
                   "invalid complex type argument (valid types are "                                     \
                   "complex<float>, complex<double>, and complex<long double>)");
 
 #define CRYPTO3_DETAIL_ASSERT_ARITHMETIC(T)                                                     \
     CRYPTO3_DETAIL_ASSERT_VALID_COMPLEX(T)                                                      \
-    static_assert(std::is_arithmetic<typename algebra::detail::remove_complex<T>::type>::value, \
+    static_assert(std::is_arithmetic<typename ::nil::crypto3::algebra::remove_complex<T>::type>::value, \
                   "argument must be a (real or complex) arithmetic type");
 
 #define CRYPTO3_DETAIL_ASSERT_REAL(T) \
@@ -50,6 +51,6 @@
 
 #define CRYPTO3_DETAIL_ASSERT_COMPLEX(T)   \
     CRYPTO3_DETAIL_ASSERT_VALID_COMPLEX(T) \
-    static_assert(algebra::detail::is_complex<T>::value, "argument must be a complex type");
+    static_assert(::nil::crypto3::algebra::is_complex<T>::value, "argument must be a complex type");
 
 #endif    // CRYPTO3_DETAIL_ASSERT_H_
\ No newline at end of file
-- 
2.43.0


From 33cd06bf561bc67cabba56c511ee0fe9b3f16a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:33 +0000
Subject: [PATCH 43/48] fix: affine addition is declared constexpr but calls a
 function that is not

---
 .../curves/detail/forms/short_weierstrass/element_g1_affine.hpp | 2 +-
 .../curves/detail/forms/twisted_edwards/element_g1_affine.hpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/element_g1_affine.hpp b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/element_g1_affine.hpp
index 9d1a913..1f982d3 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/element_g1_affine.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/element_g1_affine.hpp
@@ -270,7 +270,7 @@ namespace nil {
                          * x3 = (y2-y1)2/(x2-x1)2-x1-x2
                          * y3 = (2*x1+x2)*(y2-y1)/(x2-x1)-(y2-y1)3/(x2-x1)3-y1
                          */
-                        void add(const curve_element &other) {
+                        constexpr void add(const curve_element &other) {
                             field_value_type Y2mY1 = other.Y - Y;
                             field_value_type X2mX1i = other.X - X;
                             if (X2mX1i == field_value_type::zero()) {
diff --git a/include/nil/crypto3/algebra/curves/detail/forms/twisted_edwards/element_g1_affine.hpp b/include/nil/crypto3/algebra/curves/detail/forms/twisted_edwards/element_g1_affine.hpp
index 32ff340..3f02d48 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/twisted_edwards/element_g1_affine.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/twisted_edwards/element_g1_affine.hpp
@@ -314,7 +314,7 @@ namespace nil {
                          *   x3 = (x1*y2+y1*x2)/(1+d*x1*x2*y1*y2)
                          *   y3 = (y1*y2-a*x1*x2)/(1-d*x1*x2*y1*y2)
                          */
-                        void add(const curve_element &other) {
+                        constexpr void add(const curve_element &other) {
                             field_value_type XX = (this->X) * (other.X);
                             field_value_type YY = (this->Y) * (other.Y);
                             field_value_type XY = (this->X) * (other.Y);
-- 
2.43.0


From ee430c12f1ee3edf676180a567982e5ad3682a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:39:41 +0000
Subject: [PATCH 44/48] fix: strxor returns where its output ends, and includes
 what it uses

---
 include/nil/crypto3/algebra/algorithms/strxor.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/nil/crypto3/algebra/algorithms/strxor.hpp b/include/nil/crypto3/algebra/algorithms/strxor.hpp
index ebd3180..bb265be 100644
--- a/include/nil/crypto3/algebra/algorithms/strxor.hpp
+++ b/include/nil/crypto3/algebra/algorithms/strxor.hpp
@@ -28,8 +28,10 @@
 
 #include <boost/concept/assert.hpp>
 #include <boost/assert.hpp>
+#include <boost/range/concepts.hpp>
 
 #include <iterator>
+#include <type_traits>
 
 namespace nil {
     namespace crypto3 {
@@ -46,6 +48,8 @@ namespace nil {
                 while (first1 != last1 && first2 != last2) {
                     *out++ = *first1++ ^ *first2++;
                 }
+
+                return out;
             }
 
             template<typename InputType, typename OutputType>
-- 
2.43.0


From ffaa32b6cf2b61feca0948fe4e3055c453a5e6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:39:41 +0000
Subject: [PATCH 45/48] fix: brainpool_r1 fields declare each alias once

---
 .../fields/brainpool_r1/base_field.hpp        | 24 -------------------
 .../fields/brainpool_r1/scalar_field.hpp      | 12 ----------
 2 files changed, 36 deletions(-)

diff --git a/include/nil/crypto3/algebra/fields/brainpool_r1/base_field.hpp b/include/nil/crypto3/algebra/fields/brainpool_r1/base_field.hpp
index 2a83a08..bc50fe8 100644
--- a/include/nil/crypto3/algebra/fields/brainpool_r1/base_field.hpp
+++ b/include/nil/crypto3/algebra/fields/brainpool_r1/base_field.hpp
@@ -260,33 +260,9 @@ namespace nil {
 
                 template<std::size_t Version = 160>
                 using brainpool_r1_fq = brainpool_r1_base_field<Version>;
-                template<std::size_t Version = 192>
-                using brainpool_r1_fq = brainpool_r1_base_field<Version>;
-                template<std::size_t Version = 224>
-                using brainpool_r1_fq = brainpool_r1_base_field<Version>;
-                template<std::size_t Version = 256>
-                using brainpool_r1_fq = brainpool_r1_base_field<Version>;
-                template<std::size_t Version = 320>
-                using brainpool_r1_fq = brainpool_r1_base_field<Version>;
-                template<std::size_t Version = 384>
-                using brainpool_r1_fq = brainpool_r1_base_field<Version>;
-                template<std::size_t Version = 512>
-                using brainpool_r1_fq = brainpool_r1_base_field<Version>;
 
                 template<std::size_t Version = 160>
                 using brainpool_r1 = brainpool_r1_base_field<Version>;
-                template<std::size_t Version = 192>
-                using brainpool_r1 = brainpool_r1_base_field<Version>;
-                template<std::size_t Version = 224>
-                using brainpool_r1 = brainpool_r1_base_field<Version>;
-                template<std::size_t Version = 256>
-                using brainpool_r1 = brainpool_r1_base_field<Version>;
-                template<std::size_t Version = 320>
-                using brainpool_r1 = brainpool_r1_base_field<Version>;
-                template<std::size_t Version = 384>
-                using brainpool_r1 = brainpool_r1_base_field<Version>;
-                template<std::size_t Version = 512>
-                using brainpool_r1 = brainpool_r1_base_field<Version>;
 
             }    // namespace fields
         }        // namespace algebra
diff --git a/include/nil/crypto3/algebra/fields/brainpool_r1/scalar_field.hpp b/include/nil/crypto3/algebra/fields/brainpool_r1/scalar_field.hpp
index cd93801..35760a6 100644
--- a/include/nil/crypto3/algebra/fields/brainpool_r1/scalar_field.hpp
+++ b/include/nil/crypto3/algebra/fields/brainpool_r1/scalar_field.hpp
@@ -246,18 +246,6 @@ namespace nil {
 
                 template<std::size_t Version = 160>
                 using brainpool_r1_fr = brainpool_r1_scalar_field<Version>;
-                template<std::size_t Version = 192>
-                using brainpool_r1_fr = brainpool_r1_scalar_field<Version>;
-                template<std::size_t Version = 224>
-                using brainpool_r1_fr = brainpool_r1_scalar_field<Version>;
-                template<std::size_t Version = 256>
-                using brainpool_r1_fr = brainpool_r1_scalar_field<Version>;
-                template<std::size_t Version = 320>
-                using brainpool_r1_fr = brainpool_r1_scalar_field<Version>;
-                template<std::size_t Version = 384>
-                using brainpool_r1_fr = brainpool_r1_scalar_field<Version>;
-                template<std::size_t Version = 512>
-                using brainpool_r1_fr = brainpool_r1_scalar_field<Version>;
 
             }    // namespace fields
         }        // namespace algebra
-- 
2.43.0


From 8e1a78b8df672a019b676d262b0a696ffdbe56a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:39:41 +0000
Subject: [PATCH 46/48] fix: x962_p fields declare each alias once and for the
 field they define

---
 .../nil/crypto3/algebra/fields/x962_p/base_field.hpp   |  8 --------
 .../nil/crypto3/algebra/fields/x962_p/scalar_field.hpp | 10 +++-------
 2 files changed, 3 insertions(+), 15 deletions(-)

diff --git a/include/nil/crypto3/algebra/fields/x962_p/base_field.hpp b/include/nil/crypto3/algebra/fields/x962_p/base_field.hpp
index 88e623e..bab7ec2 100644
--- a/include/nil/crypto3/algebra/fields/x962_p/base_field.hpp
+++ b/include/nil/crypto3/algebra/fields/x962_p/base_field.hpp
@@ -206,10 +206,6 @@ namespace nil {
                 using x962_p_v3_fq = x962_p_v3_base_field<Version>;
                 template<std::size_t Version = 239>
                 using x962_p_v1_fq = x962_p_v1_base_field<Version>;
-                template<std::size_t Version = 239>
-                using x962_p_v2_fq = x962_p_v2_base_field<Version>;
-                template<std::size_t Version = 239>
-                using x962_p_v3_fq = x962_p_v3_base_field<Version>;
 
                 template<std::size_t Version = 192>
                 using x962_p_v2 = x962_p_v2_base_field<Version>;
@@ -217,10 +213,6 @@ namespace nil {
                 using x962_p_v3 = x962_p_v3_base_field<Version>;
                 template<std::size_t Version = 239>
                 using x962_p_v1 = x962_p_v1_base_field<Version>;
-                template<std::size_t Version = 239>
-                using x962_p_v2 = x962_p_v2_base_field<Version>;
-                template<std::size_t Version = 239>
-                using x962_p_v3 = x962_p_v3_base_field<Version>;
 
             }    // namespace fields
         }        // namespace algebra
diff --git a/include/nil/crypto3/algebra/fields/x962_p/scalar_field.hpp b/include/nil/crypto3/algebra/fields/x962_p/scalar_field.hpp
index 34aa9df..88641c7 100644
--- a/include/nil/crypto3/algebra/fields/x962_p/scalar_field.hpp
+++ b/include/nil/crypto3/algebra/fields/x962_p/scalar_field.hpp
@@ -206,15 +206,11 @@ namespace nil {
                     x962_p_v3_scalar_field<239>::modulus_params;
 
                 template<std::size_t Version = 192>
-                using x962_p_v2_fr = x962_p_v2_scalar_field_field<Version>;
+                using x962_p_v2_fr = x962_p_v2_scalar_field<Version>;
                 template<std::size_t Version = 192>
-                using x962_p_v3_fr = x962_p_v3_scalar_field_field<Version>;
+                using x962_p_v3_fr = x962_p_v3_scalar_field<Version>;
                 template<std::size_t Version = 239>
-                using x962_p_v1_fr = x962_p_v1_scalar_field_field<Version>;
-                template<std::size_t Version = 239>
-                using x962_p_v2_fr = x962_p_v2_scalar_field_field<Version>;
-                template<std::size_t Version = 239>
-                using x962_p_v3_fr = x962_p_v3_scalar_field_field<Version>;
+                using x962_p_v1_fr = x962_p_v1_scalar_field<Version>;
 
             }    // namespace fields
         }        // namespace algebra
-- 
2.43.0


From e093bd98f530ea4f939f99e9bed86190d5a1d9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:39:41 +0000
Subject: [PATCH 47/48] fix: frp_v1 base field aliases name the field that is
 defined

---
 include/nil/crypto3/algebra/fields/frp_v1/base_field.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nil/crypto3/algebra/fields/frp_v1/base_field.hpp b/include/nil/crypto3/algebra/fields/frp_v1/base_field.hpp
index b4360e9..019cd1b 100644
--- a/include/nil/crypto3/algebra/fields/frp_v1/base_field.hpp
+++ b/include/nil/crypto3/algebra/fields/frp_v1/base_field.hpp
@@ -79,10 +79,10 @@ namespace nil {
                     typename frp_v1_base_fields<256>::modular_params_type const frp_v1_base_fields<256>::modulus_params;
 
                 template<std::size_t Version = 256>
-                using frp_v1_fq = frp_v1_base_field<Version>;
+                using frp_v1_fq = frp_v1_base_fields<Version>;
 
                 template<std::size_t Version = 256>
-                using frp_v1 = frp_v1_base_field<Version>;
+                using frp_v1 = frp_v1_base_fields<Version>;
             }    // namespace fields
         }        // namespace algebra
     }            // namespace crypto3
-- 
2.43.0


From a8649b808803508aa6d7e496683f9393d40c37bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:39:41 +0000
Subject: [PATCH 48/48] fix: modp_ietf defines no members for versions that
 have none

---
 include/nil/crypto3/algebra/fields/modp_ietf.hpp | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/include/nil/crypto3/algebra/fields/modp_ietf.hpp b/include/nil/crypto3/algebra/fields/modp_ietf.hpp
index b8465bf..364530c 100644
--- a/include/nil/crypto3/algebra/fields/modp_ietf.hpp
+++ b/include/nil/crypto3/algebra/fields/modp_ietf.hpp
@@ -230,12 +230,6 @@ namespace nil {
                     constexpr static const std::size_t arity = 1;
                 };
 
-                template<std::size_t Version>
-                constexpr typename modp_ietf<Version>::integral_type const modp_ietf<Version>::modulus;
-
-                template<std::size_t Version>
-                constexpr typename modp_ietf<Version>::integral_type const modp_ietf<Version>::mul_generator;
-
                 constexpr typename modp_ietf<1024>::integral_type const modp_ietf<1024>::modulus;
                 constexpr typename modp_ietf<1536>::integral_type const modp_ietf<1536>::modulus;
                 constexpr typename modp_ietf<2048>::integral_type const modp_ietf<2048>::modulus;
-- 
2.43.0

