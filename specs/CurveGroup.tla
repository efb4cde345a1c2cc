----------------------------- MODULE CurveGroup -----------------------------
(* The group of points of a curve, by the chord-and-tangent / Edwards        *)
(* definitions, together with the relation between the abstract points and   *)
(* the coordinate tuples that represent them.                                *)
(* A curve is c = [F, form, a, b, zf]; form "sw" (y^2 = x^3 + a x + b),      *)
(* "te" (a x^2 + y^2 = 1 + b x^2 y^2), "ed" (x^2 + y^2 = a^2(1 + b x^2 y^2)),*)
(* "mg" (b y^2 = x^3 + a x^2 + x).                                           *)
(* The neutral element is <<>> for every form.                               *)
EXTENDS ToyField

O == <<>>
OnCurve(c, x, y) ==
  LET F == c.F IN
  CASE c.form = "sw" -> Sq(F, y) = Plus(F, Times(F, x, Plus(F, Sq(F, x), c.a)), c.b)
    [] c.form = "te" -> Plus(F, Times(F, c.a, Sq(F, x)), Sq(F, y)) = Plus(F, 1, Times(F, c.b, Times(F, Sq(F, x), Sq(F, y))))
    [] c.form = "ed" -> Plus(F, Sq(F, x), Sq(F, y)) = Times(F, Sq(F, c.a), Plus(F, 1, Times(F, c.b, Times(F, Sq(F, x), Sq(F, y)))))
    [] c.form = "mg" -> Times(F, c.b, Sq(F, y)) = Times(F, x, Plus(F, Plus(F, Sq(F, x), Times(F, c.a, x)), 1))
Valid(c) ==
  LET F == c.F IN
  CASE c.form = "sw" -> Plus(F, Times(F, Small(F, 4), Times(F, c.a, Sq(F, c.a))), Times(F, Small(F, 27), Sq(F, c.b))) # 0
    [] c.form = "te" -> c.a # 0 /\ c.b # 0 /\ c.a # c.b /\ IsSq(F, c.a) /\ ~IsSq(F, c.b)      \* complete addition law
    [] c.form = "ed" -> c.a # 0 /\ ~IsSq(F, c.b)
    [] c.form = "mg" -> c.b # 0 /\ Sq(F, c.a) # Small(F, 4)
(* the affine pair that stands for the neutral element, where there is one *)
Neutral(c) == CASE c.form = "te" -> <<0, 1>> [] c.form = "ed" -> <<0, c.a>> [] OTHER -> <<>>
Points(c) ==
  LET XY == {P \in Elems(c.F) \X Elems(c.F) : OnCurve(c, P[1], P[2])}
  IN {O} \union (XY \ {Neutral(c)})

Neg(c, P) == IF P = O THEN O ELSE IF c.form \in {"te", "ed"} THEN <<c.F.neg[P[1]], P[2]>> ELSE <<P[1], c.F.neg[P[2]]>>
Sum(c, P, Q) ==
  LET F == c.F
      XY(R) == IF R = O THEN Neutral(c) ELSE R               \* Edwards forms
      TE == LET x1 == XY(P)[1]  y1 == XY(P)[2]  x2 == XY(Q)[1]  y2 == XY(Q)[2]
                l == Times(F, c.b, Times(F, Times(F, x1, x2), Times(F, y1, y2)))
                k == IF c.form = "te" THEN 1 ELSE c.a
                a == IF c.form = "te" THEN c.a ELSE 1
                x3 == Quot(F, Plus(F, Times(F, x1, y2), Times(F, y1, x2)), Times(F, k, Plus(F, 1, l)))
                y3 == Quot(F, Minus(F, Times(F, y1, y2), Times(F, a, Times(F, x1, x2))), Times(F, k, Minus(F, 1, l)))
            IN IF <<x3, y3>> = Neutral(c) THEN O ELSE <<x3, y3>>
      Chord == LET x1 == P[1]  y1 == P[2]  x2 == Q[1]  y2 == Q[2]
                   x1sq == Sq(F, x1)
                   slope == IF x1 # x2 THEN Quot(F, Minus(F, y2, y1), Minus(F, x2, x1))
                            ELSE IF c.form = "sw"
                            THEN Quot(F, Plus(F, Times(F, Small(F, 3), x1sq), c.a), Times(F, Small(F, 2), y1))
                            ELSE Quot(F, Plus(F, Plus(F, Times(F, Small(F, 3), x1sq), Times(F, Times(F, Small(F, 2), c.a), x1)), 1),
                                      Times(F, Small(F, 2), Times(F, c.b, y1)))
                   x3 == IF c.form = "sw" THEN Minus(F, Minus(F, Sq(F, slope), x1), x2)
                         ELSE Minus(F, Minus(F, Minus(F, Times(F, c.b, Sq(F, slope)), c.a), x1), x2)
               IN <<x3, Minus(F, Times(F, slope, Minus(F, x1, x3)), y1)>>
  IN IF c.form \in {"te", "ed"} THEN TE
     ELSE IF P = O THEN Q ELSE IF Q = O THEN P
     ELSE IF Q = Neg(c, P) THEN O ELSE Chord
Diff(c, P, Q) == Sum(c, P, Neg(c, Q))
Dbl(c, P) == Sum(c, P, P)
RECURSIVE Times_(_, _, _)
Times_(c, k, P) == IF k = 0 THEN O
                   ELSE LET h == Times_(c, k \div 2, P) d == Sum(c, h, h) IN IF k % 2 = 0 THEN d ELSE Sum(c, d, P)

GroupLaws(c) ==
  LET Pts == Points(c) n == Cardinality(Pts) IN
  /\ \A P \in Pts : Sum(c, P, O) = P /\ Sum(c, P, Neg(c, P)) = O /\ Times_(c, n, P) = O
  /\ \A P, Q \in Pts : Sum(c, P, Q) \in Pts /\ Sum(c, P, Q) = Sum(c, Q, P)
Assoc(c) == LET Pts == Points(c) IN \A P, Q, R \in Pts : Sum(c, Sum(c, P, Q), R) = Sum(c, P, Sum(c, Q, R))

----------------------------------------------------------------------------
(* Representation: which coordinate tuples stand for a point.                *)
Coords(c) ==
  LET F == c.F minus3 == F.neg[Small(F, 3)] IN
  CASE c.form = "sw" -> {"projective", "jacobian"}
          \union (IF OnCurve(c, c.zf[1], c.zf[2]) THEN {} ELSE {"affine"})
          \union (IF c.a = 0 THEN {"jacobian_a0"} ELSE {})
          \union (IF c.a = minus3 THEN {"jacobian_a3", "projective_a3"} ELSE {})
    [] c.form = "te" -> {"affine", "inverted"} \union (IF c.a = F.neg[1] THEN {"extended"} ELSE {})
    [] c.form = "ed" -> {"inverted"}
    [] c.form = "mg" -> {"affine"}
UnitSeq(F) == [z \in 1..(F.q - 1) |-> z]
Map(f(_), s) == [i \in 1..Len(s) |-> f(s[i])]
(* tuples a caller may hold for the point P *)
Reps(c, co, P) ==
  LET F == c.F  U == UnitSeq(F)  x == P[1]  y == P[2]
      zero3 == <<c.zf[1], c.zf[2], 0>>
      extra == IF \E i \in 1..Len(U) : <<0, U[i], 0>> = zero3 THEN <<>> ELSE <<zero3>>
  IN
  CASE c.form = "sw" /\ co \in {"projective", "projective_a3"} ->
         IF P = O THEN Map(LAMBDA z : <<0, z, 0>>, U) \o extra ELSE Map(LAMBDA z : <<Times(F, x, z), Times(F, y, z), z>>, U)
    [] c.form = "sw" /\ co \in {"jacobian", "jacobian_a0", "jacobian_a3"} ->
         IF P = O THEN Map(LAMBDA z : <<Sq(F, z), Times(F, z, Sq(F, z)), 0>>, U) \o <<zero3>>
         ELSE Map(LAMBDA z : <<Times(F, x, Sq(F, z)), Times(F, y, Times(F, z, Sq(F, z))), z>>, U)
    [] c.form = "sw" /\ co = "affine" -> IF P = O THEN <<c.zf>> ELSE <<P>>
    [] c.form = "te" /\ co = "affine" -> IF P = O THEN <<<<0, 1>>>> \o (IF c.zf = <<0, 1>> THEN <<>> ELSE <<c.zf>>) ELSE <<P>>
    [] c.form = "te" /\ co = "extended" ->
         LET X == IF P = O THEN 0 ELSE x  Y == IF P = O THEN 1 ELSE y IN
         Map(LAMBDA z : <<Times(F, X, z), Times(F, Y, z), Times(F, Times(F, X, Y), z), z>>, U)
    [] c.form \in {"te", "ed"} /\ co = "inverted" ->
         IF P = O THEN Map(LAMBDA z : <<z, 0, 0>>, U) \o (IF c.zf[2] = 0 THEN << <<0, 0, 0>> >> ELSE <<>>)
         ELSE IF x = 0 \/ y = 0 THEN <<>>
         ELSE Map(LAMBDA z : <<Quot(F, z, x), Quot(F, z, y), z>>, U)
    [] c.form = "mg" -> IF P = O THEN << <<>> >> ELSE <<P>>
(* tuples additionally accepted as an answer that stands for P *)
Accepted(c, co, P) ==
  LET F == c.F E == Elems(F) IN
  CASE P = O /\ co \in {"projective", "projective_a3"} -> << <<0, 0, 0>> >>
    [] P = O /\ co \in {"jacobian", "jacobian_a0", "jacobian_a3"} ->
         [i \in 1..(F.q * F.q) |-> <<(i - 1) \div F.q, (i - 1) % F.q, 0>>]
    [] P = O /\ co = "inverted" -> << <<0, 0, 0>> >>
    [] OTHER -> <<>>
(* tuples about which nothing is claimed: they stand for no point, yet no caller can obtain them *)
Unclaimed(c, co) ==
  LET F == c.F IN
  CASE co = "inverted" -> Map(LAMBDA z : <<0, z, 0>>, UnitSeq(F)) \o << <<0, 0, 0>> >>
    [] co \in {"projective", "projective_a3"} -> << <<0, 0, 0>> >>
    [] co = "extended" -> [i \in 1..(F.q * F.q * F.q) |-> <<(i-1) \div (F.q*F.q), ((i-1) \div F.q) % F.q, (i-1) % F.q, 0>>]
    [] OTHER -> <<>>
(* two points never share a representative; every tuple stands for its point *)
RepLaws(c) ==
  \A co \in Coords(c) :
    LET R(P) == {Reps(c, co, P)[i] : i \in 1..Len(Reps(c, co, P))} Pts == Points(c)
    IN \A P, Q \in Pts : P # Q => R(P) \intersect R(Q) = {}
(* multiples of P that the coordinate system can express *)
Expressible(c, co, P) ==
  co # "inverted" \/ \A k \in 0..Cardinality(Points(c)) : Len(Reps(c, co, Times_(c, k, P))) > 0

----------------------------------------------------------------------------
(* The birational map between a twisted Edwards curve (a, d) and the         *)
(* Montgomery curve A = 2(a+d)/(a-d), B = 4/((a-d) s^2).                     *)
MontA(c) == LET F == c.F IN Quot(F, Times(F, Small(F, 2), Plus(F, c.a, c.b)), Minus(F, c.a, c.b))
MontB(c) == LET F == c.F IN Quot(F, Small(F, 4), Minus(F, c.a, c.b))
ToMont(c, s, P) ==                     \* u = (1+y)/(1-y), v = s * u / x
  LET F == c.F u == Quot(F, Plus(F, 1, P[2]), Minus(F, 1, P[2])) IN <<u, Times(F, s, Quot(F, u, P[1]))>>
=============================================================================
