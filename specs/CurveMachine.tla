---------------------------- MODULE CurveMachine ----------------------------
(* A user computing in the group of points of a curve.  Every behaviour is   *)
(* confined to one curve: it first learns the representations of the points  *)
(* ("describe"), then either walks through the group ("walk": the            *)
(* accumulator is moved by additions, subtractions, negations, doublings,    *)
(* conversions) or accumulates k copies of a base point ("count").           *)
(* Each step is exported at the level of points; the replay tries it on      *)
(* every tuple of coordinates that represents the points.                    *)
EXTENDS CurveGroup, CSV, IOUtils, Functions, SequencesExt
CONSTANTS FieldSpecs,    \* sequence of <<p, d, nr>>
          Forms,         \* subset of {"sw", "te", "ed", "mg"}
          ZFs,           \* tuples the library may use for the neutral element
          Stride, Phase, \* of the valid curves, every Stride-th (offset Phase) is explored
          Deep,          \* fields with at most this many elements: associativity is checked too
          Acts           \* subset of {"walk", "count"}
VARIABLES cfg, mode, base, k, acc
vars == <<cfg, mode, base, k, acc>>

ASSUME TLCSet(17, [i \in 1..Len(FieldSpecs) |-> MkField(FieldSpecs[i][1], FieldSpecs[i][2], FieldSpecs[i][3])])
Fields == TLCGet(17)
Cv(g) == [F |-> Fields[g.f], form |-> g.form, a |-> g.a, b |-> g.b, zf |-> g.zf]
Chosen(g) == LET F == Fields[g.f] IN
  \/ (g.a * 7 + g.b * 3 + g.f + g.zf[2] + (IF g.form = "te" THEN g.a + 1 - F.neg[1] ELSE 0)) % Stride = Phase % Stride
  \/ g.form = "sw" /\ (g.a = 0 \/ g.a = F.neg[Small(F, 3)]) /\ (g.b + g.zf[2]) % (1 + Stride \div 4) = Phase % (1 + Stride \div 4)
  \/ g.form = "te" /\ g.a = F.neg[1]
Configs == TLCEval(UNION {{g \in [f : {i}, form : Forms, a : Elems(Fields[i]), b : Elems(Fields[i]), zf : ZFs] :
                    Valid(Cv(g)) /\ Chosen(g) /\ (g.form \in {"mg", "ed"} => g.zf = <<0, 0>>)} : i \in 1..Len(FieldSpecs)})
N(x) == ToString(x)
Key(g) == g.form \o "_" \o N(Fields[g.f].p) \o "_" \o N(Fields[g.f].d) \o "_" \o N(g.a) \o "_" \o N(g.b) \o "_" \o N(g.zf[2])
Emit(op, p, a, r) == CSVWrite("%1$s", <<ToString(<<op, p, a, r>>)>>, IOEnv.OUT)

c == Cv(cfg)
key == Key(cfg)
Pts == Points(c)

Init == cfg \in Configs /\ mode = "describe" /\ base = O /\ k = 0 /\ acc = O

RECURSIVE Rows(_, _, _, _)                    \* (in short lines: concurrent writers must not interleave)
Rows(kind, co, P, s) == IF Len(s) = 0 THEN TRUE
                        ELSE IF Len(s) <= 100 THEN Emit("rep", <<key, co, kind>>, P, s)
                        ELSE Emit("rep", <<key, co, kind>>, P, SubSeq(s, 1, 100)) /\ Rows(kind, co, P, SubSeq(s, 101, Len(s)))
Describe ==
  /\ mode = "describe"
  /\ \A co \in Coords(c) :
       /\ \A P \in Pts : Rows("in", co, P, Reps(c, co, P)) /\ Rows("out", co, P, Accepted(c, co, P))
       /\ Rows("any", co, O, Unclaimed(c, co))
  /\ mode' \in Acts /\ UNCHANGED <<cfg, k>>
  /\ base' \in (IF mode' = "count" THEN Pts ELSE {O}) /\ acc' = O

W == mode = "walk" /\ UNCHANGED <<cfg, mode, base, k>>
Add == W /\ \E Q \in Pts : Emit("add", <<key>>, <<acc, Q>>, Sum(c, acc, Q)) /\ acc' = Sum(c, acc, Q)
Sub == W /\ \E Q \in Pts : Emit("sub", <<key>>, <<acc, Q>>, Diff(c, acc, Q)) /\ acc' = Diff(c, acc, Q)
NegA == W /\ Emit("neg", <<key>>, <<acc>>, Neg(c, acc)) /\ acc' = Neg(c, acc)
DblA == W /\ Emit("dbl", <<key>>, <<acc>>, Dbl(c, acc)) /\ acc' = Dbl(c, acc)
Conv == W /\ Emit("conv", <<key>>, <<acc>>, acc) /\ acc' = acc
(* to the Montgomery curve and back: for every curve A, B = MontB / s^2      *)
Mont == W /\ c.form = "te" /\ acc # <<0, c.F.neg[1]>> /\ acc' = acc
          /\ \A s \in {u \in Units(c.F) : u <= c.F.neg[u]} :
               LET q == Quot(c.F, MontB(c), Sq(c.F, s)) IN
               Emit("mont", <<key, MontA(c), q>>, <<acc>>,
                    IF acc = O THEN <<O, O>> ELSE <<ToMont(c, s, acc), ToMont(c, c.F.neg[s], acc)>>)

Order == Cardinality(Pts)
Count == /\ mode = "count" /\ k <= 2 * Order + 3
         /\ Emit("mul", <<key, k, SetToSeq({co \in Coords(c) : Expressible(c, co, base)})>>, <<base>>, acc)
         /\ acc' = Sum(c, acc, base) /\ k' = k + 1 /\ UNCHANGED <<cfg, mode, base>>

Next == Describe \/ Add \/ Sub \/ NegA \/ DblA \/ Conv \/ Mont \/ Count
Spec == Init /\ [][Next]_vars

Closure == acc \in Pts
Linear == mode = "count" => acc = Times_(c, k, base)
Laws == mode = "describe" =>
          /\ GroupLaws(c) /\ RepLaws(c)
          /\ c.F.q <= Deep => Assoc(c) /\ FieldLaws(c.F)
(* Hasse's bound holds for the number of points *)
Hasse == mode = "describe" => LET t == Order - c.F.q - 1 IN t * t <= 4 * c.F.q
(* the Montgomery map is a homomorphism into the Montgomery curve *)
MontHom == (mode = "describe" /\ c.form = "te") =>
  LET s == 1  m == [F |-> c.F, form |-> "mg", a |-> MontA(c), b |-> MontB(c), zf |-> <<0, 0>>]
      D == {P \in Pts : P # O /\ P # <<0, c.F.neg[1]>>}
  IN Valid(m) /\ \A P \in D : OnCurve(m, ToMont(c, s, P)[1], ToMont(c, s, P)[2]) /\
       \A Q \in D : Sum(c, P, Q) \in D => ToMont(c, s, Sum(c, P, Q)) = Sum(m, ToMont(c, s, P), ToMont(c, s, Q))
=============================================================================
