----------------------------- MODULE ElimMachine ----------------------------
(* Gauss-Jordan elimination as a state machine over exact rationals, one     *)
(* action per step of the algorithm (choose pivot and exchange, scale the    *)
(* pivot row, clear the column, skip a zero column, stop).  The invariants   *)
(* say what makes it correct - det(m0) is always the accumulated factor      *)
(* times det(m), the row space never changes - and the final state must agree*)
(* with the declarative determinant, rank, adjugate and reduced form.  On    *)
(* termination the exact results are exported and replayed on the library.   *)
EXTENDS LinAlg
CONSTANTS Family,      \* set of <<rows, cols, lo, hi>> enumerated exhaustively
          RandSet,     \* set of <<rows, cols, lo, hi, keys>> pseudo-random matrices
          Extra,       \* set of explicitly given matrices
          DetCheck     \* evaluate the expensive step invariants
VARIABLES m0,          \* the input (integers)
          m,           \* current matrix, entries <<num, den>>
          i, j,        \* pivot position
          fac,         \* accumulated factor: det(m0) = fac * det(m)
          rk, pc       \* rank so far; program counter
vars == <<m0, m, i, j, fac, rk, pc>>

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN Abs(a) ELSE Gcd(b, a % Abs(b))
Q(a, b) == LET g == Gcd(a, b) IN IF g = 0 THEN <<0, 1>>
           ELSE IF b < 0 THEN <<-(a \div g), -(b \div g)>> ELSE <<a \div g, b \div g>>
QAdd(x, y) == Q(x[1] * y[2] + y[1] * x[2], x[2] * y[2])
QMul(x, y) == Q(x[1] * y[1], x[2] * y[2])
QNeg(x) == <<-x[1], x[2]>>
QSub(x, y) == QAdd(x, QNeg(y))
QDiv(x, y) == Q(x[1] * y[2], x[2] * y[1])
QAbsLt(x, y) == Abs(x[1]) * y[2] < Abs(y[1]) * x[2]
Q0 == <<0, 1>>
Q1 == <<1, 1>>
NR == Len(m0)
NC == Len(m0[1])

Start(x) == /\ m0 = x
            /\ m = [a \in 1..Len(x) |-> [b \in 1..Len(x[1]) |-> Q(x[a][b], 1)]]
            /\ i = 1 /\ j = 1 /\ fac = Q1 /\ rk = 0 /\ pc = "pivot"
RandM(f, k) == [a \in 1..f[1] |-> [b \in 1..f[2] |-> Pick(k, 13 * a + b, f[3], f[4])]]
RankDef(f, k) == \* last row a combination of the others: rank deficient on purpose
   LET x == RandM(f, k) IN
   [a \in 1..f[1] |-> IF a < f[1] \/ f[1] = 1 THEN x[a]
        ELSE [b \in 1..f[2] |-> x[1][b] + (IF f[1] > 2 THEN Pick(k, 777, -1, 1) * x[2][b] ELSE 0)]]
Init == \/ \E f \in Family : \E x \in [1..f[1] -> [1..f[2] -> f[3]..f[4]]] : Start(x)
        \/ \E f \in RandSet : \E k \in f[5] : Start(RandM(f, k)) \/ Start(RankDef(f, k))
        \/ \E x \in Extra : Start(x)

\* choose the largest entry at or below (i, j) in column j and bring it up
Best == CHOOSE a \in i..NR : \A b \in i..NR : ~QAbsLt(m[a][j], m[b][j])
Pivot == /\ pc = "pivot" /\ i <= NR /\ j <= NC
         /\ IF m[Best][j] = Q0
            THEN /\ j' = j + 1 /\ UNCHANGED <<m, i, fac, rk, pc>>
            ELSE /\ m' = [m EXCEPT ![i] = m[Best], ![Best] = m[i]]
                 /\ fac' = IF Best = i THEN fac ELSE QNeg(fac)
                 /\ pc' = "scale" /\ UNCHANGED <<i, j, rk>>
         /\ UNCHANGED m0
Scale == /\ pc = "scale"
         /\ LET d == m[i][j] IN /\ m' = [m EXCEPT ![i] = [b \in 1..NC |-> QDiv(@[b], d)]]
                                /\ fac' = QMul(fac, d)
         /\ pc' = "clear" /\ UNCHANGED <<m0, i, j, rk>>
Clear == /\ pc = "clear"
         /\ m' = [a \in 1..NR |-> IF a = i \/ m[a][j] = Q0 THEN m[a]
                                  ELSE [b \in 1..NC |-> QSub(m[a][b], QMul(m[a][j], m[i][b]))]]
         /\ rk' = rk + 1 /\ i' = i + 1 /\ j' = j + 1 /\ pc' = "pivot"
         /\ UNCHANGED <<m0, fac>>
ResDet == IF rk = NR THEN fac ELSE Q0
\* The rank of a singular matrix is a question about exact zeros: it is asked of the floating-point
\* code only where rounding cannot blur it (full rank, or entries of at most 2 in absolute value).
Robust == \/ rk = MinI(NR, NC)
          \/ \A a \in 1..NR, b \in 1..NC : Abs(m0[a][b]) <= 2
Stop == /\ pc = "pivot" /\ (i > NR \/ j > NC)
        /\ pc' = "done" /\ UNCHANGED <<m0, m, i, j, fac, rk>>
        /\ (Robust => Emit("rank", <<>>, <<m0>>, rk) /\ Emit("rref", <<>>, <<m0>>, m))
        /\ (NR = NC => /\ Emit("det", <<>>, <<m0>>, ResDet[1])
                       /\ (rk = NR => Emit("inverse", <<>>, <<m0>>, <<ResDet[1], Adj(m0)>>))
                       /\ (rk < NR /\ Robust => Emit("noinverse", <<>>, <<m0>>, 0)))
Next == Pivot \/ Scale \/ Clear \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

RECURSIVE QDet(_), QDetE(_, _)
QDet(x) == IF Len(x) = 1 THEN x[1][1] ELSE QDetE(x, Len(x))
QDetE(x, b) == IF b = 0 THEN Q0
               ELSE QAdd(QDetE(x, b - 1),
                         IF x[1][b] = Q0 THEN Q0
                         ELSE QMul(IF b % 2 = 1 THEN x[1][b] ELSE QNeg(x[1][b]), QDet(Minor(x, 1, b))))

\* the accumulated factor always explains the determinant of the input
DetInvariant == (DetCheck /\ NR = NC) => QMul(fac, QDet(m)) = Q(Det(m0), 1)
\* columns left of j are already in reduced form on the rows above i
Reduced == \A a \in 1..(i - 1) : \E b \in 1..NC :
              /\ m[a][b] = Q1 /\ \A c \in 1..(b - 1) : m[a][c] = Q0
              /\ \A d \in 1..NR : (d # a /\ pc # "scale" /\ pc # "clear") => m[d][b] = Q0
\* what the user relies on, against the declarative definitions
Correct == pc = "done" =>
   /\ rk = Rank(m0)
   /\ NR = NC => ResDet = Q(Det(m0), 1)
   /\ NR = NC => IMul(m0, Adj(m0)) = [a \in 1..NR |-> [b \in 1..NR |-> IF a = b THEN Det(m0) ELSE 0]]
   /\ NR = NC => IMul(Adj(m0), m0) = [a \in 1..NR |-> [b \in 1..NR |-> IF a = b THEN Det(m0) ELSE 0]]
   \* every input row is the combination of reduced rows named by its pivot entries: same row space
   /\ \A a \in 1..NR :
        LET piv(r) == CHOOSE b \in 1..NC : m[r][b] = Q1 /\ \A c \in 1..(b - 1) : m[r][c] = Q0
            S[r \in 0..rk] == [b \in 1..NC |-> IF r = 0 THEN Q0
                                ELSE QAdd(S[r - 1][b], QMul(Q(m0[a][piv(r)], 1), m[r][b]))]
        IN S[rk] = [b \in 1..NC |-> Q(m0[a][b], 1)]
   /\ \A a \in (rk + 1)..NR : \A b \in 1..NC : m[a][b] = Q0
Terminates == <>(pc = "done")
==============================================================================
