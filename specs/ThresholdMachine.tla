--------------------------- MODULE ThresholdMachine ---------------------------
(* What elimination takes for zero.  An entry is a + b * eps / 4, written     *)
(* <<a, b>>.  The documented tolerance is max(rows, columns) * eps times the  *)
(* largest row sum of magnitudes; an entry at most that counts as zero and a  *)
(* larger one does not, in the rank and in the row-reduced form alike.  A     *)
(* matrix is grown entry by entry: u equal rows of k ones, and one row whose  *)
(* only entry is tiny, so that no step of the elimination rounds.             *)
EXTENDS LinAlg
CONSTANTS Shapes       \* <<rows, columns>>
VARIABLES x, k, u, row, col, c, done
vars == <<x, k, u, row, col, c, done>>
NR == Len(x)  NC == Len(x[1])
Blank(s) == [a \in 1..s[1] |-> [b \in 1..s[2] |-> <<0, 0>>]]
Init == /\ \E s \in Shapes : x = Blank(s)
        /\ k = 0 /\ u = 0 /\ row = 0 /\ col = 0 /\ c = 0 /\ done = FALSE
Ones == /\ u = 0
        /\ \E kk \in 1..NC : \E uu \in 1..(NR - 1) : \E sg \in {1, -1} :
             /\ k' = kk /\ u' = uu
             /\ x' = [a \in 1..NR |-> [b \in 1..NC |-> IF a <= uu /\ b <= kk THEN <<sg, 0>> ELSE <<0, 0>>]]
        /\ UNCHANGED <<row, col, c, done>>
RowSum(y, a) == LET t[b \in 0..Len(y[1])] == IF b = 0 THEN 0 ELSE t[b - 1] + Abs(y[a][b][1]) IN t[Len(y[1])]
Norm(y) == CHOOSE n \in {RowSum(y, a) : a \in 1..Len(y)} : \A a \in 1..Len(y) : RowSum(y, a) <= n
Tol(y) == 4 * MaxI(Len(y), Len(y[1])) * Norm(y)                       \* quarters of eps
Tiny == /\ u > 0 /\ row = 0
        /\ \E a \in (u + 1)..NR : \E b \in 2..NC :
           \E d \in {1, -1, 4 * NR - 1, 4 * NC - 1, 4 * NC + 1, 4 * NR + 1, 4 * NC * k + 1, 4 * NR * k + 1,
                     4 * NC * k - 1, 4 * NR * k - 1, Tol(x) - 1, Tol(x) + 1, 1 - Tol(x), -1 - Tol(x), 2 * Tol(x), 5 * Tol(x)} :
             /\ row' = a /\ col' = b /\ c' = d
             /\ x' = [x EXCEPT ![a][b] = <<0, d>>]
        /\ UNCHANGED <<k, u, done>>
Kept == Abs(c) > Tol(x)
Expected == IF Kept THEN 2 ELSE 1
Reduced ==
  [a \in 1..NR |-> [b \in 1..NC |->
     IF a = 1 THEN (IF b <= k /\ ~(Kept /\ b = col) THEN 1 ELSE 0)
     ELSE IF a = 2 /\ Kept /\ b = col THEN 1 ELSE 0]]
Ask == /\ row > 0 /\ ~done /\ done' = TRUE
       /\ Emit("tiny", <<>>, <<x>>, <<Expected, Reduced>>)
       /\ UNCHANGED <<x, k, u, row, col, c>>
Next == Ones \/ Tiny \/ Ask
Spec == Init /\ [][Next]_vars
(* the integer matrix with what counts as zero taken out and what does not made 1 has that rank *)
Cleaned == [a \in 1..NR |-> [b \in 1..NC |-> IF x[a][b][2] = 0 THEN x[a][b][1] ELSE IF Abs(x[a][b][2]) > Tol(x) THEN 1 ELSE 0]]
Laws == row > 0 => /\ Rank(Cleaned) = Expected
                   /\ Rank(Reduced) = Expected
                   /\ Rank([a \in 1..(2 * NR) |-> IF a <= NR THEN Cleaned[a] ELSE Reduced[a - NR]]) = Expected    \* same row space
==============================================================================
