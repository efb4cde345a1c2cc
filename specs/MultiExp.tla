------------------------------ MODULE MultiExp ------------------------------
(* Multi-exponentiation in the cyclic group Z_N.  A user collects terms      *)
(* k * g; at every length the sum is what each of the library's methods has  *)
(* to return.  The subtractive reduction at the heart of the fast method is  *)
(* part of the model: from any collection, any order of "x A + y B =>        *)
(* (x - y) A + y (A + B)" and "add x A directly" steps keeps the sum and     *)
(* ends with it.  "Windows" is the fixed-base machine: digits of the scalar  *)
(* in base 2^w select table rows.                                            *)
EXTENDS Naturals, Sequences, TLC, CSV, IOUtils
CONSTANTS N, MaxLen,       \* group order (prime); sums of up to MaxLen terms
          AlgoLen,         \* the reduction is explored for collections of up to this length
          Bits             \* fixed-base scalars of 1..Bits bits
VARIABLES terms, work, res, pc
vars == <<terms, work, res, pc>>
ToS(x) == ToString(x)
Key == "zn" \o ToS(N)
Emit(op, p, a, r) == CSVWrite("%1$s", <<ToString(<<op, p, a, r>>)>>, IOEnv.OUT)

RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE (s[1][1] * s[1][2] + Sum(Tail(s))) % N
Ks(s) == [i \in 1..Len(s) |-> s[i][1]]
Gs(s) == [i \in 1..Len(s) |-> s[i][2]]

Init == terms = <<>> /\ work = <<>> /\ res = 0 /\ pc = "windows"
Term == pc = "collect" /\ Len(terms) < MaxLen
        /\ \E k, g \in 0..(N - 1) : terms' = Append(terms, <<k, g>>)
        /\ Emit("sum", <<Key>>, <<Ks(terms'), Gs(terms')>>, Sum(terms'))
        /\ UNCHANGED <<work, res, pc>>
Reduce == pc = "collect" /\ 0 < Len(terms) /\ Len(terms) <= AlgoLen /\ work' = terms /\ res' = 0 /\ pc' = "reduce" /\ UNCHANGED terms
Subtract == pc = "reduce" /\ \E i, j \in 1..Len(work) :
              /\ i # j /\ work[j][1] > 0 /\ work[i][1] >= work[j][1]
              /\ work' = [work EXCEPT ![i] = <<work[i][1] - work[j][1], work[i][2]>>, ![j] = <<work[j][1], (work[i][2] + work[j][2]) % N>>]
              /\ UNCHANGED <<terms, res, pc>>
Direct == pc = "reduce" /\ \E i \in 1..Len(work) :
              /\ work[i][1] > 0 /\ res' = (res + work[i][1] * work[i][2]) % N
              /\ work' = [work EXCEPT ![i] = <<0, work[i][2]>>] /\ UNCHANGED <<terms, pc>>
Finish == pc = "reduce" /\ (\A i \in 1..Len(work) : work[i][1] = 0) /\ pc' = "done" /\ UNCHANGED <<terms, work, res>>

(* ---------------------------------------------------------------- windows *)
Digit(k, w, o) == (k \div 2^(w * o)) % 2^w
RECURSIVE Rows(_, _, _, _)              \* sum over the rows o.. of digit * 2^(w o) g
Rows(k, w, g, o) == IF 2^(w * o) > k THEN 0 ELSE (Digit(k, w, o) * ((2^(w * o)) % N) * g + Rows(k, w, g, o + 1)) % N
Scalars(b) == {k \in 0..(N - 1) : k < 2^b}
RECURSIVE Up(_, _)
Up(b, k) == IF k \notin Scalars(b) THEN <<>> ELSE <<k>> \o Up(b, k + 1)
Windows ==
  /\ pc = "windows" /\ pc' = "collect" /\ UNCHANGED <<terms, work, res>>
  /\ \A b \in 1..Bits : \A w \in 1..(b + 1) : \A g \in 0..(N - 1) :
       LET s == Up(b, 0)
           Ok(c) == \A i \in 1..Len(s) : (c * s[i]) % N < 2^b
       IN \A c \in {x \in 0..(N - 1) : Ok(x)} :
            Emit("win", <<Key>>, <<b, w, g, c, s>>, <<[i \in 1..Len(s) |-> (s[i] * g) % N], [i \in 1..Len(s) |-> (((c * s[i]) % N) * g) % N]>>)
  (* which window the table of thresholds prescribes for a batch size *)
  /\ \A n \in 0..70 : Emit("size", <<Key>>, <<n>>, LET T == <<1, 5, 11, 0, 55, 0>>
                                                       ok == {i \in 1..Len(T) : T[i] # 0 /\ n >= T[i]}
                                                   IN IF ok = {} THEN 1 ELSE CHOOSE i \in ok : \A j \in ok : j <= i)

Next == Term \/ Reduce \/ Subtract \/ Direct \/ Finish \/ Windows
Spec == Init /\ [][Next]_vars
(* the sum is conserved by every step of the reduction, and is what is left at the end *)
Conserved == pc \in {"reduce", "done"} => (res + Sum(work)) % N = Sum(terms)
Result == pc = "done" => res = Sum(terms)
Digits == \A k \in 0..(N - 1) : \A w \in 1..3 : Rows(k, w, 1, 0) = k % N
=============================================================================
