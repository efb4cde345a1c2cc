---------------------------- MODULE PrimeMachine ----------------------------
(* Primes, factors and coprimes straight from their definitions: a prime has  *)
(* no divisor but one and itself, coprime numbers share none.  TLC visits      *)
(* every number up to Upto, every product that can be built from the given     *)
(* primes below Cap, and walks along the primes of arithmetic progressions.    *)
EXTENDS LinAlg
CONSTANTS Upto, ListUpto, Primes, Cap, Depth, BitSet, StepSet
VARIABLES mode,        \* "all": the number n itself; "product": n built by multiplication; "walk": q along q mod m
          n, fs, phi,  \* the number, its prime factors, its totient as the product formula gives it
          m, h
vars == <<mode, n, fs, phi, m, h>>

Divides(d, x) == x % d = 0
IsPrime(x) == x > 1 /\ \A d \in 2..x : d * d > x \/ ~Divides(d, x)
\* the same with the search cut at the square root, which is all a 32-bit evaluator affords
RECURSIVE RootIn(_, _, _)
RootIn(x, lo, hi) == IF lo + 1 >= hi THEN lo ELSE LET c == (lo + hi) \div 2 IN IF c * c <= x THEN RootIn(x, c, hi) ELSE RootIn(x, lo, c)
Prime(x) == x > 1 /\ \A d \in 2..RootIn(x, 1, 32768) : ~Divides(d, x)
Factors(x) == {d \in 2..x : Divides(d, x) /\ Prime(d)}
Coprime(a, b) == \A d \in 2..a : ~(Divides(d, a) /\ Divides(d, b))
RECURSIVE GcdOf(_, _)
GcdOf(a, b) == IF b = 0 THEN a ELSE GcdOf(b, a % b)
Coprimes(x) == {k \in 1..x : GcdOf(k, x) = 1}
RECURSIVE Asc(_, _)
Asc(S, k) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : \A z \in S : y <= z IN <<x>> \o Asc(S \ {x}, k + 1)
AscTo(x) == SelectSeq([i \in 1..x |-> i], LAMBDA k : GcdOf(k, x) = 1)
RECURSIVE Up(_, _), Down(_, _)
Up(x, s) == IF Prime(x) THEN x ELSE Up(x + s, s)                     \* the first prime of x, x+s, x+2s, ...
Down(x, s) == IF x < 2 THEN 0 ELSE IF Prime(x) THEN x ELSE Down(x - s, s)
OneMod(x, s) == IF (x % s) = (1 % s) THEN x ELSE x + ((s + 1 - (x % s)) % s)  \* the first number from x on that leaves 1 modulo s

Init ==
  /\ h = 0 /\ fs = {} /\ phi = 1
  /\ \/ mode = "all" /\ m = 1 /\ n \in 1..Upto
     \/ mode = "product" /\ m = 1 /\ n = 1
     \/ mode = "walk" /\ m \in StepSet /\ n = 0

Go == h < Depth /\ h' = h + 1 /\ UNCHANGED mode
All == /\ mode = "all" /\ h = 0 /\ Go /\ UNCHANGED <<n, m>>
       /\ fs' = Factors(n) /\ phi' = Cardinality(Coprimes(n))
       /\ Emit("factors", <<>>, n, Asc(fs', 0)) /\ Emit("totient", <<>>, n, phi')
       /\ n > ListUpto \/ Emit("coprimes", <<>>, n, AscTo(n))
Product == /\ mode = "product" /\ Go /\ UNCHANGED m
           /\ \E p \in Primes :
                /\ n <= Cap \div p
                /\ n' = n * p /\ fs' = fs \cup {p}
                /\ phi' = phi * (IF p \in fs THEN p ELSE p - 1)
                /\ Emit("factors", <<>>, n', Asc(fs', 0)) /\ Emit("totient", <<>>, n', phi')
                /\ Emit("divisor", <<>>, n', Asc(fs', 0))
Walk == /\ mode = "walk" /\ Go /\ UNCHANGED <<fs, phi>>
        /\ \/ n = 0 /\ UNCHANGED m /\ \E b \in BitSet :
                /\ n' = Up(OneMod(2 ^ b + 1, m), m)
                /\ Emit("first", <<b, m>>, b, n')
           \/ n > 0 /\ UNCHANGED m /\ GcdOf(n, m) = 1 /\ n < 2 ^ 20 /\ n' = Up(n + m, m) /\ Emit("next", <<m>>, n, n')
           \/ n > 0 /\ UNCHANGED m /\ Down(n - m, m) /= 0 /\ n' = Down(n - m, m) /\ Emit("previous", <<m>>, n, n')
           \/ n > 0 /\ UNCHANGED n /\ m' \in StepSet \ {m}
Next == All \/ Product \/ Walk
Spec == Init /\ [][Next]_vars

Laws ==
  /\ mode = "all" /\ h = 1 => /\ n < 400 => \A d \in fs : IsPrime(d)
                              /\ n < 120 => Coprimes(n) = {k \in 1..n : Coprime(k, n)}
  /\ mode = "product" => /\ \A p \in fs : Prime(p) /\ Divides(p, n)
                         /\ n <= Upto => fs = Factors(n) /\ phi = Cardinality(Coprimes(n))
  /\ mode = "walk" /\ n > 0 => Prime(n)
==============================================================================
