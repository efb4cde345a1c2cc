------------------------------ MODULE ToyField ------------------------------
(* Finite fields small enough to enumerate: F_{p^d} = F_p[t]/(t^d - nr).     *)
(* An element is the integer whose base-p digits are its coefficients        *)
(* (constant term first); the operations are looked up in tables computed    *)
(* once from the polynomial definition.                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
Digit(p, x, i) == (x \div Pow(p, i)) % p                 \* i = 0, 1, ...
RECURSIVE SumF(_, _)
SumF(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumF(f, S \ {x})
FromDigits(p, d, f) == SumF([i \in 0..(d-1) |-> f[i] * Pow(p, i)], 0..(d-1))

MulDef(p, d, nr, x, y) ==
  LET X == [i \in 0..(d-1) |-> Digit(p, x, i)]
      Y == [i \in 0..(d-1) |-> Digit(p, y, i)]
      Coef(k) == SumF([i \in 0..(d-1) |-> IF i <= k THEN X[i] * Y[k-i] ELSE nr * X[i] * Y[k+d-i]], 0..(d-1)) % p
  IN FromDigits(p, d, [k \in 0..(d-1) |-> Coef(k)])
AddDef(p, d, x, y) == FromDigits(p, d, [i \in 0..(d-1) |-> (Digit(p, x, i) + Digit(p, y, i)) % p])

MkField(p, d, nr) ==
  LET q == Pow(p, d)
      E == 0..(q-1)
      mul == IF d = 1 THEN [x \in E |-> [y \in E |-> (x * y) % p]]
             ELSE [x \in E |-> [y \in E |-> MulDef(p, d, nr, x, y)]]
      add == IF d = 1 THEN [x \in E |-> [y \in E |-> (x + y) % p]]
             ELSE [x \in E |-> [y \in E |-> AddDef(p, d, x, y)]]
  IN TLCEval([p |-> p, d |-> d, nr |-> nr, q |-> q, mul |-> TLCEval(mul), add |-> TLCEval(add),
      neg |-> TLCEval([x \in E |-> CHOOSE y \in E : add[x][y] = 0]),
      inv |-> TLCEval([x \in E |-> IF x = 0 THEN 0 ELSE CHOOSE y \in E : mul[x][y] = 1])])

Elems(F) == 0..(F.q - 1)
Units(F) == 1..(F.q - 1)
Plus(F, x, y) == F.add[x][y]
Minus(F, x, y) == F.add[x][F.neg[y]]
Times(F, x, y) == F.mul[x][y]
Sq(F, x) == F.mul[x][x]
Quot(F, x, y) == F.mul[x][F.inv[y]]
Small(F, n) == n % F.p
RECURSIVE PowF(_, _, _)
PowF(F, x, e) == IF e = 0 THEN 1 ELSE IF e % 2 = 0 THEN PowF(F, Sq(F, x), e \div 2) ELSE Times(F, x, PowF(F, Sq(F, x), e \div 2))
IsSq(F, x) == \E y \in Elems(F) : Sq(F, y) = x

FieldLaws(F) ==
  /\ \A x, y \in Elems(F) : Plus(F, x, y) = Plus(F, y, x) /\ Times(F, x, y) = Times(F, y, x)
  /\ \A x \in Elems(F) : Plus(F, x, 0) = x /\ Times(F, x, 1) = x /\ Plus(F, x, F.neg[x]) = 0
  /\ \A x \in Units(F) : Times(F, x, F.inv[x]) = 1 /\ PowF(F, x, F.q - 1) = 1
  /\ \A x, y \in Elems(F) : \A z \in {1, 2, F.q - 1, F.p % F.q, x} :
       /\ Times(F, x, Plus(F, y, z)) = Plus(F, Times(F, x, y), Times(F, x, z))
       /\ Times(F, x, Times(F, y, z)) = Times(F, Times(F, x, y), z)
       /\ Plus(F, x, Plus(F, y, z)) = Plus(F, Plus(F, x, y), z)
=============================================================================
