------------------------------- MODULE Tower -------------------------------
(* Towers of finite fields.  A tower is [p, degs, nrs]: level 0 is F_p, level *)
(* k is (level k-1)[X]/(X^degs[k] - nrs[k]).  An element of level k is the    *)
(* sequence of its prime-field coefficients, the blocks of level k-1 one      *)
(* after the other, constant block first.  Everything below is polynomial     *)
(* arithmetic read off that definition: no shortcuts.                         *)
EXTENDS Integers, Sequences, TLC

RECURSIVE Prod(_)
Prod(s) == IF Len(s) = 0 THEN 1 ELSE Head(s) * Prod(Tail(s))
Height(T) == Len(T.degs)
Dim(T, k) == Prod(SubSeq(T.degs, 1, k))
Deg(T) == Dim(T, Height(T))

AddS(T, x, y) == [i \in 1..Len(x) |-> (x[i] + y[i]) % T.p]
NegS(T, x) == [i \in 1..Len(x) |-> (T.p - x[i]) % T.p]
SubS(T, x, y) == [i \in 1..Len(x) |-> (x[i] + T.p - y[i]) % T.p]
ZeroS(n) == [i \in 1..n |-> 0]
OneS(n) == [i \in 1..n |-> IF i = 1 THEN 1 ELSE 0]
Block(x, d, i) == SubSeq(x, i * d + 1, (i + 1) * d)            \* i = 0, 1, ...

(* The product of two basis monomials follows from the definition of the top  *)
(* level: exponents add, and X^deg is replaced by nr (one product below).     *)
(* terms[m] lists the <<i, j, c>> with coefficient m of x*y = SUM c x[i] y[j]. *)
RECURSIVE Acc(_, _, _, _)
Acc(t, x, y, n) == IF n = 0 THEN 0 ELSE Acc(t, x, y, n - 1) + t[n][3] * x[t[n][1]] * y[t[n][2]]
MulT(p, terms, x, y) == TLCEval([m \in DOMAIN terms |-> Acc(terms[m], x, y, Len(terms[m])) % p])
RECURSIVE Terms(_, _)
Terms(T, k) ==
  IF k = 0 THEN << << <<1, 1, 1>> >> >>
  ELSE LET n == T.degs[k]
           d == Dim(T, k - 1)
           low == TLCEval(Terms(T, k - 1))
           E(i) == [m \in 1..d |-> IF m = i THEN 1 ELSE 0]
           \* (e_i X^a)(e_j X^b), i, j in 1..d
           Prod2 == TLCEval([i \in 1..d |-> [j \in 1..d |-> TLCEval(MulT(T.p, low, E(i), E(j)))]])
           Red == TLCEval([i \in 1..d |-> [j \in 1..d |-> TLCEval(MulT(T.p, low, T.nrs[k], Prod2[i][j]))]])
           Cf(I, J, m) == LET a == (I - 1) \div d  b == (J - 1) \div d  i == ((I - 1) % d) + 1  j == ((J - 1) % d) + 1
                              c == (m - 1) \div d  r == ((m - 1) % d) + 1
                          IN IF a + b = c THEN Prod2[i][j][r] ELSE IF a + b = c + n THEN Red[i][j][r] ELSE 0
           All(m) == [t \in 1..(n * d * n * d) |-> LET I == (t - 1) \div (n * d) + 1  J == ((t - 1) % (n * d)) + 1 IN <<I, J, Cf(I, J, m)>>]
       IN TLCEval([m \in 1..(n * d) |-> SelectSeq(All(m), LAMBDA t : t[3] # 0)])
(* a tower with its table *)
Mk(p, degs, nrs) == LET T == [p |-> p, degs |-> degs, nrs |-> nrs] IN
                    TLCEval([p |-> p, degs |-> degs, nrs |-> nrs, terms |-> [k \in 1..Len(degs) |-> Terms(T, k)]])

TimesK(T, k, x, y) == IF k = 0 THEN <<(x[1] * y[1]) % T.p>> ELSE MulT(T.p, T.terms[k], x, y)
Times(T, x, y) == TimesK(T, Height(T), x, y)
Sqr(T, x) == Times(T, x, x)
Zero(T) == ZeroS(Deg(T))
One(T) == OneS(Deg(T))
(* an element of level k seen in the top level *)
Embed(T, x) == x \o ZeroS(Deg(T) - Len(x))
Scale(T, s, x) == [i \in 1..Len(x) |-> (s * x[i]) % T.p]

RECURSIVE PowN(_, _, _)                                        \* n in 0 .. 2^31 - 1
PowN(T, x, n) == IF n = 0 THEN One(T)
                 ELSE IF n % 2 = 0 THEN PowN(T, Sqr(T, x), n \div 2)
                 ELSE Times(T, x, PowN(T, Sqr(T, x), n \div 2))
RECURSIVE PowD(_, _, _, _)                                     \* exponent = digits ds (most significant first) in base b
PowD(T, x, b, ds) == IF Len(ds) = 0 THEN One(T)
                     ELSE Times(T, PowN(T, PowD(T, x, b, SubSeq(ds, 1, Len(ds) - 1)), b), PowN(T, x, ds[Len(ds)]))
(* x^(q-2), q = p^Deg: the inverse of every x # 0, since the group of units has q - 1 elements *)
Inverse(T, x) == PowD(T, x, T.p, [i \in 1..Deg(T) |-> IF i = Deg(T) THEN T.p - 2 ELSE T.p - 1])
RECURSIVE FrobSeq(_, _, _)                                     \* <<x, x^p, ..., x^(p^n)>>
FrobSeq(T, x, n) == IF n = 0 THEN <<x>>
                    ELSE LET s == FrobSeq(T, x, n - 1) IN Append(s, PowN(T, s[Len(s)], T.p))
Frob(T, x, n) == LET s == FrobSeq(T, x, n) IN s[Len(s)]
(* into the cyclotomic subgroup, of order Phi_d(p), d = Deg(T) in {2, 4, 6, 12} *)
Cyclotomic(T, x) ==
  LET d == Deg(T)
      y == Times(T, Frob(T, x, d \div 2), Inverse(T, x))
  IN IF d \in {2, 4} THEN y ELSE IF d = 6 THEN Times(T, y, Frob(T, y, 1)) ELSE Times(T, y, Frob(T, y, 2))
(* x^((q-1)/2): digits of (q-1)/2 in base p *)
HalfPow(T, x) == PowD(T, x, T.p, [i \in 1..Deg(T) |-> (T.p - 1) \div 2])
=============================================================================
