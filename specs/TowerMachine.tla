---------------------------- MODULE TowerMachine ----------------------------
(* A user computing in a tower of fields: one accumulator, moved by sums,     *)
(* differences and products with an operand; on the way every other operation *)
(* the library offers is applied to it.  Towers with at most FullMax elements *)
(* are explored completely (every accumulator, every operand); in larger ones *)
(* `Walks` behaviours of `Len_` steps follow pseudo-random operands.          *)
EXTENDS Tower, FiniteSets, CSV, IOUtils
CONSTANTS Specs,      \* sequence of <<name, p, nr>>, name in {"fp","fp2","fp3","fp4","fp6a","fp6b","fp12"}
          Kinds,      \* subset of {"bin", "ring", "roots", "frob", "cyc", "pow", "order"}
          FullMax, Walks, Len_, Seed
VARIABLES t, acc, r, n
vars == <<t, acc, r, n>>

(* the sextic and dodecic towers adjoin roots of xi = a + u with the least a   *)
(* that makes xi neither a square nor a cube in F_{p^2}                        *)
Sq2(p, nr) == Mk(p, <<2>>, << <<nr>> >>)
IsOne(x) == x = OneS(Len(x))
Xi(p, nr) == LET F == Sq2(p, nr)
                 Good(a) == /\ ~IsOne(HalfPow(F, <<a, 1>>))
                            /\ ~IsOne(PowN(F, <<a, 1>>, (p * p - 1) \div 3))
             IN << CHOOSE a \in 0..(p-1) : Good(a) /\ \A b \in 0..(a-1) : ~Good(b), 1>>
Build(s) == LET p == s[2]  nr == s[3] IN
  CASE s[1] = "fp"   -> Mk(p, <<>>, <<>>)
    [] s[1] = "fp2"  -> Mk(p, <<2>>, << <<nr>> >>)
    [] s[1] = "fp3"  -> Mk(p, <<3>>, << <<nr>> >>)
    [] s[1] = "fp4"  -> Mk(p, <<2, 2>>, << <<nr>>, <<0, 1>> >>)
    [] s[1] = "fp6a" -> Mk(p, <<3, 2>>, << <<nr>>, <<0, 1, 0>> >>)
    [] s[1] = "fp6b" -> Mk(p, <<2, 3>>, << <<nr>>, Xi(p, nr) >>)
    [] s[1] = "fp12" -> Mk(p, <<2, 3, 2>>, << <<nr>>, Xi(p, nr), <<0, 0, 1, 0, 0, 0>> >>)
ASSUME TLCSet(21, [i \in 1..Len(Specs) |-> Build(Specs[i])])
T == TLCGet(21)[t]
Name == Specs[t][1]
N(x) == ToString(x)
Key(i) == Specs[i][1] \o "_" \o N(Specs[i][2]) \o "_" \o N(Specs[i][3])
Emit(op, a, res) == CSVWrite("%1$s", <<ToString(<<op, <<Key(t)>>, a, res>>)>>, IOEnv.OUT)

RECURSIVE PowI(_, _)
PowI(b, e) == IF e = 0 THEN 1 ELSE b * PowI(b, e - 1)
RECURSIVE Cap(_, _)
Cap(p, d) == IF d = 0 THEN 1 ELSE LET x == Cap(p, d - 1) IN IF x > 1000000000 \div p THEN 1000000000 ELSE p * x
Size(i) == LET X == TLCGet(21)[i] IN Cap(X.p, Deg(X))
Full == Size(t) <= FullMax
RECURSIVE Dig(_, _, _)
Dig(p, d, x) == IF d = 0 THEN <<>> ELSE <<x % p>> \o Dig(p, d - 1, x \div p)
All(X) == {TLCEval(Dig(X.p, Deg(X), x)) : x \in 0..(PowI(X.p, Deg(X)) - 1)}

(* ---- pseudo-random operands (a linear congruential sequence) ---- *)
Nx(s) == (s * 75 + 74) % 65537
RECURSIVE Jump(_, _)
Jump(s, k) == IF k = 0 THEN s ELSE Jump(Nx(s), k - 1)
RECURSIVE Raw(_, _, _, _)
Raw(p, d, s, sp) == IF d = 0 THEN <<>> ELSE LET u == Nx(Nx(s)) IN
  <<IF sp /\ u % 2 = 0 THEN 0 ELSE (u \div 8) % p>> \o Raw(p, d - 1, u, sp)
Rand(k) == LET s == Jump((r * 31 + k * 997) % 65537, 3) IN TLCEval(Raw(T.p, Deg(T), s, s % 3 = 0))
RandInt(k) == Jump((r * 17 + k * 101) % 65537, 5)

Init == /\ t \in 1..Len(Specs)
        /\ n = 0
        /\ IF Size(t) <= FullMax THEN r = 0 /\ acc = Zero(TLCGet(21)[t])
           ELSE \E w \in 1..Walks : r = (Seed * 7919 + w * 104 + t) % 65537 /\
                acc = IF w = 1 THEN Zero(TLCGet(21)[t]) ELSE IF w = 2 THEN One(TLCGet(21)[t]) ELSE Raw(TLCGet(21)[t].p, Deg(TLCGet(21)[t]), r, w % 3 = 0)

Alive == Full \/ n <= Len_
Obs(kind) == kind \in Kinds /\ Alive /\ UNCHANGED vars
Unit(x) == x # ZeroS(Len(x))

(* moves *)
Basis == {[j \in 1..Deg(T) |-> IF j = i THEN 1 ELSE 0] : i \in 1..Deg(T)}
Operands == IF Full /\ "bin" \in Kinds THEN All(T) ELSE IF Full THEN Basis ELSE {Rand(1), acc, NegS(T, acc), One(T)}
Move == /\ Alive /\ t' = t
        /\ \E y \in Operands :
             LET s == AddS(T, acc, y)  d == SubS(T, acc, y)  m == Times(T, acc, y) IN
             /\ "bin" \in Kinds => Emit("bin", <<acc, y>>, <<s, d, m, acc = y>>)
             /\ IF Full THEN r' = r /\ n' = n /\ acc' \in {s, d, m}
                ELSE /\ y = Rand(1)
                     /\ r' = Nx(r) /\ n' = n + 1
                     /\ acc' = IF r % 4 = 0 THEN s ELSE IF r % 4 = 1 THEN AddS(T, m, Rand(2)) ELSE m
Others == Obs("bin") /\ ~Full /\ \A y \in {acc, NegS(T, acc), One(T), Zero(T)} :
             Emit("bin", <<acc, y>>, <<AddS(T, acc, y), SubS(T, acc, y), Times(T, acc, y), acc = y>>)
(* ring observations *)
Unary == Obs("ring") /\ Emit("un", <<acc>>, <<NegS(T, acc), AddS(T, acc, acc), Sqr(T, acc), IF Unit(acc) THEN Inverse(T, acc) ELSE <<>>,
                                              acc = Zero(T), acc = One(T)>>)
SubElem(k, j) == IF Full THEN Block(acc, Dim(T, k), 0) ELSE Block(Rand(10 + j), Dim(T, k), 0)
Scalars == Obs("ring") /\ \A k \in 0..(Height(T) - 1) : \A j \in 1..2 :
             LET s == IF Full THEN (IF j = 1 THEN SubElem(k, j) ELSE Block(acc, Dim(T, k), T.degs[k+1] - 1)) ELSE SubElem(k, j)
             IN Emit("scale", <<k, s, acc>>, Times(T, Embed(T, s), acc))
ByNonResidue == Obs("ring") /\ Height(T) > 1 /\ \A j \in 0..(T.degs[Height(T)] - 1) :
             LET h == Height(T)  x == Block(acc, Dim(T, h - 1), j) IN Emit("mnr", <<x>>, TimesK(T, h - 1, T.nrs[h], x))
Mask(x, keep) == [i \in 1..Len(x) |-> IF i \in keep THEN x[i] ELSE 0]
Z2 == <<0, 0>>
Sparse ==
  /\ Obs("ring")
  /\ \/ Name = "fp4" /\ LET y == Mask(Rand(3), {1, 3, 4}) IN Emit("sparse", <<acc, y>>, Times(T, acc, y))
     \/ Name = "fp6a" /\ LET y == Mask(Rand(3), {3, 4, 5, 6}) IN Emit("sparse", <<acc, y>>, Times(T, acc, y))
     \/ Name = "fp12" /\ LET a == Block(Rand(3), 2, 0)  b == Block(Rand(3), 2, 1)  c == Block(Rand(3), 2, 2) IN   \* ell_0, ell_VW, ell_VV
          /\ Emit("s045", <<acc, a, b, c>>, Times(T, acc, b \o Z2 \o Z2 \o Z2 \o a \o c))
          /\ Emit("s024", <<acc, a, b, c>>, Times(T, acc, a \o Z2 \o c \o Z2 \o b \o Z2))
     \/ Name = "fp2" /\ T.nrs[1][1] = T.p - 1 /\ \A b \in {acc[1], acc[2], RandInt(4) % T.p} :
          Emit("fp2m", <<acc, b>>, <<Times(T, acc, <<0, 1>>), Scale(T, b, acc), Times(T, acc, <<0, b>>), Times(T, acc, <<9 % T.p, 1>>)>>)
(* prime field: order, integers, increments *)
Order == Obs("order") /\ Name = "fp" /\ Emit("succ", <<acc[1]>>, <<(acc[1] + 1) % T.p, (acc[1] + T.p - 1) % T.p>>)
         /\ \A y \in (IF Full THEN 0..(T.p - 1) ELSE {RandInt(5) % T.p, acc[1], 0, T.p - 1}) : Emit("ord", <<acc[1], y>>, <<acc[1] < y, acc[1] = y>>)
Ints == Obs("order") /\ Name = "fp" /\ \A k \in {acc[1] + j * T.p : j \in -3..9} \cup {acc[1] + T.p * (RandInt(6) % 30000), -acc[1] - T.p * (RandInt(7) % 1000)} :
          Emit("int", <<k, acc[1]>>, <<k % T.p, (acc[1] + (k % T.p)) % T.p, (acc[1] + T.p - (k % T.p)) % T.p, (acc[1] * (k % T.p)) % T.p>>)
(* roots *)
Half == IF T.p = 2 THEN acc ELSE HalfPow(T, acc)
Roots == Obs("roots") /\ Name \in {"fp", "fp2", "fp3"} /\ Emit("issq", <<acc>>, acc = Zero(T) \/ IsOne(Half))
         /\ LET s == Sqr(T, acc) IN Emit("sqrt", <<s>>, <<acc, NegS(T, acc)>>)
(* powers; exponents are digit sequences in base 1024, most significant first *)
Exps == {<<e>> : e \in 0..33} \cup {<<RandInt(8) % 1024, RandInt(9) % 1024>>, <<RandInt(8) % 1024, RandInt(9) % 1024, RandInt(10) % 1024, RandInt(11) % 1024>>,
         <<1, 0>>, <<1, 0, 0, 0, 0, 0, 0>>, <<1023, 1023, 1023, 1023>>, <<RandInt(12) % 1024, 0, 0, 0, 0, 0, 0, 0, RandInt(13) % 1024>>}
Powers == Obs("pow") /\ \A e \in Exps : Emit("pow", <<acc, e>>, PowD(T, acc, 1024, e))
(* Frobenius: all powers 0 .. 2 Deg + 1 *)
Frobenius == Obs("frob") /\ Height(T) > 0 /\ Emit("frob", <<acc>>, FrobSeq(T, acc, 2 * Deg(T) + 1))
(* cyclotomic subgroup *)
CycExps == {<<e>> : e \in 0..40} \cup {<<RandInt(8) % 1024, RandInt(9) % 1024, RandInt(10) % 1024>>, <<1, 0, 0, 0, 0, 0, 0>>,
            <<1023, 1023, 1023, 1023, 1023>>, <<RandInt(8) % 1024, RandInt(9) % 1024, 0, 0, RandInt(10) % 1024, RandInt(11) % 1024, 682>>}
Cyc == Obs("cyc") /\ Name \in {"fp4", "fp6a", "fp12"} /\ Unit(acc) /\
         LET z == Cyclotomic(T, acc) IN
           /\ Emit("cyc", <<z>>, <<Inverse(T, z), Sqr(T, z)>>)
           /\ \A e \in CycExps : Emit("cycexp", <<z, e>>, PowD(T, z, 1024, e))

Next == Move \/ Others \/ Unary \/ Scalars \/ ByNonResidue \/ Sparse \/ Order \/ Ints \/ Roots \/ Powers \/ Frobenius \/ Cyc
Spec == Init /\ [][Next]_vars

(* ---- what must be true of the model itself ---- *)
TypeOK == Len(acc) = Deg(T) /\ \A i \in 1..Len(acc) : acc[i] \in 0..(T.p - 1)
IsField == Unit(acc) => Times(T, acc, Inverse(T, acc)) = One(T)
Ring == LET y == Rand(21)  z == Rand(22) IN
          /\ Times(T, acc, y) = Times(T, y, acc)
          /\ Times(T, acc, AddS(T, y, z)) = AddS(T, Times(T, acc, y), Times(T, acc, z))
          /\ Times(T, acc, Times(T, y, z)) = Times(T, Times(T, acc, y), z)
          /\ Times(T, acc, One(T)) = acc
Galois == LET y == Rand(23)  d == Deg(T) IN
          /\ Frob(T, acc, d) = acc
          /\ Frob(T, AddS(T, acc, y), 1) = AddS(T, Frob(T, acc, 1), Frob(T, y, 1))
          /\ Frob(T, Times(T, acc, y), 1) = Times(T, Frob(T, acc, 1), Frob(T, y, 1))
CycNorm == (Name \in {"fp4", "fp6a", "fp12"} /\ Unit(acc)) =>
             LET z == Cyclotomic(T, acc) IN Times(T, z, Frob(T, z, Deg(T) \div 2)) = One(T)
=============================================================================
