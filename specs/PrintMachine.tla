---------------------------- MODULE PrintMachine ----------------------------
(* How values are written to a stream: a writer that unfolds a value token   *)
(* by token, and an independent reader - a pushdown automaton that accepts   *)
(* exactly nested arrays, objects with named members and decimal numbers -   *)
(* that consumes every token as it is written.  The reader must accept every *)
(* text and read back the value that was written, whatever was written to    *)
(* the stream before; so no two values share a text.                         *)
EXTENDS LinAlg
CONSTANTS P,           \* the prime field of the coordinates
          Kinds,       \* what is printed: names of KindSet
          KeySet,      \* pseudo-random values per kind
          Pats,        \* patterns a + b * i (mod P) with a, b from this set
          Lists,       \* lengths of the coefficient lists
          Equal,       \* compare every value with its neighbours as well
          Depth        \* values written to one stream
VARIABLES kind, val, todo, out, rd, past
vars == <<kind, val, todo, out, rd, past>>

(* shapes: what a value of each kind consists of *)
Num == <<"n">>
Arr(s, n) == <<"a", s, n>>
Rec(fs) == <<"o", fs>>
Fp2 == Arr(Num, 2)   Fp3 == Arr(Num, 3)   Fp4 == Arr(Fp2, 2)
Fp6b == Arr(Fp2, 3)  Fp6a == Arr(Fp3, 2)  Fp12 == Arr(Fp6b, 2)
FieldShape(f) ==
  CASE f = "fp" -> Num [] f = "fp2" -> Fp2 [] f = "fp3" -> Fp3 [] f = "fp4" -> Fp4
    [] f = "fp6a" -> Fp6a [] f = "fp6b" -> Fp6b [] f = "fp12" -> Fp12
Point(names, s) == Rec([i \in 1..Len(names) |-> <<names[i], s>>])
Shape(k, len) ==
  CASE k[1] = "field" -> FieldShape(k[2])
    [] k[1] \in {"affine", "teaffine", "montgomery"} -> Point(<<"X", "Y">>, FieldShape(k[2]))
    [] k[1] \in {"projective", "projective-3", "jacobian", "jacobian0", "jacobian-3", "inverted"} -> Point(<<"X", "Y", "Z">>, FieldShape(k[2]))
    [] k[1] = "extended" -> Point(<<"X", "Y", "T", "Z">>, FieldShape(k[2]))
    [] k[1] \in {"entry", "list"} -> LET n == k[3] IN IF k[1] = "entry" THEN Arr(FieldShape(k[2]), n) ELSE Arr(Arr(FieldShape(k[2]), n), len[1])
    [] k[1] = "g1ate0" -> Point(<<"PX", "PY">>, Num)
    [] k[1] = "g2ate0" -> LET f == FieldShape(k[2]) IN
         Rec(<<<<"QX", f>>, <<"QY", f>>, <<"coeffs", Arr(Arr(f, 3), len[1])>>>>)
    [] k[1] = "g1ate" -> LET f == FieldShape(k[2]) IN
         Rec(<<<<"PX", Num>>, <<"PY", Num>>, <<"PX_twist", f>>, <<"PY_twist", f>>>>)
    [] k[1] = "g2ate" -> LET f == FieldShape(k[2]) IN
         Rec(<<<<"QX", f>>, <<"QY", f>>, <<"QY2", f>>, <<"QX_over_twist", f>>, <<"QY_over_twist", f>>,
               <<"dbl_coeffs", Arr(Arr(f, 4), len[1])>>, <<"add_coeffs", Arr(Arr(f, 2), len[2])>>>>)
Lens(k) == CASE k[1] \in {"g2ate0", "list"} -> {<<n>> : n \in Lists}
             [] k[1] = "g2ate" -> {<<n, m>> : n, m \in Lists}
             [] OTHER -> {<<>>}

(* values of a shape: its leaves numbered from left to right, leaf i holding f(i) *)
RECURSIVE Leaves(_)
Leaves(s) == CASE s[1] = "n" -> 1
               [] s[1] = "a" -> s[3] * Leaves(s[2])
               [] s[1] = "o" -> LET t[i \in 0..Len(s[2])] == IF i = 0 THEN 0 ELSE t[i - 1] + Leaves(s[2][i][2]) IN t[Len(s[2])]
RECURSIVE Fill(_, _, _)
Fill(s, f, at) ==
  CASE s[1] = "n" -> <<"n", f[at]>>
    [] s[1] = "a" -> <<"a", [i \in 1..s[3] |-> Fill(s[2], f, at + (i - 1) * Leaves(s[2]))]>>
    [] s[1] = "o" -> LET t[i \in 0..Len(s[2])] == IF i = 0 THEN at ELSE t[i - 1] + Leaves(s[2][i][2])
                     IN  <<"o", [i \in 1..Len(s[2]) |-> <<s[2][i][1], Fill(s[2][i][2], f, t[i - 1])>>]>>
Values(k) ==
  UNION {LET s == Shape(k, l)  n == Leaves(s) IN
         {Fill(s, [i \in 1..n |-> (a + b * i) % P], 1) : a, b \in Pats}
           \cup {Fill(s, [i \in 1..n |-> Pick(100 * q + n, i, 0, P - 1)], 1) : q \in KeySet}
         : l \in Lens(k)}

(* the writer: work items are values still to be unfolded and tokens still to be written *)
Tok(t) == <<"tok", t>>
Open(t) == t \in {"[", "{"}
RECURSIVE Between(_)
Between(items) == IF Len(items) <= 1 THEN (IF Len(items) = 0 THEN <<>> ELSE items[1])
                  ELSE items[1] \o <<Tok(",")>> \o Between(Tail(items))
Unfold(v) ==
  CASE v[1] = "a" -> <<Tok("[")>> \o Between([i \in 1..Len(v[2]) |-> <<v[2][i]>>]) \o <<Tok("]")>>
    [] v[1] = "o" -> <<Tok("{")>> \o Between([i \in 1..Len(v[2]) |-> <<<<"key", v[2][i][1]>>, v[2][i][2]>>]) \o <<Tok("}")>>

(* the reader: a stack of open constructs, innermost last; st says what may come next *)
Top == [k |-> "top", got |-> <<>>, st |-> "value", name |-> ""]
Bad == <<[k |-> "bad", got |-> <<>>, st |-> "", name |-> ""]>>
Close(f) == IF f.k = "a" THEN <<"a", f.got>> ELSE <<"o", f.got>>
Take(f, v) == [f EXCEPT !.got = Append(@, IF f.k = "o" THEN <<f.name, v>> ELSE v),
                        !.st = IF f.k = "top" THEN "value" ELSE "sep"]
Put(r, v) == [r EXCEPT ![Len(r)] = Take(@, v)]
Read(r, t) ==
  LET f == r[Len(r)] IN
  CASE t[1] = "n" /\ f.st \in {"value", "first"} /\ f.k # "o" -> Put(r, t)
    [] t[1] = "n" /\ f.st = "value" /\ f.k = "o" -> Put(r, t)
    [] t[1] = "key" /\ f.k = "o" /\ f.st \in {"first", "key"} /\ ~\E i \in 1..Len(f.got) : f.got[i][1] = t[2]
         -> [r EXCEPT ![Len(r)] = [@ EXCEPT !.st = "value", !.name = t[2]]]
    [] t[1] = "tok" /\ Open(t[2]) /\ (f.st = "value" \/ (f.st = "first" /\ f.k = "a"))
         -> Append(r, [k |-> IF t[2] = "[" THEN "a" ELSE "o", got |-> <<>>, st |-> "first", name |-> ""])
    [] t[1] = "tok" /\ t[2] = "," /\ f.st = "sep" -> [r EXCEPT ![Len(r)] = [@ EXCEPT !.st = IF f.k = "o" THEN "key" ELSE "value"]]
    [] t[1] = "tok" /\ t[2] = "]" /\ f.k = "a" /\ f.st \in {"first", "sep"} -> Put(SubSeq(r, 1, Len(r) - 1), Close(f))
    [] t[1] = "tok" /\ t[2] = "}" /\ f.k = "o" /\ f.st \in {"first", "sep"} -> Put(SubSeq(r, 1, Len(r) - 1), Close(f))
    [] OTHER -> Bad

Word(t) == IF t[1] = "n" THEN t[2] ELSE IF t[1] = "key" THEN t[2]
           ELSE CASE t[2] = "[" -> "os" [] t[2] = "]" -> "cs" [] t[2] = "{" -> "ob" [] t[2] = "}" -> "cb" [] t[2] = "," -> "cm"
RECURSIVE Plain(_)
Plain(v) == IF v[1] = "n" THEN v[2] ELSE IF v[1] = "a" THEN [i \in 1..Len(v[2]) |-> Plain(v[2][i])]
            ELSE [i \in 1..Len(v[2]) |-> Plain(v[2][i][2])]

Start(k, v) == kind = k /\ val = v /\ todo = <<v>> /\ out = <<>>
Init == /\ rd = <<Top>> /\ past = <<>>
        /\ \E k \in Kinds : \E v \in Values(k) : Start(k, v)
Step ==
  /\ todo # <<>>
  /\ LET x == Head(todo) IN
     IF x[1] \in {"a", "o"}
     THEN todo' = Unfold(x) \o Tail(todo) /\ UNCHANGED <<out, rd>>
     ELSE todo' = Tail(todo) /\ out' = Append(out, Word(x)) /\ rd' = Read(rd, x)
  /\ UNCHANGED <<kind, val, past>>
Written == past \o <<<<kind, Plain(val), out>>>>
Again ==                                             \* the next value of the same stream
  /\ todo = <<>> /\ kind[1] \notin {"entry", "list"}           \* table entries are not printed on their own
  /\ Emit("print", <<P, IF Len(past) = 0 THEN 0 ELSE Len(past)>>, [i \in 1..Len(Written) |-> <<Written[i][1], Written[i][2]>>], [i \in 1..Len(Written) |-> Written[i][3]])
  /\ Len(past) + 1 < Depth
  /\ \E k \in Kinds : \E v \in Values(k) :
       /\ kind' = k /\ val' = v /\ todo' = <<v>> /\ out' = <<>>
       /\ past' = Written /\ UNCHANGED rd
(* the same value with its i-th number changed, or a list one entry shorter: another value *)
RECURSIVE Size(_)
Size(v) == IF v[1] = "n" THEN 1
           ELSE LET t[i \in 0..Len(v[2])] == IF i = 0 THEN 0 ELSE t[i - 1] + Size(IF v[1] = "a" THEN v[2][i] ELSE v[2][i][2]) IN t[Len(v[2])]
RECURSIVE Bump(_, _, _)
Bump(v, i, d) ==
  IF v[1] = "n" THEN <<"n", (v[2] + d) % P>>
  ELSE LET part(j) == IF v[1] = "a" THEN v[2][j] ELSE v[2][j][2]
           t[j \in 0..Len(v[2])] == IF j = 0 THEN 0 ELSE t[j - 1] + Size(part(j))
           new(j) == IF i > t[j - 1] /\ i <= t[j] THEN Bump(part(j), i - t[j - 1], d) ELSE part(j)
       IN  <<v[1], [j \in 1..Len(v[2]) |-> IF v[1] = "a" THEN new(j) ELSE <<v[2][j][1], new(j)>>]>>
Comparable == kind[1] \notin {"affine", "teaffine", "montgomery", "projective", "projective-3", "jacobian", "jacobian0", "jacobian-3", "inverted", "extended"}
Compare ==                                           \* stored values are equal exactly when all their numbers are
  /\ Equal /\ todo = <<>> /\ past = <<>> /\ Comparable
  /\ Emit("same", <<P>>, <<kind, Plain(val), Plain(val)>>, TRUE)
  /\ \A i \in 1..Size(val) : \A d \in {1, P - 1} :
       /\ Assert(Bump(val, i, d) # val, "changed")
       /\ Emit("same", <<P>>, <<kind, Plain(val), Plain(Bump(val, i, d))>>, FALSE)
  /\ val[1] = "o" => \A j \in 1..Len(val[2]) : (val[2][j][2][1] = "a" /\ Len(val[2][j][2][2]) > 0 /\ val[2][j][1] \in {"coeffs", "dbl_coeffs", "add_coeffs"}) =>
       Emit("same", <<P>>, <<kind, Plain(val), Plain(<<"o", [val[2] EXCEPT ![j][2][2] = SubSeq(@, 1, Len(@) - 1)]>>)>>, FALSE)
  /\ (val[1] = "a" /\ kind[1] = "list") => (Len(val[2]) > 0 => Emit("same", <<P>>, <<kind, Plain(val), Plain(<<"a", SubSeq(val[2], 1, Len(val[2]) - 1)>>)>>, FALSE))
  /\ UNCHANGED vars
Next == Step \/ Again \/ Compare
Spec == Init /\ [][Next]_vars

(* never rejected; and once a value is written it has been read back, behind those written before *)
Accepted == rd[1].k # "bad"
Balanced == todo = <<>> => Len(rd) = 1
ReadBack == todo = <<>> => /\ Len(rd[1].got) = Len(past) + 1
                           /\ rd[1].got[Len(past) + 1] = val
Laws == Accepted /\ Balanced /\ ReadBack
==============================================================================
