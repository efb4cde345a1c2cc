----------------------------- MODULE HashMachine -----------------------------
(* Hashed containers of field elements: a set of values, whatever route each *)
(* value was computed by.  TLC visits every set of values and every insert,  *)
(* erase and lookup of every value written as every sum x + y.               *)
EXTENDS LinAlg
CONSTANTS P, Deg,      \* values are Deg-tuples modulo P
          Name,        \* the field
          MaxLen,      \* order of insertion is kept in the state; sets up to this size
          Ys           \* second summands
VARIABLES seq, h       \* members, in the order they went in
vars == <<seq, h>>
Elems == [1..Deg -> 0..(P - 1)]
Sum(x, y) == [i \in 1..Deg |-> (x[i] + y[i]) % P]
Plain(x) == IF Deg = 1 THEN x[1] ELSE x
Members == {seq[i] : i \in 1..Len(seq)}
Out(op, x, y, ans, after) ==
  Emit("set", <<Name>>, <<[i \in 1..Len(seq) |-> Plain(seq[i])], op, Plain(x), Plain(y), Plain(Sum(x, y))>>,
       <<ans, Len(after), [i \in 1..Len(after) |-> Plain(after[i])]>>)
Init == seq = <<>> /\ h = 0
Insert(x, y) ==
  LET z == Sum(x, y)  after == IF z \in Members THEN seq ELSE Append(seq, z) IN
  /\ Len(after) <= MaxLen
  /\ Out("insert", x, y, z \notin Members, after) /\ seq' = after
Erase(x, y) ==
  LET z == Sum(x, y)  after == SelectSeq(seq, LAMBDA v : v # z) IN
  Out("erase", x, y, z \in Members, after) /\ seq' = after
Look(x, y) == Out("count", x, y, Sum(x, y) \in Members, seq) /\ UNCHANGED seq
Next == /\ UNCHANGED h
        /\ \E x \in Elems : \E n \in Ys : LET y == [i \in 1..Deg |-> (n \div P ^ (i - 1)) % P] IN Insert(x, y) \/ Erase(x, y) \/ Look(x, y)
Spec == Init /\ [][Next]_vars
Laws == Cardinality(Members) = Len(seq)
==============================================================================
