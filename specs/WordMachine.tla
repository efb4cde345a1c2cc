---------------------------- MODULE WordMachine -----------------------------
(* Machine words as what they are, sequences of bits, and the word helpers   *)
(* of nil/crypto3/detail as positions moved about: a shift never wraps and   *)
(* is defined for every count, a mask keeps the positions it names, octets   *)
(* split and join most significant first, buffers add and xor elementwise.   *)
(* TLC visits every 8-bit word, and patterns of the wider ones, and every    *)
(* history of operations up to Depth from each.                              *)
EXTENDS LinAlg
CONSTANTS Widths,      \* word widths driven
          Full,        \* every word of these widths
          KeySet,      \* pseudo-random words per width
          Depth        \* history length
VARIABLES w, buf, h    \* a word (w[1] is its least significant bit), a buffer of words of that width
vars == <<w, buf, h>>

Bits(n, W) == [i \in 1..W |-> (n \div 2 ^ (i - 1)) % 2]                  \* n < 2^30
Rand(k, W) == [i \in 1..W |-> (Hash(k, i) \div 7) % 2]
Shl(x, n) == [i \in 1..Len(x) |-> IF i > n THEN x[i - n] ELSE 0]
Shr(x, n) == [i \in 1..Len(x) |-> IF i + n <= Len(x) THEN x[i + n] ELSE 0]
Low(x, n) == [i \in 1..Len(x) |-> IF i <= n THEN x[i] ELSE 0]
High(x, n) == [i \in 1..Len(x) |-> IF i > Len(x) - n THEN x[i] ELSE 0]
Xor(x, y) == [i \in 1..Len(x) |-> (x[i] + y[i]) % 2]
Not(x) == [i \in 1..Len(x) |-> 1 - x[i]]
Add(x, y) ==                                                           \* modulo 2^width
  LET c[i \in 0..Len(x)] == IF i = 0 THEN 0 ELSE (x[i] + y[i] + c[i - 1]) \div 2
  IN  [i \in 1..Len(x) |-> (x[i] + y[i] + c[i - 1]) % 2]
(* the word cut into parts of m bits, the most significant part first *)
Parts(x, m) == [j \in 1..(Len(x) \div m) |-> [i \in 1..m |-> x[Len(x) - j * m + i]]]
(* parts written one after the other, most significant first, cut to or padded to W bits *)
Join(ps, m, W) ==
  [i \in 1..W |-> LET j == (i - 1) \div m IN
                  IF j < Len(ps) THEN ps[Len(ps) - j][((i - 1) % m) + 1] ELSE 0]
BufXor(a, b) == [i \in 1..Len(a) |-> Xor(a[i], b[i])]                   \* of equal lengths
BufAdd(a, b) == [i \in 1..Len(a) |-> IF i <= Len(b) THEN Add(a[i], b[i]) ELSE a[i]]

Patterns(W) ==
  LET one == [i \in 1..W |-> IF i = 1 THEN 1 ELSE 0] IN
  {Shl(one, n) : n \in {0, 1, 7, 8, 15, 16, 31, 32, W - 1}} \cup {Not(Shl(one, n)) : n \in {0, W \div 2, W - 1}}
    \cup {[i \in 1..W |-> 0], [i \in 1..W |-> 1], [i \in 1..W |-> i % 2]} \cup {Rand(100 * k + W, W) : k \in KeySet}

Init ==
  /\ h = 0
  /\ \E W \in Widths : \E n \in 0..3 :
       /\ \/ W \in Full /\ \E x \in 0..(2 ^ W - 1) : w = Bits(x, W) /\ (x % 4) = n
          \/ W \notin Full /\ w \in Patterns(W)
       /\ buf = [i \in 1..n |-> Rand(17 * i + W + 5 * n, W)]

WW == Len(w)
Obs(op, p, a, r) == Emit(op, <<WW>> \o p, a, r) /\ UNCHANGED <<w, buf>>
Set(op, p, a, r) == Emit(op, <<WW>> \o p, a, r) /\ w' = r /\ UNCHANGED buf

Next ==
  /\ h < Depth /\ h' = h + 1
  /\ \/ \E n \in 0..(WW + 3) :
          \/ Set("shl", <<n>>, <<w>>, Shl(w, n))
          \/ Set("shr", <<n>>, <<w>>, Shr(w, n))
          \/ Set("low", <<n>>, <<w>>, Low(w, n))
          \/ Set("high", <<n>>, <<w>>, High(w, n))
     \/ \E n \in {2 * WW, 4 * WW + 1, 1000} :                         \* counts far beyond the width
          \/ Obs("shl", <<n>>, <<w>>, Shl(w, n)) \/ Obs("shr", <<n>>, <<w>>, Shr(w, n))
          \/ Obs("low", <<n>>, <<w>>, w)         \/ Obs("high", <<n>>, <<w>>, w)
     \/ \E j \in 0..(WW \div 8 - 1) : Obs("octet", <<j>>, <<w>>, Parts(w, 8)[j + 1])
     \/ WW > 8 /\ Obs("octets", <<8, WW \div 8>>, Parts(w, 8), w)
     \/ WW > 8 /\ Obs("halves", <<WW \div 2, 2>>, Parts(w, WW \div 2), w)
     \/ WW > 8 /\ \E k \in 1..(WW \div 8 + 2) :                       \* fewer and more octets than the word holds
          LET ps == [i \in 1..k |-> Parts(Rand(31 * i + k, 8), 8)[1]] IN Obs("octets", <<8, k>>, ps, Join(ps, 8, WW))
     \/ WW > 8 /\ Set("octets", <<8, WW \div 8>>, [i \in 1..(WW \div 8) |-> Parts(w, 8)[(WW \div 8) + 1 - i]],
                      Join([i \in 1..(WW \div 8) |-> Parts(w, 8)[(WW \div 8) + 1 - i]], 8, WW))   \* octets reversed
     \/ Obs("array", <<Len(buf)>>, buf, buf)
     \/ Len(buf) < 6 /\ Emit("array", <<WW, Len(buf) + 1>>, Append(buf, w), Append(buf, w)) /\ buf' = Append(buf, w) /\ UNCHANGED w
     \/ Emit("adder", <<WW>>, <<buf, <<w>>>>, BufAdd(buf, <<w>>)) /\ buf' = BufAdd(buf, <<w>>) /\ UNCHANGED w
     \/ Emit("adder", <<WW>>, <<buf, <<w, Not(w), Shl(w, 1)>>>>, BufAdd(buf, <<w, Not(w), Shl(w, 1)>>))
          /\ buf' = BufAdd(buf, <<w, Not(w), Shl(w, 1)>>) /\ UNCHANGED w
     \/ Emit("adder", <<WW, "alias">>, <<buf, buf>>, BufAdd(buf, buf)) /\ buf' = BufAdd(buf, buf) /\ UNCHANGED w
     \/ Emit("adder", <<WW>>, <<<<w>>, buf>>, BufAdd(<<w>>, buf)) /\ w' = BufAdd(<<w>>, buf)[1] /\ UNCHANGED buf
     \/ LET b == [i \in 1..Len(buf) |-> IF i % 2 = 0 THEN w ELSE Not(Shl(buf[i], i))] IN
          Emit("strxor", <<WW>>, <<buf, b>>, BufXor(buf, b)) /\ buf' = BufXor(buf, b) /\ UNCHANGED w
     \/ Emit("strxor", <<WW, "alias">>, <<buf, buf>>, BufXor(buf, buf)) /\ buf' = BufXor(buf, buf) /\ UNCHANGED w

Spec == Init /\ [][Next]_vars

Laws ==
  /\ \A n \in {0, 1, WW \div 2 + 1, WW - 1, WW, WW + 1} :
       /\ Shl(Shr(w, n), n) = High(w, IF n > WW THEN 0 ELSE WW - n)
       /\ Shr(Shl(w, n), n) = Low(w, IF n > WW THEN 0 ELSE WW - n)
       /\ Xor(Low(w, n), High(w, IF n > WW THEN 0 ELSE WW - n)) = w
  /\ Join(Parts(w, 8), 8, WW) = w
  /\ Add(w, w) = Shl(w, 1) /\ Add(w, Add(Not(w), Low(Not([i \in 1..WW |-> 0]), 1))) = [i \in 1..WW |-> 0]
  /\ BufXor(BufXor(buf, [i \in 1..Len(buf) |-> w]), [i \in 1..Len(buf) |-> w]) = buf
  /\ Len(buf) > 0 => BufAdd(<<w>>, buf)[1] = Add(buf[1], w)
==============================================================================
