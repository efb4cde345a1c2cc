------------------------------- MODULE LinAlg -------------------------------
(***************************************************************************)
(* Declarative linear algebra over the Gaussian integers: the values the   *)
(* vector/matrix library is specified to compute.  A scalar is <<re, im>>; *)
(* a vector is a sequence of scalars; a matrix is a sequence of rows.      *)
(* Everything is defined from the textbook definition (sum of products,    *)
(* Laplace expansion, minors, adjugate), never from the implementation's   *)
(* algorithm, so that it can serve as the oracle for it.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils, CSV

Abs(x) == IF x < 0 THEN -x ELSE x
MaxI(a, b) == IF a < b THEN b ELSE a
MinI(a, b) == IF a < b THEN a ELSE b

------------------------------------------------------------------------------
(* Pseudo-random but reproducible data.  Squaring map modulo a prime; every *)
(* intermediate value fits TLC's 32-bit integers.                           *)
Mix(x) == (x * x + 3 * x + 7919) % 32749
Hash(k, i) == Mix((Mix((Mix((k * 61 + 17) % 32749) + 997 * i) % 32749) + 31 * i + k) % 32749)
Pick(k, i, lo, hi) == lo + (Hash(k, i) % (hi - lo + 1))

------------------------------------------------------------------------------
(* scalars *)
Re(x) == x[1]
Im(x) == x[2]
R(n) == <<n, 0>>
Zero == <<0, 0>>
One == <<1, 0>>
SAdd(x, y) == <<x[1] + y[1], x[2] + y[2]>>
SNeg(x) == <<-x[1], -x[2]>>
SSub(x, y) == SAdd(x, SNeg(y))
SMul(x, y) == <<x[1] * y[1] - x[2] * y[2], x[1] * y[2] + x[2] * y[1]>>
SConj(x) == <<x[1], -x[2]>>
Norm2(x) == x[1] * x[1] + x[2] * x[2]
IsReal(x) == x[2] = 0

RECURSIVE SSumTo(_, _)
SSumTo(f, n) == IF n = 0 THEN Zero ELSE SAdd(SSumTo(f, n - 1), f[n])
SSum(f) == SSumTo(f, Len(f))

------------------------------------------------------------------------------
(* vectors *)
VMap(f(_), v) == [i \in 1..Len(v) |-> f(v[i])]
VZip(f(_, _), v, w) == [i \in 1..Len(v) |-> f(v[i], w[i])]
VAdd(v, w) == VZip(SAdd, v, w)
VMul(v, w) == VZip(SMul, v, w)
VAddS(v, s) == [i \in 1..Len(v) |-> SAdd(v[i], s)]
VScale(v, s) == [i \in 1..Len(v) |-> SMul(v[i], s)]
VConj(v) == VMap(SConj, v)
VReal(v) == \A i \in 1..Len(v) : IsReal(v[i])
VDot(v, w) == SSum(VMul(v, VConj(w)))          \* the documented hermitian product
VSum(v) == SSum(v)
VFill(n, s) == [i \in 1..n |-> s]
VIota(n, s) == [i \in 1..n |-> SAdd(s, R(i - 1))]
VConcat(v, w) == v \o w
VSlice(v, start, m) == [i \in 1..m |-> v[start + i]]     \* start counts from 0, as in the library
VRotate(v, n) == [i \in 1..Len(v) |-> v[((i - 1 + n) % Len(v)) + 1]]
VMinR(v) == CHOOSE x \in {Re(v[i]) : i \in 1..Len(v)} : \A i \in 1..Len(v) : x <= Re(v[i])
VMaxR(v) == CHOOSE x \in {Re(v[i]) : i \in 1..Len(v)} : \A i \in 1..Len(v) : x >= Re(v[i])
VArg(v, x) == (CHOOSE i \in 1..Len(v) : Re(v[i]) = x /\ \A j \in 1..(i-1) : Re(v[j]) # x) - 1
VNonZero(v) == \A i \in 1..Len(v) : v[i] # Zero

------------------------------------------------------------------------------
(* matrices *)
Rows(A) == Len(A)
Cols(A) == Len(A[1])
Gen(m, n, f(_, _)) == [i \in 1..m |-> [j \in 1..n |-> f(i, j)]]
Row(A, i) == A[i]
Col(A, j) == [i \in 1..Rows(A) |-> A[i][j]]
MMap(f(_), A) == [i \in 1..Rows(A) |-> [j \in 1..Cols(A) |-> f(A[i][j])]]
MZip(f(_, _), A, B) == [i \in 1..Rows(A) |-> [j \in 1..Cols(A) |-> f(A[i][j], B[i][j])]]
MAdd(A, B) == MZip(SAdd, A, B)
MSub(A, B) == MZip(SSub, A, B)
MHad(A, B) == MZip(SMul, A, B)
MAddS(A, s) == [i \in 1..Rows(A) |-> VAddS(A[i], s)]
MScale(A, s) == [i \in 1..Rows(A) |-> VScale(A[i], s)]
MConj(A) == MMap(SConj, A)
MReal(A) == \A i \in 1..Rows(A) : VReal(A[i])
MNonZero(A) == \A i \in 1..Rows(A) : VNonZero(A[i])
Transpose(A) == [i \in 1..Cols(A) |-> [j \in 1..Rows(A) |-> A[j][i]]]
Hermitian(A) == Transpose(MConj(A))
Ident(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN One ELSE Zero]]
MFill(m, n, s) == [i \in 1..m |-> [j \in 1..n |-> s]]
HCat(A, B) == [i \in 1..Rows(A) |-> A[i] \o B[i]]
VCat(A, B) == A \o B
SubMat(A, a, b, p, q) == [i \in 1..p |-> [j \in 1..q |-> A[a + i][b + j]]]
Flat(A) == [k \in 1..(Rows(A) * Cols(A)) |-> A[((k - 1) \div Cols(A)) + 1][((k - 1) % Cols(A)) + 1]]
Reshape(A, p, q) == [i \in 1..p |-> [j \in 1..q |-> Flat(A)[(i - 1) * q + j]]]
RepMat(A, r, c) == [i \in 1..(r * Rows(A)) |-> [j \in 1..(c * Cols(A)) |->
                      A[((i - 1) % Rows(A)) + 1][((j - 1) % Cols(A)) + 1]]]
SwapRow(A, a, b) == [i \in 1..Rows(A) |-> IF i = a + 1 THEN A[b + 1] ELSE IF i = b + 1 THEN A[a + 1] ELSE A[i]]
SwapCol(A, a, b) == Transpose(SwapRow(Transpose(A), a, b))
AsCol(v) == [i \in 1..Len(v) |-> <<v[i]>>]
AsRow(v) == <<v>>
Kron(A, B) == [i \in 1..(Rows(A) * Rows(B)) |-> [j \in 1..(Cols(A) * Cols(B)) |->
                 SMul(A[((i - 1) \div Rows(B)) + 1][((j - 1) \div Cols(B)) + 1],
                      B[((i - 1) % Rows(B)) + 1][((j - 1) % Cols(B)) + 1])]]
MatMul(A, B) == [i \in 1..Rows(A) |-> [j \in 1..Cols(B) |-> SSum([k \in 1..Cols(A) |-> SMul(A[i][k], B[k][j])])]]
MatVec(A, v) == [i \in 1..Rows(A) |-> SSum([k \in 1..Cols(A) |-> SMul(A[i][k], v[k])])]
VecMat(v, A) == [j \in 1..Cols(A) |-> SSum([k \in 1..Rows(A) |-> SMul(v[k], A[k][j])])]
Trace(A) == SSum([i \in 1..Rows(A) |-> A[i][i]])
RowAbs(A, i) == Re(SSum([j \in 1..Cols(A) |-> R(Abs(Re(A[i][j])))]))
MaxRowSum(A) == CHOOSE x \in {RowAbs(A, i) : i \in 1..Rows(A)} : \A i \in 1..Rows(A) : x >= RowAbs(A, i)
MaxColSum(A) == MaxRowSum(Transpose(A))

------------------------------------------------------------------------------
(* Determinant by Laplace expansion, rank by minors, inverse by adjugate.   *)
(* Integer matrices: entries are plain integers here (real case).           *)
Drop(s, k) == [i \in 1..(Len(s) - 1) |-> IF i < k THEN s[i] ELSE s[i + 1]]
Minor(A, r, c) == [i \in 1..(Len(A) - 1) |-> Drop(Drop(A, r)[i], c)]
RECURSIVE Det(_), DetExp(_, _)
Det(A) == IF Len(A) = 1 THEN A[1][1] ELSE DetExp(A, Len(A))
DetExp(A, j) == IF j = 0 THEN 0
                ELSE DetExp(A, j - 1) +
                     (IF A[1][j] = 0 THEN 0 ELSE (IF j % 2 = 1 THEN 1 ELSE -1) * A[1][j] * Det(Minor(A, 1, j)))
SubIdx(n, k) == {s \in SUBSET (1..n) : Cardinality(s) = k}
Nth(s, k) == CHOOSE x \in s : Cardinality({y \in s : y < x}) = k - 1
Pickout(A, rs, cs) == LET k == Cardinality(rs) IN
    [i \in 1..k |-> [j \in 1..k |-> A[Nth(rs, i)][Nth(cs, j)]]]
HasMinor(A, k) == \E rs \in SubIdx(Len(A), k) : \E cs \in SubIdx(Len(A[1]), k) : Det(Pickout(A, rs, cs)) # 0
Rank(A) == LET ks == {k \in 1..MinI(Len(A), Len(A[1])) : HasMinor(A, k)}
           IN IF ks = {} THEN 0 ELSE CHOOSE k \in ks : \A l \in ks : l <= k
\* adjugate: Adj(A) * A = Det(A) * I
Adj(A) == LET n == Len(A) IN
          IF n = 1 THEN <<<<1>>>>
          ELSE [i \in 1..n |-> [j \in 1..n |->
                  (IF (i + j) % 2 = 0 THEN 1 ELSE -1) * Det(Minor(A, j, i))]]
IMul(A, B) == [i \in 1..Len(A) |-> [j \in 1..Len(B[1]) |->
                 LET f[k \in 0..Len(B)] == IF k = 0 THEN 0 ELSE f[k - 1] + A[i][k] * B[k][j] IN f[Len(B)]]]

------------------------------------------------------------------------------
(* Every explored transition is exported as one line for the replay driver. *)
OutFile == IOEnv.OUT
Emit(op, params, args, res) == CSVWrite("%1$s", <<ToString(<<op, params, args, res>>)>>, OutFile)
==============================================================================
