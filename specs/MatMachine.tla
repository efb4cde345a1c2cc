----------------------------- MODULE MatMachine -----------------------------
(* A workspace of matrix registers A, B, a vector v and a scalar s.  One     *)
(* action per structural / element-wise operation of the library (property   *)
(* M01) and per product or reduction (property M02); `Ops' selects which     *)
(* group a run explores.  Shapes change along a history as the operations    *)
(* change them; every step is exported and replayed on the real templates.   *)
EXTENDS LinAlg
CONSTANTS Shapes,      \* initial shapes <<rows, columns>>
          MaxDim,      \* largest dimension an action may build and keep
          CapDim,      \* largest dimension an action may build
          Depth, KeySet, Lo, Hi,
          Ops,         \* subset of {"struct", "prod"}
          Bound
VARIABLES A, B, v, s, h
vars == <<A, B, v, s, h>>

Ent(k, o, c) == <<Pick(k, o, Lo, Hi), IF c THEN Pick(k, o + 1, Lo, Hi) ELSE 0>>
MData(k, o, m, n, c) == [i \in 1..m |-> [j \in 1..n |-> Ent(k, o + 10 * i + 2 * j, c)]]
VData(k, o, n, c) == [i \in 1..n |-> Ent(k, o + 2 * i, c)]
Init ==
  /\ h = 0
  /\ \E k \in KeySet, f \in Shapes, g \in Shapes, c \in BOOLEAN :
       LET m == f[1]  n == f[2]  p == g[1]  q == g[2]
           kk == 100 * k + 10 * m + n + 5 * p + q IN
       /\ \/ "struct" \in Ops /\ (p = m \/ q = n)     \* concatenable or equal shapes
          \/ "prod" \in Ops /\ p = n                   \* multipliable
       /\ A = MData(kk, 0, m, n, c)
       /\ B = MData(kk, 200, p, q, c)
       /\ v = VData(kk, 400, IF (k + m) % 2 = 0 THEN n ELSE m, c)
       /\ s = Ent(kk, 500, c)

Go(g) == g \in Ops /\ h < Depth /\ h' = h + 1
SetA(g, op, p, a, r) == Go(g) /\ Emit(op, p, a, r) /\ A' = r /\ UNCHANGED <<B, v, s>>
SetV(g, op, p, a, r) == Go(g) /\ Emit(op, p, a, r) /\ v' = r /\ UNCHANGED <<A, B, s>>
SetS(g, op, p, a, r) == Go(g) /\ Emit(op, p, a, r) /\ s' = r /\ UNCHANGED <<A, B, v>>
Obs(g, op, p, a, r) == Go(g) /\ Emit(op, p, a, r) /\ UNCHANGED <<A, B, v, s>>
SameShape == Rows(A) = Rows(B) /\ Cols(A) = Cols(B)
Square == Rows(A) = Cols(A)
Fits(m, n) == m <= CapDim /\ n <= CapDim
In(m, n) == m <= MaxDim /\ n <= MaxDim
ST == "struct"
PR == "prod"

Struct ==
  \/ Obs(ST, "mget", <<>>, <<A>>, A)
  \/ Obs(ST, "meq", <<>>, <<A, A>>, TRUE)
  \/ SameShape /\ Obs(ST, "meq", <<>>, <<A, B>>, A = B)
  \/ \E i \in 1..Rows(A), j \in 1..Cols(A) : Obs(ST, "meq", <<>>, <<A, [A EXCEPT ![i][j] = SAdd(@, One)]>>, FALSE)
  \/ SetA(ST, "madds", <<>>, <<A, s>>, MAddS(A, s))
  \/ SetA(ST, "saddm", <<>>, <<s, A>>, MAddS(A, s))
  \/ SameShape /\ SetA(ST, "maddm", <<>>, <<A, B>>, MAdd(A, B))
  \/ SetA(ST, "maddm", <<"alias">>, <<A, A>>, MAdd(A, A))
  \/ SetA(ST, "mmuls", <<>>, <<A, s>>, MScale(A, s))
  \/ SetA(ST, "smulm", <<>>, <<s, A>>, MScale(A, s))
  \/ SameShape /\ SetA(ST, "mmulm", <<>>, <<A, B>>, MHad(A, B))
  \/ MNonZero(A) /\ Obs(ST, "sdivm", <<>>, <<s, A>>, "quot")
  \/ SameShape /\ MNonZero(B) /\ Obs(ST, "mdivm", <<>>, <<A, B>>, "quot")
  \/ SetA(ST, "mconj", <<>>, <<A>>, MConj(A))
  \/ SetA(ST, "mreal", <<>>, <<A>>, MMap(LAMBDA x : R(Re(x)), A))
  \/ SetA(ST, "mimag", <<>>, <<A>>, MMap(LAMBDA x : R(Im(x)), A))
  \/ SetA(ST, "transpose", <<>>, <<A>>, Transpose(A))
  \/ SetA(ST, "hermitian", <<>>, <<A>>, Hermitian(A))
  \/ \E i \in 1..Rows(A) : SetV(ST, "row", <<i - 1>>, <<A>>, Row(A, i))
  \/ \E j \in 1..Cols(A) : SetV(ST, "column", <<j - 1>>, <<A>>, Col(A, j))
  \/ Rows(A) = Rows(B) /\ Fits(1, Cols(A) + Cols(B)) /\
       Obs(ST, "horzcat", <<>>, <<A, B>>, HCat(A, B))
  \/ Rows(A) = Rows(B) /\ In(1, Cols(A) + Cols(B)) /\ Go(ST) /\ A' = HCat(A, B) /\ UNCHANGED <<B, v, s>>
  \/ Cols(A) = Cols(B) /\ Fits(Rows(A) + Rows(B), 1) /\
       Obs(ST, "vertcat", <<>>, <<A, B>>, VCat(A, B))
  \/ Cols(A) = Cols(B) /\ In(Rows(A) + Rows(B), 1) /\ Go(ST) /\ A' = VCat(A, B) /\ UNCHANGED <<B, v, s>>
  \/ \E p \in 1..Rows(A), q \in 1..Cols(A) : \E a \in 0..(Rows(A) - p), b \in 0..(Cols(A) - q) :
       SetA(ST, "submat", <<p, q, a, b>>, <<A>>, SubMat(A, a, b, p, q))
  \/ \E p \in 1..Rows(A), q \in 1..Cols(A) : \E a \in 0..(Rows(A) - p + 1), b \in 0..(Cols(A) - q + 1) :
       (a + p > Rows(A) \/ b + q > Cols(A)) /\ Obs(ST, "submatout", <<p, q, a, b>>, <<A>>, <<>>)    \* refused
  \/ \E p \in 1..CapDim, q \in 1..CapDim : p * q = Rows(A) * Cols(A) /\
       Obs(ST, "reshape", <<p, q>>, <<A>>, Reshape(A, p, q))
  \/ \E p \in 1..MaxDim, q \in 1..MaxDim : p * q = Rows(A) * Cols(A) /\ Go(ST) /\
       A' = Reshape(A, p, q) /\ UNCHANGED <<B, v, s>>
  \/ \E r \in 1..3, c \in 1..3 : Fits(r * Rows(A), c * Cols(A)) /\
       Obs(ST, "repmat", <<r, c>>, <<A>>, RepMat(A, r, c))
  \/ \E a \in 0..(Rows(A) - 1), b \in 0..(Rows(A) - 1) : SetA(ST, "swaprow", <<a, b>>, <<A>>, SwapRow(A, a, b))
  \/ \E a \in 0..(Cols(A) - 1), b \in 0..(Cols(A) - 1) : SetA(ST, "swapcol", <<a, b>>, <<A>>, SwapCol(A, a, b))
  \/ Obs(ST, "identity", <<Rows(A)>>, <<>>, Ident(Rows(A)))
  \/ SetA(ST, "mfill", <<Rows(A), Cols(A)>>, <<s>>, MFill(Rows(A), Cols(A), s))
  \/ Obs(ST, "mgen", <<Rows(A), Cols(A)>>, <<s>>,
         [i \in 1..Rows(A) |-> [j \in 1..Cols(A) |-> SAdd(s, R(10 * (i - 1) + (j - 1)))]])
  \/ MReal(A) /\ Obs(ST, "mcast", <<>>, <<A>>, A)
  \/ SameShape /\ Obs(ST, "melem", <<>>, <<A, B>>, MSub(MScale(A, R(2)), MScale(B, R(3))))
  \/ Obs(ST, "ascol", <<>>, <<v>>, AsCol(v))
  \/ Obs(ST, "asrow", <<>>, <<v>>, AsRow(v))
  \/ \E m \in 1..2, n \in 1..3 :
       LET X == SubMat(B, 0, 0, MinI(m, Rows(B)), MinI(n, Cols(B))) IN
         Fits(Rows(A) * Rows(X), Cols(A) * Cols(X)) /\ m = Rows(X) /\ n = Cols(X) /\
         Obs(ST, "kron", <<>>, <<A, X>>, Kron(A, X))
  \/ Go(ST) /\ A' = B /\ B' = A /\ UNCHANGED <<v, s>>

Prod ==
  \/ Cols(A) = Rows(B) /\ SetA(PR, "matmul", <<>>, <<A, B>>, MatMul(A, B))
  \/ Square /\ SetA(PR, "matmul", <<"alias">>, <<A, A>>, MatMul(A, A))
  \/ SetA(PR, "matmul", <<>>, <<A, Transpose(A)>>, MatMul(A, Transpose(A)))
  \/ SetA(PR, "matmul", <<>>, <<Ident(Rows(A)), A>>, A)
  \/ SetA(PR, "matmul", <<>>, <<A, Ident(Cols(A))>>, A)
  \/ Len(v) = Cols(A) /\ SetV(PR, "matvec", <<>>, <<A, v>>, MatVec(A, v))
  \/ Len(v) = Rows(A) /\ SetV(PR, "vecmat", <<>>, <<v, A>>, VecMat(v, A))
  \/ Obs(PR, "matvec", <<>>, <<B, B[1]>>, MatVec(B, B[1]))
  \/ Obs(PR, "vecmat", <<>>, <<Col(B, 1), B>>, VecMat(Col(B, 1), B))
  \/ Square /\ SetS(PR, "trace", <<>>, <<A>>, Trace(A))
  \/ MReal(A) /\ SetS(PR, "macs", <<>>, <<A>>, R(MaxColSum(A)))
  \/ MReal(A) /\ SetS(PR, "mars", <<>>, <<A>>, R(MaxRowSum(A)))
  \/ Rows(A) * Rows(B) <= CapDim /\ Cols(A) * Cols(B) <= CapDim /\
       Obs(PR, "kron", <<>>, <<A, B>>, Kron(A, B))
  \/ Go(PR) /\ A' = B /\ B' = A /\ UNCHANGED <<v, s>>
  \/ Go(PR) /\ A' = Transpose(A) /\ UNCHANGED <<B, v, s>>

Next == Struct \/ Prod
Spec == Init /\ [][Next]_vars
InBound == /\ \A M \in {A, B} : \A i \in 1..Rows(M), j \in 1..Cols(M) :
                 Abs(Re(M[i][j])) <= Bound /\ Abs(Im(M[i][j])) <= Bound
           /\ \A i \in 1..Len(v) : Abs(Re(v[i])) <= Bound /\ Abs(Im(v[i])) <= Bound
           /\ Abs(Re(s)) <= Bound /\ Abs(Im(s)) <= Bound

(* Laws stated by M01 and M02, checked in every reachable workspace.         *)
Smallish == \A M \in {A, B} : \A i \in 1..Rows(M), j \in 1..Cols(M) : Abs(Re(M[i][j])) <= 50 /\ Abs(Im(M[i][j])) <= 50
Laws == Smallish =>      \* larger entries would overflow TLC's integers in the triple products
  /\ Transpose(Transpose(A)) = A /\ Hermitian(Hermitian(A)) = A
  /\ Rows(A) >= 2 => /\ SwapRow(SwapRow(A, 0, 1), 0, 1) = A
                     /\ VCat(SubMat(A, 0, 0, 1, Cols(A)), SubMat(A, 1, 0, Rows(A) - 1, Cols(A))) = A
  /\ Cols(A) >= 2 => /\ SwapCol(SwapCol(A, 0, 1), 1, 0) = A
                     /\ HCat(SubMat(A, 0, 0, Rows(A), 1), SubMat(A, 0, 1, Rows(A), Cols(A) - 1)) = A
  /\ Reshape(Reshape(A, Rows(A) * Cols(A), 1), Rows(A), Cols(A)) = A
  /\ MatMul(A, Ident(Cols(A))) = A /\ MatMul(Ident(Rows(A)), A) = A
  /\ Cols(A) = Rows(B) =>
       LET P == MatMul(A, B) IN
       /\ Transpose(P) = MatMul(Transpose(B), Transpose(A))
       /\ MatMul(P, Transpose(P)) = MatMul(A, MatMul(B, Transpose(P)))     \* associativity
       /\ \A j \in 1..Cols(B) : Col(P, j) = MatVec(A, Col(B, j))
       /\ \A i \in 1..Rows(A) : Row(P, i) = VecMat(Row(A, i), B)
  /\ SameShape => LET T == Transpose(A) IN MatMul(MAdd(A, B), T) = MAdd(MatMul(A, T), MatMul(B, T))
==============================================================================
