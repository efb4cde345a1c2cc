----------------------------- MODULE VecMachine -----------------------------
(* A workspace of vector registers u, v and a scalar s, with one action per  *)
(* vector operation of the library.  TLC explores every history up to Depth  *)
(* from every initial workspace; each step is exported and replayed.         *)
EXTENDS LinAlg
CONSTANTS MaxLen,      \* initial vector length 1..MaxLen
          CapLen,      \* longest vector an action may build
          Depth,       \* history length
          KeySet,      \* data sets for the pseudo-random initial workspaces
          Lo, Hi,      \* range of the pseudo-random entries
          Small,       \* alphabet of exhaustively enumerated entries
          SmallLen,    \* exhaustive up to this length
          Bound        \* registers beyond this magnitude are not explored further
VARIABLES u, v, s, h
vars == <<u, v, s, h>>

Data(k, o, n, cplx) == [i \in 1..n |-> <<Pick(k, o + 2 * i, Lo, Hi), IF cplx THEN Pick(k, o + 2 * i + 1, Lo, Hi) ELSE 0>>]
Init ==
  /\ h = 0
  /\ \/ \E k \in KeySet, n \in 1..MaxLen, m \in 1..MaxLen, c \in BOOLEAN :
          /\ n = m \/ (n + m + k) % 3 = 0
          /\ u = Data(100 * k + n, 0, n, c) /\ v = Data(100 * k + m, 50, m, c)
          /\ s = Data(100 * k + n, 90, 1, c)[1]
     \/ \E n \in 1..SmallLen : \E x \in [1..n -> Small], y \in [1..n -> Small], z \in Small :
          /\ z = y[1]
          /\ u = [i \in 1..n |-> R(x[i])] /\ v = [i \in 1..n |-> R(y[i])] /\ s = R(z)

Go == h < Depth /\ h' = h + 1
SetU(op, p, a, r) == Go /\ Emit(op, p, a, r) /\ u' = r /\ UNCHANGED <<v, s>>
SetS(op, p, a, r) == Go /\ Emit(op, p, a, r) /\ s' = r /\ UNCHANGED <<u, v>>
Obs(op, p, a, r) == Go /\ Emit(op, p, a, r) /\ UNCHANGED <<u, v, s>>
Same == Len(u) = Len(v)
AllReal == VReal(u) /\ VReal(v) /\ IsReal(s)
Exp2(z) == VScale(z, R(2))

Next ==
  \/ Obs("vget", <<>>, <<u>>, u)
  \/ Obs("veq", <<>>, <<u, u>>, TRUE)
  \/ Same /\ Obs("veq", <<>>, <<u, v>>, u = v)
  \/ \E i \in 1..Len(u) : Obs("veq", <<>>, <<u, [u EXCEPT ![i] = SAdd(@, One)]>>, FALSE)
  \/ SetU("vadds", <<>>, <<u, s>>, VAddS(u, s))
  \/ SetU("saddv", <<>>, <<s, u>>, VAddS(u, s))
  \/ Same /\ SetU("vaddv", <<>>, <<u, v>>, VAdd(u, v))
  \/ SetU("vaddv", <<"alias">>, <<u, u>>, VAdd(u, u))
  \/ SetU("vmuls", <<>>, <<u, s>>, VScale(u, s))
  \/ SetU("smulv", <<>>, <<s, u>>, VScale(u, s))
  \/ Same /\ SetU("vmulv", <<>>, <<u, v>>, VMul(u, v))
  \/ SetU("vmulv", <<"alias">>, <<u, u>>, VMul(u, u))
  \/ VNonZero(u) /\ Obs("sdivv", <<>>, <<s, u>>, "quot")
  \/ Same /\ VNonZero(v) /\ Obs("vdivv", <<>>, <<u, v>>, "quot")
  \/ VNonZero(u) /\ Obs("vdivv", <<"alias">>, <<u, u>>, "quot")
  \/ SetU("vconj", <<>>, <<u>>, VConj(u))
  \/ SetU("vreal", <<>>, <<u>>, VMap(LAMBDA x : R(Re(x)), u))
  \/ SetU("vimag", <<>>, <<u>>, VMap(LAMBDA x : R(Im(x)), u))
  \/ VReal(u) /\ SetU("vabs", <<>>, <<u>>, VMap(LAMBDA x : R(Abs(Re(x))), u))
  \/ Obs("vabs2", <<>>, <<u>>, VMap(LAMBDA x : R(Norm2(x)), u))        \* squared modulus
  \/ VReal(u) /\ Obs("vsqrt", <<>>, <<VMul(u, u)>>, VMap(LAMBDA x : R(Abs(Re(x))), u))
  \/ Same /\ SetS("vdot", <<>>, <<u, v>>, VDot(u, v))
  \/ SetS("vdot", <<"alias">>, <<u, u>>, VDot(u, u))
  \/ SetS("vsum", <<>>, <<u>>, VSum(u))
  \/ VReal(u) /\ SetS("vmin", <<>>, <<u>>, R(VMinR(u)))
  \/ VReal(u) /\ SetS("vmax", <<>>, <<u>>, R(VMaxR(u)))
  \/ VReal(u) /\ Obs("vminix", <<>>, <<u>>, VArg(u, VMinR(u)))
  \/ VReal(u) /\ Obs("vmaxix", <<>>, <<u>>, VArg(u, VMaxR(u)))
  \/ \E n \in 1..CapLen : n <= MaxLen /\ SetU("viota", <<n>>, <<s>>, VIota(n, s))
  \/ \E n \in 2..MaxLen :      \* n-1 steps of s starting at u[1]
        IsReal(s) /\ IsReal(u[1]) /\
        Obs("vlinspace", <<n>>, <<u[1], SAdd(u[1], VScale(<<s>>, R(n - 1))[1])>>,
            [i \in 1..n |-> SAdd(u[1], VScale(<<s>>, R(i - 1))[1])])
  \/ \E n \in 1..MaxLen : SetU("vfill", <<n>>, <<s>>, VFill(n, s))
  \/ \E n \in 1..MaxLen : Obs("vgen", <<n>>, <<s>>, [i \in 1..n |-> SAdd(s, R((i - 1) * (i - 1)))])
  \/ Len(u) + Len(v) <= CapLen /\ SetU("vconcat", <<>>, <<u, v>>, VConcat(u, v))
  \/ 2 * Len(u) <= CapLen /\ Obs("vconcat", <<>>, <<u, u>>, VConcat(u, u))
  \/ \E m \in 1..Len(u) : \E st \in 0..(Len(u) - m) : SetU("vslice", <<m, st>>, <<u>>, VSlice(u, st, m))
  \/ \E n \in ((-2 * Len(u) - 1)..(2 * Len(u) + 1)) \cup {-100003, 65537, 2147483600} : SetU("vrot", <<n>>, <<u>>, VRotate(u, n))
  \/ VReal(u) /\ Obs("vcast", <<>>, <<u>>, u)
  \/ Same /\ Obs("velem", <<>>, <<u, v>>,
                 [i \in 1..Len(u) |-> SSub(VScale(<<u[i]>>, R(2))[1], VScale(<<v[i]>>, R(3))[1])])
  \/ Obs("vaccum", <<>>, <<u, s>>,                                      \* r := 2 r + x, left to right
         LET f[i \in 0..Len(u)] == IF i = 0 THEN s ELSE SAdd(SMul(R(2), f[i - 1]), u[i]) IN f[Len(u)])
  \/ Obs("vmake", <<>>, <<u>>, u)
  \/ Go /\ u' = v /\ v' = u /\ s' = s                                    \* exchange registers (no call)
  \/ Go /\ v' = VScale(u, s) /\ UNCHANGED <<u, s>>

Spec == Init /\ [][Next]_vars
InBound == \A r \in {u, v, <<s>>} : \A i \in 1..Len(r) : Abs(Re(r[i])) <= Bound /\ Abs(Im(r[i])) <= Bound

(* Laws the vector operations must satisfy in every reachable workspace.     *)
Laws == InBound =>
  /\ VRotate(VRotate(u, 1), -1) = u /\ VRotate(u, Len(u)) = u
  /\ VSlice(VConcat(u, v), 0, Len(u)) = u /\ VSlice(VConcat(u, v), Len(u), Len(v)) = v
  /\ Same => /\ VAdd(u, v) = VAdd(v, u) /\ VSum(VAdd(u, v)) = SAdd(VSum(u), VSum(v))
             /\ VDot(u, v) = SConj(VDot(v, u))
             /\ VScale(VAdd(u, v), s) = VAdd(VScale(u, s), VScale(v, s))
  /\ VConj(VConj(u)) = u
  /\ VReal(u) => /\ Re(u[VArg(u, VMinR(u)) + 1]) = VMinR(u)
                 /\ \A i \in 1..Len(u) : VMinR(u) <= Re(u[i]) /\ Re(u[i]) <= VMaxR(u)
                 /\ Re(VDot(u, u)) >= 0
==============================================================================
