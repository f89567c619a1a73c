--------------------------------- MODULE Weier ---------------------------------
(***************************************************************************)
(* Curves y^2 = x^3 + a x + b over a prime field, with the affine group    *)
(* law.  A curve is a record [p, a, b, n, g]: prime, coefficients, group   *)
(* order (prime) and generator.  A point is <<x, y>>; <<>> is infinity.    *)
(***************************************************************************)
EXTENDS Bytes

Inf == <<>>

Rhs(C, x) == AddM(AddM(MulM(MulM(x, x, C.p), x, C.p), MulM(C.a, x, C.p), C.p), C.b, C.p)
OnCurve(C, P) ==
  \/ P = Inf
  \/ /\ P[1] \prec C.p /\ P[2] \prec C.p
     /\ MulM(P[2], P[2], C.p) \doteq Rhs(C, P[1])

PtEq(P, Q) == IF P = Inf \/ Q = Inf THEN Len(P) = Len(Q) ELSE P[1] \doteq Q[1] /\ P[2] \doteq Q[2]

Neg(C, P) == IF P = Inf THEN Inf ELSE <<P[1], NegM(P[2], C.p)>>

Chord(C, P, Q, m) ==
  LET x == SubM(SubM(MulM(m, m, C.p), P[1], C.p), Q[1], C.p)
  IN Strict(<<x, SubM(MulM(m, SubM(P[1], x, C.p), C.p), P[2], C.p)>>)
Dbl(C, P) ==
  IF P = Inf \/ P[2] \doteq 0 THEN Inf
  ELSE Chord(C, P, P, MulM(AddM(MulM(3, MulM(P[1], P[1], C.p), C.p), C.a, C.p),
                           InvM(MulM(2, P[2], C.p), C.p), C.p))
Add(C, P, Q) ==
  IF P = Inf THEN Q
  ELSE IF Q = Inf THEN P
  ELSE IF P[1] \doteq Q[1]
       THEN IF P[2] \doteq Q[2] THEN Dbl(C, P) ELSE Inf
       ELSE Chord(C, P, Q, MulM(SubM(Q[2], P[2], C.p), InvM(SubM(Q[1], P[1], C.p), C.p), C.p))
Mul(C, k, P) ==
  Fold(LAMBDA acc, bit : LET d == Dbl(C, acc) IN IF bit = 1 THEN Add(C, d, P) ELSE d,
       Inf, BitsBE(k))
MulG(C, k) == Mul(C, k, C.g)

---------------------------------------------------------------------------
(* Encodings.  An optional value is <<v>>, or <<>> for none.               *)

XY(P) == BytesBE(P[1], 32) \o BytesBE(P[2], 32)            \* 64 bytes
Full(P) == <<4>> \o XY(P)                                  \* 65 bytes
Comp(P) == <<2 + Bit(P[2], 0)>> \o BytesBE(P[1], 32)       \* 33 bytes

LiftX(C, x, parity) ==
  IF ~(x \prec C.p) THEN <<>>
  ELSE LET y == SqrtM(Rhs(C, x), C.p)
       IN IF y \doteq -1 THEN <<>>
          ELSE IF Bit(y, 0) = parity THEN << <<x, y>> >>
          ELSE IF y \doteq 0 THEN <<>>
          ELSE << <<x, C.p -- y>> >>

FromXY(C, s) ==
  IF Len(s) # 64 THEN <<>>
  ELSE LET P == <<NatBE(SubSeq(s, 1, 32)), NatBE(SubSeq(s, 33, 64))>>
       IN IF OnCurve(C, P) THEN <<P>> ELSE <<>>
FromComp(C, s) ==
  IF Len(s) # 33 \/ s[1] \notin {2, 3} THEN <<>>
  ELSE LiftX(C, NatBE(Tail(s)), s[1] - 2)
\* Any of the three forms.
FromAny(C, s) ==
  IF Len(s) = 64 THEN FromXY(C, s)
  ELSE IF Len(s) = 65 /\ s[1] = 4 THEN FromXY(C, Tail(s))
  ELSE FromComp(C, s)

InRange(C, k) == ~(k \doteq 0) /\ k \prec C.n
\* A private key: <<d>>, or <<>> when the bytes are not one.
Key(C, s) == IF Len(s) = 32 /\ InRange(C, NatBE(s)) THEN <<NatBE(s)>> ELSE <<>>
===============================================================================
