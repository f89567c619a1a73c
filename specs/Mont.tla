----------------------------------- MODULE Mont -----------------------------------
(***************************************************************************)
(* x-only arithmetic on a Montgomery curve and its twist: the points of    *)
(* B v^2 = u^3 + A u^2 + u for B = 1 and for B = 2, which is not a square  *)
(* (p = 5 mod 8).  Every u belongs to one of them.                         *)
(***************************************************************************)
EXTENDS Edwards

TwChord(E, Bc, P, Q, m) ==
  LET u == SubM(SubM(SubM(MulM(Bc, MulM(m, m, E.p), E.p), E.A, E.p), P[1], E.p), Q[1], E.p)
  IN Strict(<<u, SubM(MulM(m, SubM(P[1], u, E.p), E.p), P[2], E.p)>>)
TwDbl(E, Bc, P) ==
  IF P = <<>> \/ P[2] \doteq 0 THEN <<>>
  ELSE TwChord(E, Bc, P, P,
         MulM(AddM(AddM(MulM(3, MulM(P[1], P[1], E.p), E.p), MulM(MulM(2, E.A, E.p), P[1], E.p), E.p), 1, E.p),
              InvM(MulM(MulM(2, Bc, E.p), P[2], E.p), E.p), E.p))
TwAdd(E, Bc, P, Q) ==
  IF P = <<>> THEN Q ELSE IF Q = <<>> THEN P
  ELSE IF P[1] \doteq Q[1] THEN IF P[2] \doteq Q[2] THEN TwDbl(E, Bc, P) ELSE <<>>
  ELSE TwChord(E, Bc, P, Q, MulM(SubM(Q[2], P[2], E.p), InvM(SubM(Q[1], P[1], E.p), E.p), E.p))
\* The u coordinate of k times a point with the coordinate u (0 for infinity).
UMul(E, k, u) ==
  LET w == SqrtM(MRhs(E, u), E.p)
      Bc == IF w \doteq -1 THEN 2 ELSE 1
      P == <<u, IF w \doteq -1 THEN SqrtM(MulM(MRhs(E, u), InvM(2, E.p), E.p), E.p) ELSE w>>
  IN UOf(Fold(LAMBDA acc, bit : LET q == TwDbl(E, Bc, acc) IN IF bit = 1 THEN TwAdd(E, Bc, q, P) ELSE q, <<>>, BitsBE(k)))
===============================================================================
