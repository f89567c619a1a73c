-------------------------------- MODULE Edwards --------------------------------
(***************************************************************************)
(* Twisted Edwards curves -x^2 + y^2 = 1 + d x^2 y^2 with p = 5 mod 8 and  *)
(* d not a square, on which the addition law has no exceptions, and their  *)
(* Montgomery forms v^2 = u^3 + A u^2 + u.  A curve is a record            *)
(* [p, d, n, b, A, gu, gv]: n is the prime order of the base point b,      *)
(* (gu, gv) the base point of the Montgomery form.                         *)
(***************************************************************************)
EXTENDS Bytes

EId == <<0, 1>>
EEq(P, Q) == P[1] \doteq Q[1] /\ P[2] \doteq Q[2]
EOn(E, P) ==
  LET xx == MulM(P[1], P[1], E.p) yy == MulM(P[2], P[2], E.p)
  IN /\ P[1] \prec E.p /\ P[2] \prec E.p
     /\ SubM(yy, xx, E.p) \doteq AddM(1, MulM(E.d, MulM(xx, yy, E.p), E.p), E.p)
ENeg(E, P) == <<NegM(P[1], E.p), P[2]>>
EAdd(E, P, Q) ==
  LET a == MulM(P[1], Q[2], E.p) b == MulM(P[2], Q[1], E.p)
      c == MulM(P[1], Q[1], E.p) f == MulM(P[2], Q[2], E.p)
      t == MulM(E.d, MulM(a, b, E.p), E.p)
  IN Strict(<<MulM(AddM(a, b, E.p), InvM(AddM(1, t, E.p), E.p), E.p),
              MulM(AddM(c, f, E.p), InvM(SubM(1, t, E.p), E.p), E.p)>>)
EMul(E, k, P) ==
  Fold(LAMBDA acc, bit : LET q == EAdd(E, acc, acc) IN IF bit = 1 THEN EAdd(E, q, P) ELSE q, EId, BitsBE(k))
EMulB(E, k) == EMul(E, k, E.b)

\* 32 bytes: y little-endian, the parity of x in the top bit.
Low255(s) == [s EXCEPT ![32] = s[32] % 128]
TopBit(s) == s[32] \div 128
SetTop(s, bit) == [s EXCEPT ![32] = (s[32] % 128) + 128 * bit]
EEnc(P) == SetTop(BytesLE(P[2], 32), Bit(P[1], 0))

\* The point with the given y and parity of x.  zeroOk: whether x = 0 may have
\* the parity 1 (RFC 8032 says no).
ELift(E, y, parity, zeroOk) ==
  LET yy == MulM(y, y, E.p)
      x == SqrtM(MulM(SubM(yy, 1, E.p), InvM(AddM(MulM(E.d, yy, E.p), 1, E.p), E.p), E.p), E.p)
  IN IF x \doteq -1 THEN <<>>
     ELSE IF x \doteq 0 THEN IF parity = 0 \/ zeroOk THEN << <<0, y>> >> ELSE <<>>
     ELSE IF Bit(x, 0) = parity THEN << <<x, y>> >>
     ELSE << <<NegM(x, E.p), y>> >>
EDec(E, s) ==
  IF Len(s) # 32 THEN <<>>
  ELSE LET y == NatLE(Low255(s))
       IN IF y \prec E.p THEN ELift(E, y, TopBit(s), FALSE) ELSE <<>>

---------------------------------------------------------------------------
(* The birational map, with the convention 1/0 = 0. *)
YtoU(E, y) == MulM(AddM(1, y, E.p), InvM(SubM(1, y, E.p), E.p), E.p)
UtoY(E, u) == MulM(SubM(u, 1, E.p), InvM(AddM(u, 1, E.p), E.p), E.p)

---------------------------------------------------------------------------
(* The Montgomery form; a point is <<u, v>> or <<>>. *)

MRhs(E, u) == AddM(MulM(u, MulM(u, u, E.p), E.p), AddM(MulM(E.A, MulM(u, u, E.p), E.p), u, E.p), E.p)
MOn(E, P) == P = <<>> \/ MulM(P[2], P[2], E.p) \doteq MRhs(E, P[1])
MNeg(E, P) == IF P = <<>> THEN P ELSE <<P[1], NegM(P[2], E.p)>>
MChord(E, P, Q, m) ==
  LET u == SubM(SubM(SubM(MulM(m, m, E.p), E.A, E.p), P[1], E.p), Q[1], E.p)
  IN Strict(<<u, SubM(MulM(m, SubM(P[1], u, E.p), E.p), P[2], E.p)>>)
MDbl(E, P) ==
  IF P = <<>> \/ P[2] \doteq 0 THEN <<>>
  ELSE MChord(E, P, P, MulM(AddM(AddM(MulM(3, MulM(P[1], P[1], E.p), E.p), MulM(MulM(2, E.A, E.p), P[1], E.p), E.p), 1, E.p),
                            InvM(MulM(2, P[2], E.p), E.p), E.p))
MAdd(E, P, Q) ==
  IF P = <<>> THEN Q ELSE IF Q = <<>> THEN P
  ELSE IF P[1] \doteq Q[1] THEN IF P[2] \doteq Q[2] THEN MDbl(E, P) ELSE <<>>
  ELSE MChord(E, P, Q, MulM(SubM(Q[2], P[2], E.p), InvM(SubM(Q[1], P[1], E.p), E.p), E.p))
MMul(E, k, P) ==
  Fold(LAMBDA acc, bit : LET q == MDbl(E, acc) IN IF bit = 1 THEN MAdd(E, q, P) ELSE q, <<>>, BitsBE(k))
MBase(E) == <<E.gu, E.gv>>
\* u of a point; infinity has u = 0, as in X25519.
UOf(P) == IF P = <<>> THEN 0 ELSE P[1]
\* The point of a given u whose v is even: <<P>>, or <<>> for u of the twist.
MAbs(E, u) ==
  LET v == SqrtM(MRhs(E, u), E.p)
  IN IF v \doteq -1 THEN <<>> ELSE IF Bit(v, 0) = 0 THEN << <<u, v>> >> ELSE << <<u, NegM(v, E.p)>> >>
===============================================================================
