---------------------------------- MODULE Bls ----------------------------------
(***************************************************************************)
(* BLS signatures with public keys in G1 and signatures in G2.  A system is*)
(* a record [p, r, w, b, b2, g]: G1 is the subgroup of order r (prime) of  *)
(* y^2 = x^3 + b over GF(p), generated by g, G2 that of y^2 = x^3 + b2     *)
(* over GF(p^2) = GF(p)(i), p = 3 mod 4, i^2 = -1; numbers are encoded in  *)
(* w bytes whose first three bits are free.                                *)
(***************************************************************************)
EXTENDS Weier, Hashes

\* GF(p^2): <<c0, c1>> is c0 + c1 i.
FZero == <<0, 0>>
FOne == <<1, 0>>
FEq(a, b) == a[1] \doteq b[1] /\ a[2] \doteq b[2]
FIsZero(a) == a[1] \doteq 0 /\ a[2] \doteq 0
FAdd(p, a, b) == Strict(<<AddM(a[1], b[1], p), AddM(a[2], b[2], p)>>)
FSub(p, a, b) == Strict(<<SubM(a[1], b[1], p), SubM(a[2], b[2], p)>>)
FNeg(p, a) == Strict(<<NegM(a[1], p), NegM(a[2], p)>>)
FMul(p, a, b) ==
  Strict(<<SubM(MulM(a[1], b[1], p), MulM(a[2], b[2], p), p), AddM(MulM(a[1], b[2], p), MulM(a[2], b[1], p), p)>>)
FSqr(p, a) == FMul(p, a, a)
FNorm(p, a) == AddM(MulM(a[1], a[1], p), MulM(a[2], a[2], p), p)
FInv(p, a) ==        \* 1/0 = 0
  LET t == Strict(<<InvM(FNorm(p, a), p)>>)[1] IN Strict(<<MulM(a[1], t, p), NegM(MulM(a[2], t, p), p)>>)
IsSquare(p, x) == ~(SqrtM(x, p) \doteq -1)
FIsSquare(p, a) == IsSquare(p, FNorm(p, a))
\* A square root: <<v>>, or <<>>.
FSqrt(p, a) ==
  IF a[2] \doteq 0
  THEN LET s == SqrtM(a[1], p) IN IF s \doteq -1 THEN << <<0, SqrtM(NegM(a[1], p), p)>> >> ELSE << <<s, 0>> >>
  ELSE LET s == SqrtM(FNorm(p, a), p) IN
       IF s \doteq -1 THEN <<>>
       ELSE LET half == InvM(2, p)
                t1 == MulM(AddM(a[1], s, p), half, p)
                x0 == IF IsSquare(p, t1) THEN SqrtM(t1, p) ELSE SqrtM(MulM(SubM(a[1], s, p), half, p), p)
            IN << Strict(<<x0, MulM(a[2], InvM(MulM(2, x0, p), p), p)>>) >>
\* The sign of RFC 9380, and "the larger of y and -y".
FSgn0(a) == IF a[1] \doteq 0 THEN Bit(a[2], 0) ELSE Bit(a[1], 0)
Larger(p, x) == IF (p -- 1) \prec (2 ** x) THEN 1 ELSE 0
FLarger(p, a) == IF a[2] \doteq 0 THEN Larger(p, a[1]) ELSE Larger(p, a[2])

---------------------------------------------------------------------------
(* The curve over GF(p^2), y^2 = x^3 + a x + b; G2 has a = 0. *)

G2Rhs(p, a, b, x) == FAdd(p, FMul(p, x, FAdd(p, FSqr(p, x), a)), b)
G2On(p, a, b, P) == P = Inf \/ FEq(FSqr(p, P[2]), G2Rhs(p, a, b, P[1]))
G2Eq(P, Q) == IF P = Inf \/ Q = Inf THEN Len(P) = Len(Q) ELSE FEq(P[1], Q[1]) /\ FEq(P[2], Q[2])
G2Neg(p, P) == IF P = Inf THEN Inf ELSE <<P[1], FNeg(p, P[2])>>
G2Chord(p, P, Q, m) ==
  LET x == FSub(p, FSub(p, FSqr(p, m), P[1]), Q[1])
  IN Strict(<<x, FSub(p, FMul(p, m, FSub(p, P[1], x)), P[2])>>)
G2DblA(p, a, P) ==
  IF P = Inf \/ FIsZero(P[2]) THEN Inf
  ELSE LET xx == FSqr(p, P[1])
       IN G2Chord(p, P, P, FMul(p, FAdd(p, FAdd(p, FAdd(p, xx, xx), xx), a), FInv(p, FAdd(p, P[2], P[2]))))
G2AddA(p, a, P, Q) ==
  IF P = Inf THEN Q ELSE IF Q = Inf THEN P
  ELSE IF FEq(P[1], Q[1]) THEN IF FEq(P[2], Q[2]) THEN G2DblA(p, a, P) ELSE Inf
  ELSE G2Chord(p, P, Q, FMul(p, FSub(p, Q[2], P[2]), FInv(p, FSub(p, Q[1], P[1]))))
G2Add(p, P, Q) == G2AddA(p, FZero, P, Q)
G2Mul(p, k, P) ==
  Fold(LAMBDA acc, bit : LET d == G2DblA(p, FZero, acc) IN IF bit = 1 THEN G2Add(p, d, P) ELSE d, Inf, BitsBE(k))

---------------------------------------------------------------------------
(* Encodings: flags compressed, infinity, larger y in the first three bits.*)

G1Curve(E) == [p |-> E.p, a |-> 0, b |-> E.b, n |-> E.r, g |-> E.g]
Flag(s, f) == [s EXCEPT ![1] = s[1] + f]
G1Enc(E, P) == IF P = Inf THEN Flag(Zeros(E.w), 192) ELSE Flag(BytesBE(P[1], E.w), 128 + 32 * Larger(E.p, P[2]))
G2Enc(E, P) ==
  IF P = Inf THEN Flag(Zeros(2 * E.w), 192)
  ELSE Flag(BytesBE(P[1][2], E.w) \o BytesBE(P[1][1], E.w), 128 + 32 * FLarger(E.p, P[2]))
Unflagged(s) == [s EXCEPT ![1] = s[1] % 32]
\* <<P>> for the encoding of a point of the subgroup, <<>> otherwise.
G1Dec(E, s) ==
  IF Len(s) # E.w \/ s[1] < 128 THEN <<>>
  ELSE IF s[1] >= 192 THEN IF s = Flag(Zeros(E.w), 192) THEN <<Inf>> ELSE <<>>
  ELSE LET x == NatBE(Unflagged(s))
           y == IF x \prec E.p THEN SqrtM(Rhs(G1Curve(E), x), E.p) ELSE -1
       IN IF y \doteq -1 THEN <<>>
          ELSE LET P == <<x, IF Larger(E.p, y) = (s[1] \div 32) % 2 THEN y ELSE NegM(y, E.p)>>
               IN IF Mul(G1Curve(E), E.r, P) = Inf THEN <<P>> ELSE <<>>
G2Dec(E, s) ==
  IF Len(s) # 2 * E.w \/ s[1] < 128 THEN <<>>
  ELSE IF s[1] >= 192 THEN IF s = Flag(Zeros(2 * E.w), 192) THEN <<Inf>> ELSE <<>>
  ELSE LET u == Unflagged(s)
           x == <<NatBE(SubSeq(u, E.w + 1, 2 * E.w)), NatBE(SubSeq(u, 1, E.w))>>
           ok == x[1] \prec E.p /\ x[2] \prec E.p
           y == IF ok THEN FSqrt(E.p, G2Rhs(E.p, FZero, E.b2, x)) ELSE <<>>
       IN IF y = <<>> THEN <<>>
          ELSE LET P == <<x, IF FLarger(E.p, y[1]) = (s[1] \div 32) % 2 THEN y[1] ELSE FNeg(E.p, y[1])>>
               IN IF G2Mul(E.p, E.r, P) = Inf THEN <<P>> ELSE <<>>

---------------------------------------------------------------------------
(* The scheme, for a hash H into G2. *)

BlsPub(E, sk) == G1Enc(E, MulG(G1Curve(E), sk))
BlsSig(E, sk, H) == G2Mul(E.p, sk, H)
\* With sk the private key of pub.
BlsAccepts(E, sk, pub, H, sig) ==
  LET P == G1Dec(E, pub) S == G2Dec(E, sig)
  IN P # <<>> /\ P[1] # Inf /\ S # <<>> /\ G2Eq(S[1], BlsSig(E, sk, H))
\* The sum of the encoded signatures: <<S>>, or <<>>.
BlsSum(E, sigs) ==
  IF sigs = <<>> THEN <<>>
  ELSE Fold(LAMBDA acc, s : IF acc = <<>> THEN acc
                            ELSE LET S == G2Dec(E, s) IN IF S = <<>> THEN <<>> ELSE <<G2Add(E.p, acc[1], S[1])>>,
            <<Inf>>, sigs)
===============================================================================
