----------------------------------- MODULE MEd -----------------------------------
(***************************************************************************)
(* Design model of the Curve25519 family on small curves with cofactor 8:  *)
(* every history of group operations, starting from every point (torsion   *)
(* included), stays on the curve and equals its logarithm; encodings are   *)
(* inverse to each other; the birational map commutes with the group; each *)
(* scheme's verifier accepts what its signer makes and, for every key and  *)
(* every presented S, exactly what satisfies the equation.                 *)
(***************************************************************************)
EXTENDS Ed25519, FiniteSets, TLC

Toys == << [p |-> 37, d |-> 20, n |-> 5, b |-> <<8, 14>>, A |-> 7, gu |-> 33, gv |-> 28],
           [p |-> 53, d |-> 39, n |-> 7, b |-> <<11, 14>>, A |-> 14, gu |-> 7, gv |-> 20] >>
PtsOf(p, d) == {P \in (0 .. p - 1) \X (0 .. p - 1) : EOn([p |-> p, d |-> d], P)}
Pts == <<PtsOf(37, 20), PtsOf(53, 39)>>

VARIABLES c, P, k, T      \* P = k B + T, T a point of order dividing 8
E == Toys[c]
Torsion(F) == {Q \in PtsOf(F.p, F.d) : EEq(EMul(F, 8, Q), EId)}
Init == c \in 1 .. 2 /\ k = 0 /\ T \in Torsion(Toys[c]) /\ P = T
Next ==
  /\ c' = c
  /\ \/ P' = EAdd(E, P, E.b) /\ k' = (k + 1) % E.n /\ T' = T
     \/ P' = EAdd(E, P, P) /\ k' = (2 * k) % E.n /\ T' = EAdd(E, T, T)
     \/ P' = ENeg(E, P) /\ k' = (E.n - k) % E.n /\ T' = ENeg(E, T)
     \/ \E m \in 0 .. 17 : P' = EMul(E, m, P) /\ k' = (m * k) % E.n /\ T' = EMul(E, m, T)
Spec == Init /\ [][Next]_<<c, P, k, T>>

Group == EOn(E, P) /\ EEq(P, EAdd(E, EMulB(E, k), T))
Encoding == EDec(E, EEnc(P)) = <<P>>
NoOther == \A Q \in Pts[c] : EEnc(Q) = EEnc(P) => Q = P
Complete == \A Q \in Pts[c] : EOn(E, EAdd(E, P, Q)) /\ EAdd(E, P, Q) = EAdd(E, Q, P)
\* u of kB on one form is u of kG on the other.
Birational == k # 0 /\ T = EId => YtoU(E, P[2]) = UOf(MMul(E, k, MBase(E)))
RoundTrip == P[2] # 1 => UtoY(E, YtoU(E, P[2])) = P[2]
\* Signatures: k is the key, any S presented.
Key32 == BytesLE(k, 32)
Msg == <<k, T[1], T[2]>>
EdSound ==
  (k # 0 /\ T = EId) =>
    LET A == EMulB(E, k) pub == EEnc(A) IN
    \A r \in 0 .. E.n - 1 :
      LET R == EEnc(EMulB(E, r))
          h == HashL(E, R \o pub \o Msg)
          S == AddM(r, MulM(h, k, E.n), E.n)
      IN /\ EdVerify(E, pub, Msg, R \o BytesLE(S, 32)) /\ RawSigned(E, Key32, Msg, R \o BytesLE(S, 32))
         /\ RawNonce(E, Key32, pub, Msg, R, S) = r
         /\ \A s \in 0 .. 2 * E.n : EdVerify(E, pub, Msg, R \o BytesLE(s, 32)) <=> s = S
XSound ==
  (k # 0 /\ T = EId) =>
    LET A == EMulB(E, k) u == XPub(E, Key32) IN
    \A r \in 0 .. E.n - 1 :
      LET R == EEnc(EMulB(E, r))
          S == AddM(r, MulM(HashL(E, R \o EEnc(A) \o Msg), k, E.n), E.n)
          sig == R \o SetTop(BytesLE(S, 32), Bit(A[1], 0))
      IN XSigned(E, Key32, Msg, sig) /\ XVerify(E, u, Msg, sig)
\* EC-KCDSA: v abs(P) + h G = x G for the s and v of the signer.
KSound ==
  (k # 0 /\ T = EId) =>
    LET Pk == MMul(E, k, MBase(E)) s == KInverse(E, k) IN
    \A x, h \in 0 .. E.n - 1 :
      LET v == MulM(SubM(x, h, E.n), s, E.n)
      IN /\ UOf(MAdd(E, MMul(E, v, MAbs(E, Pk[1])[1]), MMul(E, h, MBase(E)))) = UOf(MMul(E, x, MBase(E)))
         /\ MMul(E, s, MAbs(E, Pk[1])[1]) = MBase(E)
ASSUME \A i \in 1 .. 2 : Cardinality(PtsOf(Toys[i].p, Toys[i].d)) = 8 * Toys[i].n /\ Cardinality(Torsion(Toys[i])) = 8
===============================================================================
