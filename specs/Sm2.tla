---------------------------------- MODULE Sm2 ----------------------------------
(* GB/T 32918: SM2 signatures, encryption and key agreement, parameterised by  *)
(* the curve.                                                                  *)
EXTENDS Weier, Hashes

\* GB/T 32918.2: the nonce point of (r, s) for the key Q.
Sm2Nonce(C, Q, r, s) == Add(C, MulG(C, s), Mul(C, AddM(r, s, C.n), Q))
Sm2Valid(C, Q, e, r, s) ==
  /\ Q # Inf /\ OnCurve(C, Q)
  /\ InRange(C, r) /\ InRange(C, s)
  /\ ~(AddM(r, s, C.n) \doteq 0)
  /\ LET R == Sm2Nonce(C, Q, r, s)
     IN R # Inf /\ AddM(R[1], e, C.n) \doteq r
Sm2SignWith(C, d, e, k) ==
  LET R == MulG(C, k)
      r == AddM(e, R[1], C.n)
      s == MulM(InvM(1 ++ d, C.n), SubM(k, MulM(r, d, C.n), C.n), C.n)
  IN IF r \doteq 0 \/ AddM(r, k, C.n) \doteq 0 \/ s \doteq 0 THEN <<>> ELSE <<r, s, Bit(R[2], 0)>>

\* The identity digest of a key.
ZA(C, Q, id) ==
  SM3(BytesBE(8 * Len(id), 2) \o id \o BytesBE(C.a, 32) \o BytesBE(C.b, 32) \o XY(C.g) \o XY(Q))
IdOk(id) == Len(id) < 8192

\* The digest that is signed: the message itself when there is no identity.
\* hasId distinguishes an absent identity from an empty one.
Sm2E(C, Q, hasId, id, msg) == IF hasId THEN NatBE(SM3(ZA(C, Q, id) \o msg)) ELSE NatBE(msg)

Sm2VerifyBytes(C, pub, hasId, id, msg, sig) ==
  /\ Len(pub) = 64 /\ Len(msg) = 32 /\ Len(sig) = 64 /\ IdOk(id)
  /\ LET Q == FromXY(C, pub)
     IN /\ Q # <<>>
        /\ Sm2Valid(C, Q[1], Sm2E(C, Q[1], hasId, id, msg), NatBE(SubSeq(sig, 1, 32)), NatBE(SubSeq(sig, 33, 64)))

\* Keys that can sign: 1 + d must have an inverse.
Sm2Key(C, s) == LET d == Key(C, s) IN IF d = <<>> \/ d[1] ++ 1 \doteq C.n THEN <<>> ELSE d

Sm2SignedBytes(C, d, hasId, id, msg, sig, v) ==
  /\ Len(sig) = 64
  /\ LET Q == MulG(C, d) r == NatBE(SubSeq(sig, 1, 32)) s == NatBE(SubSeq(sig, 33, 64))
     IN /\ Sm2Valid(C, Q, Sm2E(C, Q, hasId, id, msg), r, s)
        /\ v = Bit(Sm2Nonce(C, Q, r, s)[2], 0)

\* k = s (1 + d) + r d
Sm2NonceOf(C, d, sig) ==
  LET r == NatBE(SubSeq(sig, 1, 32)) s == NatBE(SubSeq(sig, 33, 64))
  IN AddM(MulM(s, 1 ++ d, C.n), MulM(r, d, C.n), C.n)

Sm2RecoveredBytes(C, sig, e, pub) ==
  /\ Len(sig) = 65 /\ Len(e) = 32 /\ Len(pub) = 64 /\ sig[65] \in {0, 1}
  /\ Sm2VerifyBytes(C, pub, FALSE, <<>>, e, SubSeq(sig, 1, 64))
  /\ Bit(Sm2Nonce(C, FromXY(C, pub)[1], NatBE(SubSeq(sig, 1, 32)), NatBE(SubSeq(sig, 33, 64)))[2], 0) = sig[65]

---------------------------------------------------------------------------
\* The key derivation function: len bytes from z.
Kdf(z, len) ==
  SubSeq(FoldN(LAMBDA acc, i : acc \o SM3(z \o BytesBE(i, 4)), <<>>, 1, (len + 31) \div 32), 1, len)

XorBytes(s, t) == Strict([i \in 1 .. Len(s) |-> WXor(s[i], t[i])])
AllZero(s) == \A i \in 1 .. Len(s) : s[i] = 0

\* GB/T 32918.4.  The plaintext of a ciphertext 04||C1||C3||C2, as <<m>> or <<>>.
DecryptBytes(C, d, c) ==
  IF Len(c) < 98 \/ c[1] # 4 THEN <<>>
  ELSE LET C1 == FromXY(C, SubSeq(c, 2, 65))
           C3 == SubSeq(c, 66, 97)
           C2 == SubSeq(c, 98, Len(c))
       IN IF C1 = <<>> THEN <<>>
          ELSE LET S == Mul(C, d, C1[1])
                   t == Kdf(XY(S), Len(C2))
                   m == XorBytes(C2, t)
               IN IF AllZero(t) THEN <<>>
                  ELSE IF SM3(BytesBE(S[1], 32) \o m \o BytesBE(S[2], 32)) = C3 THEN <<m>> ELSE <<>>
\* The ciphertext of m under Q with the one-time scalar k.
EncryptWith(C, Q, m, k) ==
  LET S == Mul(C, k, Q)
      t == Kdf(XY(S), Len(m))
  IN IF AllZero(t) THEN <<>>
     ELSE <<4>> \o XY(MulG(C, k)) \o SM3(BytesBE(S[1], 32) \o m \o BytesBE(S[2], 32)) \o XorBytes(m, t)

---------------------------------------------------------------------------
(* GB/T 32918.3, from the point of view of one party: its static and its      *)
(* ephemeral scalar d, r with ephemeral point R, the peer's points P2, R2.    *)

XBar(x) == (Pow(2, 127) ++ (x %% Pow(2, 127)))
KaT(C, d, r, R) == AddM(d, MulM(XBar(R[1]), r, C.n), C.n)
KaShared(C, d, r, R, P2, R2) == Mul(C, KaT(C, d, r, R), Add(C, P2, Mul(C, XBar(R2[1]), R2)))
KaKey(U, zA, zB, len) == Kdf(XY(U) \o zA \o zB, len)
KaConfirm(tag, U, zA, zB, RA, RB) ==
  SM3(<<tag>> \o BytesBE(U[2], 32) \o SM3(BytesBE(U[1], 32) \o zA \o zB \o XY(RA) \o XY(RB)))
===============================================================================
