-------------------------------- MODULE Ed25519 --------------------------------
(***************************************************************************)
(* The four signature schemes over Curve25519 and their parameters: Ed25519*)
(* (RFC 8032), the same with raw scalars as keys, signatures under X25519  *)
(* keys, and EC-KCDSA with SHA-256.  The schemes are parameterised by the  *)
(* curve.                                                                  *)
(***************************************************************************)
EXTENDS Edwards, Hashes

C25519 == [p |-> HexNat("7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed"),
           d |-> HexNat("52036cee2b6ffe738cc740797779e89800700a4d4141d8ab75eb4dca135978a3"),
           n |-> HexNat("1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed"),
           b |-> <<HexNat("216936d3cd6e53fec0a4e231fdd6dc5c692cc7609525a7b2c9562d608f25d51a"),
                   HexNat("6666666666666666666666666666666666666666666666666666666666666658")>>,
           A |-> 486662, gu |-> 9,
           gv |-> HexNat("5f51e65e475f794b1fe122d388b72eb36dc2b28192839e4dd6163a5d81312c14")]
ASSUME /\ EOn(C25519, C25519.b) /\ EEq(EMulB(C25519, C25519.n), EId)
       /\ MOn(C25519, MBase(C25519)) /\ MMul(C25519, C25519.n, MBase(C25519)) = <<>>
       /\ YtoU(C25519, C25519.b[2]) \doteq 9

Clamp(s) == [s EXCEPT ![1] = s[1] - (s[1] % 8), ![32] = (s[32] % 64) + 64]
First32(s) == SubSeq(s, 1, 32)
Last32(s) == SubSeq(s, 33, 64)

HashL(E, s) == NatLE(SHA512(s)) %% E.n
\* S B - h A, what R must be.
EdR(E, S, h, A) == EAdd(E, EMulB(E, S), ENeg(E, EMul(E, h, A)))
\* The signature equation of RFC 8032 (cofactorless), for the encoding pub of A.
EdValid(E, A, pub, msg, R, S) ==
  S \prec E.n /\ EEnc(EdR(E, S, HashL(E, R \o pub \o msg), A)) = R
EdVerify(E, pub, msg, sig) ==
  /\ Len(sig) = 64
  /\ LET A == EDec(E, pub) IN A # <<>> /\ EdValid(E, A[1], pub, msg, First32(sig), NatLE(Last32(sig)))

\* RFC 8032.
EdSeedScalar(seed) == NatLE(Clamp(First32(SHA512(seed))))
EdSeedPub(E, seed) == EEnc(EMulB(E, EdSeedScalar(seed)))
EdSeedSign(E, seed, msg) ==
  LET a == EdSeedScalar(seed)
      pub == EdSeedPub(E, seed)
      r == HashL(E, Last32(SHA512(seed)) \o msg)
      R == EEnc(EMulB(E, r))
      h == HashL(E, R \o pub \o msg)
  IN R \o BytesLE(AddM(r, MulM(h, a, E.n), E.n), 32)

\* Raw scalars.
RawPub(E, k) == EEnc(EMulB(E, NatLE(k) %% E.n))
RawSigned(E, k, msg, sig) == Len(sig) = 64 /\ LET A == EMulB(E, NatLE(k) %% E.n) IN EdValid(E, A, EEnc(A), msg, First32(sig), NatLE(Last32(sig)))
\* The nonce of a signature made with k.
RawNonce(E, k, pub, msg, R, S) == SubM(S, MulM(HashL(E, R \o pub \o msg), NatLE(k) %% E.n, E.n), E.n)

\* X25519 keys: the sign of A travels in the top bit of the signature.
XPub(E, k) == BytesLE(YtoU(E, EMulB(E, NatLE(k) %% E.n)[2]), 32)
XSigned(E, k, msg, sig) ==
  /\ Len(sig) = 64
  /\ LET A == EMulB(E, NatLE(k) %% E.n) s == Last32(sig)
     IN TopBit(s) = Bit(A[1], 0) /\ EdValid(E, A, EEnc(A), msg, First32(sig), NatLE(Low255(s)))
XVerify(E, u, msg, sig) ==
  /\ Len(sig) = 64 /\ Len(u) = 32
  /\ LET s == Last32(sig)
         y == UtoY(E, NatLE(Low255(u)) %% E.p)
         A == ELift(E, y, TopBit(s), TRUE)
     IN A # <<>> /\ EdValid(E, A[1], SetTop(BytesLE(y, 32), TopBit(s)), msg, First32(sig), NatLE(Low255(s)))

---------------------------------------------------------------------------
(* EC-KCDSA. *)
KClamp(k) == Clamp(k)
KPub(E, k) == BytesLE(UOf(MMul(E, NatLE(KClamp(k)), MBase(E))), 32)
\* The scalar s with s abs(P) = G, for P = a G.
KInverse(E, a) ==
  LET P == MMul(E, a, MBase(E)) IN InvM((IF Bit(P[2], 0) = 0 THEN a ELSE NegM(a, E.n)) %% E.n, E.n)
KSign(E, k, msg) ==
  LET s == KInverse(E, NatLE(KClamp(k)))
      m == SHA256(msg)
      x == Clamp(SHA256(m \o BytesLE(s, 32)))
      h == SHA256(m \o KPub(E, x))
      v == MulM(SubM(NatLE(x), NatLE(h), E.n), s, E.n)
  IN BytesLE(v, 32) \o h
KVerify(E, pub, msg, sig) ==
  /\ Len(pub) = 32 /\ Len(sig) = 64
  /\ NatLE(pub) \prec E.p /\ NatLE(First32(sig)) \prec E.n
  /\ LET P == MAbs(E, NatLE(pub))
     IN /\ P # <<>>
        /\ LET Y == UOf(MAdd(E, MMul(E, NatLE(First32(sig)), P[1]), MMul(E, NatLE(Last32(sig)), MBase(E))))
           IN SHA256(SHA256(msg) \o BytesLE(Y, 32)) = Last32(sig)
===============================================================================
