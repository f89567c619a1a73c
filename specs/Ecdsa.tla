--------------------------------- MODULE Ecdsa ---------------------------------
(* ECDSA (FIPS 186-5) on a curve of Weier, parameterised by the curve, with    *)
(* the canonical form this library promises for the signatures it makes.       *)
EXTENDS Weier

\* The nonce point a signature (r, s) of e implies for the key Q.
NoncePoint(C, Q, e, r, s) ==
  LET w == InvM(s, C.n)
  IN Add(C, MulG(C, MulM(e, w, C.n)), Mul(C, MulM(r, w, C.n), Q))

Valid(C, Q, e, r, s) ==
  /\ Q # Inf /\ OnCurve(C, Q)
  /\ InRange(C, r) /\ InRange(C, s)
  /\ LET R == NoncePoint(C, Q, e, r, s)
     IN R # Inf /\ R[1] %% C.n \doteq r

\* The signature of e under d with nonce k (<<>> if k does not give one), with
\* the parity of the nonce point's y.
SignWith(C, d, e, k) ==
  LET R == MulG(C, k)
      r == R[1] %% C.n
      s == MulM(InvM(k, C.n), AddM(e, MulM(r, d, C.n), C.n), C.n)
      low == s \preceq ((C.n -- 1) // 2)
      v == Bit(R[2], 0)
  IN IF r \doteq 0 \/ s \doteq 0 THEN <<>>
     ELSE IF low THEN <<r, s, v>> ELSE <<r, C.n -- s, 1 - v>>

\* The keys that a signature, a digest and a parity admit.
RecoverSet(C, e, r, s, v) ==
  LET cand == { x \in {r, r ++ C.n} : x \prec C.p }   \* only used with small numbers
      K(x) == LET R == LiftX(C, x, v)
                  w == InvM(r, C.n)
              IN IF R = <<>> THEN <<>>
                 ELSE Add(C, Mul(C, MulM(s, w, C.n), R[1]), MulG(C, NegM(MulM(e, w, C.n), C.n)))
  IN { K(x) : x \in cand } \ {Inf}

---------------------------------------------------------------------------
(* The byte level of the library. *)

SigR(sig) == NatBE(SubSeq(sig, 1, 32))
SigS(sig) == NatBE(SubSeq(sig, 33, 64))

VerifyBytes(C, pub, hash, sig) ==
  /\ Len(pub) = 64 /\ Len(hash) = 32 /\ Len(sig) = 64
  /\ LET Q == FromXY(C, pub)
     IN Q # <<>> /\ Valid(C, Q[1], NatBE(hash), SigR(sig), SigS(sig))

\* Exactly 32 bytes when written as a DER integer.
Der32(b) == b[1] < 128 /\ ~(b[1] = 0 /\ b[2] < 128)

SignedBytes(C, d, hash, sig, v) ==
  /\ Len(sig) = 64
  /\ LET Q == MulG(C, d)
         r == SigR(sig) s == SigS(sig)
     IN /\ Valid(C, Q, NatBE(hash), r, s)
        /\ s \preceq (C.n // 2)
        /\ Der32(SubSeq(sig, 1, 32)) /\ Der32(SubSeq(sig, 33, 64))
        /\ v = Bit(NoncePoint(C, Q, NatBE(hash), r, s)[2], 0)

\* The nonce of a signature made with d (up to the sign that low s hides).
NonceOf(C, d, hash, sig) ==
  MulM(InvM(SigS(sig), C.n), AddM(NatBE(hash), MulM(SigR(sig), d, C.n), C.n), C.n)

\* sig is r||s||v.
RecoveredBytes(C, sig, hash, pub) ==
  /\ Len(sig) = 65 /\ Len(hash) = 32 /\ Len(pub) = 64 /\ sig[65] \in {0, 1}
  /\ VerifyBytes(C, pub, hash, SubSeq(sig, 1, 64))
  /\ Bit(NoncePoint(C, FromXY(C, pub)[1], NatBE(hash), SigR(sig), SigS(sig))[2], 0) = sig[65]
===============================================================================
