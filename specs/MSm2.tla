---------------------------------- MODULE MSm2 ----------------------------------
(***************************************************************************)
(* Design model of SM2 on small curves.                                    *)
(* Signatures: what a signer makes is valid and gives the nonce back; a    *)
(* pair is valid exactly if some nonce makes it.                           *)
(* Encryption: what EncryptWith makes decrypts to the message and nothing  *)
(* else, and a ciphertext with one byte changed is refused.                *)
(* Key agreement: both parties compute the same point.                     *)
(***************************************************************************)
EXTENDS Sm2, TLC

Toys == << [p |-> 17, a |-> 14, b |-> 3, n |-> 23, g |-> <<1, 1>>],
           [p |-> 11, a |-> 8, b |-> 10, n |-> 7, g |-> <<2, 1>>],
           [p |-> 13, a |-> 7, b |-> 6, n |-> 11, g |-> <<1, 1>>] >>
CONSTANT Used
VARIABLES c, d, e, k, sig, verdict
vars == <<c, d, e, k, sig, verdict>>
C == Toys[c]
Q == MulG(C, d)
\* n - 1 cannot sign
Init == /\ c \in Used /\ d \in 1 .. Toys[c].n - 2 /\ e \in 0 .. Toys[c].n + 2
        /\ k = 0 /\ sig = <<>> /\ verdict = "none"
Sign == /\ verdict = "none"
        /\ \E n \in 1 .. C.n - 1 : k' = n /\ sig' = Sm2SignWith(C, d, e, n)
        /\ verdict' = "signed" /\ UNCHANGED <<c, d, e>>
Forge == /\ verdict = "none"
         /\ \E r, s \in 0 .. C.n : sig' = <<r, s>>
         /\ verdict' = "presented" /\ UNCHANGED <<c, d, e, k>>
\* the peer's static key is e
Agree == /\ verdict = "none"
         /\ \E r1, r2 \in 1 .. C.n - 1 : sig' = <<r1, r2>>
         /\ verdict' = "agree" /\ UNCHANGED <<c, d, e, k>>
Encrypt == /\ verdict = "none" /\ e < 6
           /\ \E n \in 1 .. C.n - 1 : k' = n /\ sig' = EncryptWith(C, Q, [i \in 1 .. e |-> (7 * i + d) % 256], n)
           /\ verdict' = "encrypted" /\ UNCHANGED <<c, d, e>>
Next == Sign \/ Forge \/ Agree \/ Encrypt
Spec == Init /\ [][Next]_vars

SignerAccepted ==
  (verdict = "signed" /\ sig # <<>>) =>
     /\ Sm2Valid(C, Q, e, sig[1], sig[2])
     /\ sig[3] = Bit(Sm2Nonce(C, Q, sig[1], sig[2])[2], 0)
     /\ AddM(MulM(sig[2], 1 + d, C.n), MulM(sig[1], d, C.n), C.n) = k
AcceptedOnlyIfMade ==
  verdict = "presented" =>
     (Sm2Valid(C, Q, e, sig[1], sig[2]) <=>
        \E n \in 1 .. C.n - 1 : LET m == Sm2SignWith(C, d, e, n) IN m # <<>> /\ m[1] = sig[1] /\ m[2] = sig[2])
SameSecret ==
  (verdict = "agree" /\ e % C.n # 0) =>
     LET rA == sig[1] rB == sig[2] dB == e % C.n RA == MulG(C, rA) RB == MulG(C, rB)
     IN PtEq(KaShared(C, d, rA, RA, MulG(C, dB), RB), KaShared(C, dB, rB, RB, Q, RA))
Decrypts ==
  (verdict = "encrypted" /\ sig # <<>>) =>
     LET m == [i \in 1 .. e |-> (7 * i + d) % 256]
         Changed(i) == [sig EXCEPT ![i] = (sig[i] + 1) % 256]
     IN IF e = 0 THEN DecryptBytes(C, d, sig) = <<>>
        ELSE /\ DecryptBytes(C, d, sig) = <<m>>
             /\ \A i \in {1, 33, 65, 66, 97, 98, Len(sig)} : DecryptBytes(C, d, Changed(i)) = <<>>
===============================================================================
