--------------------------------- MODULE MEcdsa ---------------------------------
(***************************************************************************)
(* Design model of ECDSA on small curves: a signer with every key, digest  *)
(* and nonce, an attacker who presents every pair (r, s) instead.          *)
(*   - what SignWith makes is valid, canonical, and its parity leads       *)
(*     RecoverSet back to the key;                                         *)
(*   - a pair is valid exactly if some nonce makes it or its mirror image; *)
(*   - NonceOf finds the nonce (or its negative).                          *)
(* Digests run over 0..2n, so that reduction modulo n is covered.          *)
(***************************************************************************)
EXTENDS Ecdsa, TLC

Toys == << [p |-> 23, a |-> 5, b |-> 22, n |-> 17, g |-> <<3, 8>>],
           [p |-> 13, a |-> 0, b |-> 7, n |-> 7, g |-> <<7, 5>>],
           [p |-> 11, a |-> 1, b |-> 6, n |-> 13, g |-> <<2, 4>>] >>
CONSTANT Used
VARIABLES c, d, e, k, sig, verdict
vars == <<c, d, e, k, sig, verdict>>
C == Toys[c]
Q == MulG(C, d)
Init == /\ c \in Used /\ d \in 1 .. Toys[c].n - 1 /\ e \in 0 .. Toys[c].n + 3
        /\ k = 0 /\ sig = <<>> /\ verdict = "none"
Sign == /\ sig = <<>> /\ verdict = "none"
        /\ \E n \in 1 .. C.n - 1 : k' = n /\ sig' = SignWith(C, d, e, n)
        /\ verdict' = "signed" /\ UNCHANGED <<c, d, e>>
Forge == /\ sig = <<>> /\ verdict = "none"
         /\ \E r, s \in 0 .. C.n + 1 : sig' = <<r, s>>
         /\ verdict' = "presented" /\ UNCHANGED <<c, d, e, k>>
Next == Sign \/ Forge
Spec == Init /\ [][Next]_vars

Accepted(s) == Valid(C, Q, e, s[1], s[2])
SignerAccepted ==
  (verdict = "signed" /\ sig # <<>>) =>
     /\ Accepted(sig)
     /\ sig[2] <= C.n \div 2
     /\ sig[3] = Bit(NoncePoint(C, Q, e, sig[1], sig[2])[2], 0)
     /\ Q \in RecoverSet(C, e, sig[1], sig[2], sig[3])
     /\ \A K \in RecoverSet(C, e, sig[1], sig[2], sig[3]) : Valid(C, K, e, sig[1], sig[2])
     /\ LET m == MulM(InvM(sig[2], C.n), AddM(e, MulM(sig[1], d, C.n), C.n), C.n) IN m = k \/ m = C.n - k
Makes(r, s) == \E n \in 1 .. C.n - 1 :
                 LET m == SignWith(C, d, e, n) IN m # <<>> /\ m[1] = r /\ (m[2] = s \/ m[2] = C.n - s)
AcceptedOnlyIfMade == verdict = "presented" => (Accepted(sig) <=> Makes(sig[1], sig[2]))
\* Mirror images are both valid: that is why signatures have a canonical form.
Mirror == verdict = "presented" /\ Accepted(sig) => Valid(C, Q, e, sig[1], C.n - sig[2])
===============================================================================
