-------------------------------- MODULE MSession --------------------------------
(***************************************************************************)
(* Design model of one-time values.  Callers sign with a shared key by the *)
(* ECDSA, SM2 or Schnorr equation on a small curve.  Signing takes two     *)
(* steps: the caller draws a nonce, then answers; callers interleave.      *)
(* - NoReuse: under the rule of Session (a nonce is drawn once) no two     *)
(*   answers share a nonce point.                                          *)
(* - Extractable: two answers to different questions that share a nonce    *)
(*   give the key away; this is why the rule is the property.  (Breaking   *)
(*   the rule is an action of the model, so that such pairs occur.)        *)
(***************************************************************************)
EXTENDS Ecdsa, Session, FiniteSets

C == [p |-> 11, a |-> 8, b |-> 10, n |-> 7, g |-> <<2, 1>>]
Callers == {1, 2}
Sch == {"ecdsa", "sm2", "schnorr"}
CONSTANTS Honest, MaxAnswers
VARIABLES key, sch, S, drawn, answers
vars == <<key, sch, S, drawn, answers>>

\* An answer <<e, r, s>> by the nonce k; <<>> where k cannot be used.
Answer(k, e) ==
  LET R == MulG(C, k) IN
  CASE sch = "ecdsa" -> LET r == R[1] % C.n s == MulM(InvM(k, C.n), AddM(e, MulM(r, key, C.n), C.n), C.n)
                        IN IF r = 0 \/ s = 0 THEN <<>> ELSE <<e, r, s>>
    [] sch = "sm2" -> LET r == AddM(e, R[1], C.n) s == MulM(InvM(1 + key, C.n), SubM(k, MulM(r, key, C.n), C.n), C.n)
                      IN IF r = 0 \/ (r + k) % C.n = 0 \/ s = 0 THEN <<>> ELSE <<e, r, s>>
    [] sch = "schnorr" -> LET c == (e + 3 * R[1]) % C.n IN <<e, k, (k + c * key) % C.n>>   \* R in the place of r: here its logarithm
Challenge(x) == (x[1] + 3 * MulG(C, x[2])[1]) % C.n
\* The nonce point an answer shows.
Shown(x) == CASE sch = "ecdsa" -> x[2] [] sch = "sm2" -> SubM(x[2], x[1], C.n) [] sch = "schnorr" -> x[2]

\* What an observer computes from two answers, supposing they share the nonce.
\* (An ECDSA r fixes the nonce up to its sign.)
Extract(x, y) ==
  CASE sch = "ecdsa" -> { MulM(SubM(MulM(y[3], x[1], C.n), MulM(t, MulM(x[3], y[1], C.n), C.n), C.n),
                               InvM(SubM(MulM(t, MulM(x[3], y[2], C.n), C.n), MulM(y[3], x[2], C.n), C.n), C.n), C.n) : t \in {1, C.n - 1} }
    [] sch = "sm2" -> \* k = s (1 + d) + r d = s + (r + s) d
         { MulM(SubM(MulM(t, y[3], C.n), x[3], C.n), InvM(SubM(AddM(x[2], x[3], C.n), MulM(t, AddM(y[2], y[3], C.n), C.n), C.n), C.n), C.n) : t \in {1, C.n - 1} }
    [] sch = "schnorr" -> { MulM(SubM(x[3], y[3], C.n), InvM(SubM(Challenge(x), Challenge(y), C.n), C.n), C.n) }

Init == /\ key \in 1 .. C.n - 2 /\ sch \in Sch /\ S = SessionNew
        /\ drawn = [c \in Callers |-> 0] /\ answers = <<>>
Draw(c) == /\ drawn[c] = 0 /\ Len(answers) < MaxAnswers
           /\ \E k \in 1 .. C.n - 1 :
                LET x == MulG(C, k)[1] IN       \* the sign of k does not count
                /\ Honest => MayDraw(S, x)
                /\ S' = Drawn(S, x) /\ drawn' = [drawn EXCEPT ![c] = k]
           /\ UNCHANGED <<key, sch, answers>>
Reply(c) == /\ drawn[c] # 0
            /\ \E e \in 0 .. C.n - 1 :
                 LET a == Answer(drawn[c], e)
                 IN answers' = IF a = <<>> THEN answers ELSE Append(answers, a)
            /\ drawn' = [drawn EXCEPT ![c] = 0] /\ UNCHANGED <<key, sch, S>>
Next == \E c \in Callers : Draw(c) \/ Reply(c)
Spec == Init /\ [][Next]_vars

Pairs == { ij \in (1 .. Len(answers)) \X (1 .. Len(answers)) : ij[1] < ij[2] }
NoReuse == Honest => \A ij \in Pairs : Shown(answers[ij[1]]) # Shown(answers[ij[2]])
\* SM2 answers by k and by -k can coincide up to sign and then say nothing.
Opposite(x, y) == sch = "sm2" /\ (x[2] + y[2]) % C.n = 0 /\ (x[3] + y[3]) % C.n = 0
Extractable ==
  \A ij \in Pairs :
    LET x == answers[ij[1]] y == answers[ij[2]] IN
    Shown(x) = Shown(y) /\ x[1] # y[1] => key \in Extract(x, y) \/ Opposite(x, y)
===============================================================================
