-------------------------------- MODULE Session --------------------------------
(***************************************************************************)
(* What has to be remembered of the calls of a process: which one-time     *)
(* values a randomised scheme has used, and what a deterministic scheme    *)
(* has returned and which nonce it used for which question.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

SessionNew == [used |-> {}, answers |-> <<>>, owner |-> <<>>]

\* A randomised scheme: the value has not been used before.
MayDraw(S, x) == x \notin S.used
Drawn(S, x) == [S EXCEPT !.used = @ \cup {x}]

\* A deterministic scheme: the question q has been answered with the same a, if
\* at all, and the nonce x (of the key of q) has been used for no other question.
MayAnswer(S, q, x, a) ==
  /\ q \in DOMAIN S.answers => S.answers[q] = a
  /\ x \in DOMAIN S.owner => S.owner[x] = q
Answered(S, q, x, a) ==
  [S EXCEPT !.answers = IF q \in DOMAIN @ THEN @ ELSE (q :> a) @@ @,
            !.owner = IF x \in DOMAIN @ THEN @ ELSE (x :> q) @@ @]
===============================================================================
