--------------------------------- MODULE MHist ---------------------------------
(***************************************************************************)
(* Do the histories of HistScen show that a library remembers what it must *)
(* not?  A library here may keep answers and give them again to calls it   *)
(* takes for the same: it looks at some components only, or at part of     *)
(* what a component is; it may keep the first answer or the last one only. *)
(* The answer to a call is a function of all components.  With the         *)
(* histories "call, variant, call again" (at most two components replaced) *)
(* no library is objected to that always answers rightly, and every one    *)
(* that confuses two variants is.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* Components: a key (1, its opposite -1, another one 2), a message as
\* <<beginning, end, length>>, and something derived from them, or from the
\* base call's when it was left as it was.
Msg == [base |-> <<0, 0, 0>>, head |-> <<1, 0, 0>>, tail |-> <<0, 1, 0>>, ext |-> <<0, 0, 1>>, oth |-> <<1, 1, 0>>]
Key == [base |-> 1, neg |-> -1, oth |-> 2]
Abs(x) == IF x < 0 THEN -x ELSE x
Calls == {[k |-> Key[a], m |-> Msg[b], s |-> c] : a \in DOMAIN Key, b \in DOMAIN Msg, c \in {"own", "base", "oth"}}
Base == [k |-> 1, m |-> <<0, 0, 0>>, s |-> "own"]
Differ(c) == (IF c.k # 1 THEN 1 ELSE 0) + (IF c.m # Base.m THEN 1 ELSE 0) + (IF c.s # "own" THEN 1 ELSE 0)
Histories == {<<Base, c, Base>> : c \in {d \in Calls : Differ(d) \in 1 .. 2}}

\* What is derived: a signature of the call's components, of the base's or of others.
Answer(c) == <<c.k, c.m, CASE c.s = "own" -> <<c.k, c.m>> [] c.s = "base" -> <<1, Base.m>> [] c.s = "oth" -> <<2, Msg.oth>> >>

\* What a library looks at.
Views == {"all", "no-key", "key-without-sign", "no-message", "message-without-end", "message-without-beginning", "message-without-length", "no-derived"}
View(v, c) ==
  LET a == Answer(c) m == c.m IN
  CASE v = "all" -> a
    [] v = "no-key" -> <<a[2], a[3]>>
    [] v = "key-without-sign" -> <<Abs(a[1]), a[2], [a[3] EXCEPT ![1] = Abs(@)]>>
    [] v = "no-message" -> <<a[1], a[3][1]>>
    [] v = "message-without-end" -> <<a[1], <<m[1], m[3]>>, a[3][1], <<a[3][2][1], a[3][2][3]>> >>
    [] v = "message-without-beginning" -> <<a[1], <<m[2], m[3]>>, a[3][1], <<a[3][2][2], a[3][2][3]>> >>
    [] v = "message-without-length" -> <<a[1], <<m[1], m[2]>>, a[3][1], <<a[3][2][1], a[3][2][2]>> >>
    [] v = "no-derived" -> <<a[1], a[2]>>

VARIABLES view, keep, hist, memory, right
vars == <<view, keep, hist, memory, right>>
Init == view \in Views /\ keep \in {"first", "last"} /\ hist \in Histories /\ memory = <<>> /\ right = TRUE
Step == /\ hist # <<>>
        /\ LET c == Head(hist)
               hits == {i \in DOMAIN memory : memory[i][1] = View(view, c)}
               answer == IF hits # {} THEN memory[CHOOSE i \in hits : TRUE][2] ELSE Answer(c)
           IN /\ right' = (right /\ answer = Answer(c))
              /\ memory' = IF hits # {} THEN memory ELSE IF keep = "last" THEN << <<View(view, c), answer>> >> ELSE Append(memory, <<View(view, c), answer>>)
              /\ hist' = Tail(hist)
        /\ UNCHANGED <<view, keep>>
Next == Step
Spec == Init /\ [][Next]_vars

RECURSIVE Run(_, _, _, _)
Run(v, k, h, m) ==
  IF h = <<>> THEN TRUE
  ELSE LET c == Head(h)
           hits == {i \in DOMAIN m : m[i][1] = View(v, c)}
           n == IF hits # {} THEN m ELSE IF k = "last" THEN << <<View(v, c), Answer(c)>> >> ELSE Append(m, <<View(v, c), Answer(c)>>)
       IN (hits = {} \/ m[CHOOSE i \in hits : TRUE][2] = Answer(c)) /\ Run(v, k, Tail(h), n)
ASSUME Found == \A v \in Views \ {"all"} : \A k \in {"first", "last"} : \E h \in Histories : ~Run(v, k, h, <<>>)

NoFalseAlarm == view = "all" => right
===============================================================================
