------------------------------ MODULE KaProtocol ------------------------------
(***************************************************************************)
(* The SM2 key agreement protocol between an initiator A and a responder   *)
(* B, with an attacker (or a mistaken caller) who replaces any of the      *)
(* values either of them works with by values of a third party X.          *)
(*                                                                         *)
(* The group is symbolic: a public value is named by its secret, and the   *)
(* shared point is the tuple of everything it depends on.                  *)
(* Sm2.tla has the concrete computation; TraceKa.tla binds the two: a run  *)
(* of the real code must go through the states of this module and each of  *)
(* its calls must return what Sm2.tla computes.                            *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences

CONSTANT MaxSubst      \* how many values are replaced at most

Slots == ({"A"} \X {"idA", "idB", "d", "pubA", "pubB", "r", "RA", "RB", "SB"})
         \cup ({"B"} \X {"idA", "idB", "d", "pubA", "pubB", "RA", "SA"})

VARIABLES subst,       \* the replaced values
          phase,       \* "start" -> "responded" -> "initiated" -> "done"
          respOut,     \* what the responder's first step returned
          initOut,     \* what the initiator's second step returned, or Refusal
          conf         \* the responder's verdict: TRUE, FALSE
vars == <<subst, phase, respOut, initOut, conf>>

None == <<>>
Refusal == <<"refused", "">>

Pick(who, what, good, alt) == IF <<who, what>> \in subst THEN alt ELSE good

\* The views of the two parties: identities by name, points by their secret.
BView == [idA |-> Pick("B", "idA", "IDA", "IDX"), idB |-> Pick("B", "idB", "IDB", "IDX"),
          pubA |-> Pick("B", "pubA", "dA", "dX"), pubB |-> Pick("B", "pubB", "dB", "dX"),
          RA |-> Pick("B", "RA", "rA", "rX"), RB |-> "rB"]
AView == [idA |-> Pick("A", "idA", "IDA", "IDX"), idB |-> Pick("A", "idB", "IDB", "IDX"),
          pubA |-> Pick("A", "pubA", "dA", "dX"), pubB |-> Pick("A", "pubB", "dB", "dX"),
          RA |-> Pick("A", "RA", "rA", "rX"), RB |-> Pick("A", "RB", "rB", "dX")]

\* (dA + xbar(RA) rA) (dB + xbar(RB) rB) G, by what each factor is made of.
SharedB == <<BView.pubA, BView.RA, BView.RA, Pick("B", "d", "dB", "dX"), "rB", BView.RB>>
SharedA == <<Pick("A", "d", "dA", "dX"), Pick("A", "r", "rA", "rX"), AView.RA, AView.pubB, AView.RB, AView.RB>>

KeyOf(U, v) == <<U, v.idA, v.pubA, v.idB, v.pubB>>
Confirm(tag, U, v) == <<tag, U, v>>

Init == /\ subst \in {s \in SUBSET Slots : Cardinality(s) <= MaxSubst}
        /\ phase = "start" /\ respOut = None /\ initOut = None /\ conf = FALSE

Respond ==
  /\ phase = "start" /\ phase' = "responded"
  /\ respOut' = <<[key |-> KeyOf(SharedB, BView), S1 |-> Confirm(3, SharedB, BView), S2 |-> Confirm(2, SharedB, BView)]>>
  /\ UNCHANGED <<subst, initOut, conf>>

Arrived(who, what, good) == IF <<who, what>> \in subst THEN <<"garbage">> ELSE good

Initiate ==
  /\ phase = "responded" /\ phase' = "initiated"
  /\ initOut' = IF Arrived("A", "SB", respOut[1].S2) = Confirm(2, SharedA, AView)
                THEN <<[key |-> KeyOf(SharedA, AView), S |-> Confirm(3, SharedA, AView)]>>
                ELSE Refusal
  /\ UNCHANGED <<subst, respOut, conf>>

Finish ==
  /\ phase = "initiated" /\ phase' = "done"
  /\ conf' = (initOut # Refusal /\ Arrived("B", "SA", IF initOut = Refusal THEN None ELSE initOut[1].S) = respOut[1].S1)
  /\ UNCHANGED <<subst, respOut, initOut>>

Next == Respond \/ Initiate \/ Finish
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
\* The initiator accepts exactly when both have the same view and her secrets
\* belong to it; then both hold the same key.
SameView == AView = BView /\ SharedA = SharedB
Agreement == initOut \notin {None, Refusal} => SameView /\ initOut[1].key = respOut[1].key
Completeness == phase \in {"initiated", "done"} /\ SameView /\ <<"A", "SB">> \notin subst => initOut # Refusal
Confirmation == (phase = "done") =>
                  (conf = (initOut # Refusal /\ <<"B", "SA">> \notin subst))
NoKeyWithoutConfirmation == initOut = Refusal => ~conf
Honest == (phase = "done" /\ subst = {}) => conf
===============================================================================
