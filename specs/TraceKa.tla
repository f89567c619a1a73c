------------------------------- MODULE TraceKa --------------------------------
(* Validation of protocol runs of the real code.  A record KaRun holds one run: *)
(* which values were replaced, and its calls in order.  The run must be the     *)
(* behaviour of KaProtocol with those replacements, and every call a step of    *)
(* Api.  Calls recorded singly are judged by Api alone.                         *)
EXTENDS Api, IOUtils, Json

Log == ndJsonDeserialize(IOEnv.TRACE)
Lanes == 32

VARIABLES l,                                      \* record being read
          e,                                      \* event within it
          subst, phase, respOut, initOut, conf    \* state of KaProtocol
Ka == INSTANCE KaProtocol WITH MaxSubst <- 16
pvars == <<subst, phase, respOut, initOut, conf>>

SubstOf(rec) == {rec.subst[i] : i \in 1 .. Len(rec.subst)}
Fresh(k) == /\ subst' = (IF k <= Len(Log) /\ Log[k].op = "KaRun" THEN SubstOf(Log[k]) ELSE {})
            /\ phase' = "start" /\ respOut' = <<>> /\ initOut' = <<>> /\ conf' = FALSE

Init == /\ l \in 1 .. Lanes /\ e = 1
        /\ subst = (IF l <= Len(Log) /\ Log[l].op = "KaRun" THEN SubstOf(Log[l]) ELSE {})
        /\ phase = "start" /\ respOut = <<>> /\ initOut = <<>> /\ conf = FALSE

\* What the recorded call must have returned for the model's step.
Agrees(ev) ==
  CASE ev.op \in {"KaResp1", "KaRespE1"} -> ev.st = "SUCCESS"
    [] ev.op = "KaInit2" -> (ev.st = "SUCCESS") = (initOut' # Ka!Refusal)
    [] ev.op = "KaResp2" -> (ev.st = "SUCCESS") = conf'
\* The keys of the two parties, once both have one.
KeysAgree(rec) == initOut' = Ka!Refusal \/ phase' # "initiated" \/ rec.ev[1].out = rec.ev[2].out

Reject == PrintT(<<"REJECT", l, e>>)
Next ==
  /\ l <= Len(Log)
  /\ LET rec == Log[l] IN
     IF rec.op # "KaRun"
     THEN /\ IF Step(rec) THEN TRUE ELSE Reject
          /\ l' = l + Lanes /\ e' = 1 /\ Fresh(l + Lanes)
     ELSE IF e > Len(rec.ev)
     THEN /\ IF phase = "done" THEN TRUE ELSE Reject
          /\ l' = l + Lanes /\ e' = 1 /\ Fresh(l + Lanes)
     ELSE /\ Ka!Next
          /\ IF Agrees(rec.ev[e]) /\ KeysAgree(rec) /\ Step(rec.ev[e]) THEN TRUE ELSE Reject
          /\ l' = l /\ e' = e + 1
Spec == Init /\ [][Next]_<<l, e, pvars>>
===============================================================================
