--------------------------------- MODULE Trace ---------------------------------
(* Validation of a trace of calls of the real code: call after call must be   *)
(* a step the specification allows.  The calls are independent of each other, *)
(* so the trace is read in Lanes interleaved lanes, which TLC's workers       *)
(* follow in parallel.                                                        *)
EXTENDS Api, IOUtils, Json

Log == ndJsonDeserialize(IOEnv.TRACE)
Lanes == 32

VARIABLE l

Init == l \in 1 .. Lanes
Next == /\ l <= Len(Log)
        /\ IF Step(Log[l]) THEN TRUE ELSE PrintT(<<"REJECT", l>>)
        /\ l' = l + Lanes
Spec == Init /\ [][Next]_l
===============================================================================
