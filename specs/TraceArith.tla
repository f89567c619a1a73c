------------------------------- MODULE TraceArith -------------------------------
(* Validation of calls of the field and scalar arithmetic. *)
EXTENDS Arith, TLC, IOUtils, Json

Log == ndJsonDeserialize(IOEnv.TRACE)
Lanes == 32
VARIABLE l
Init == l \in 1 .. Lanes
Next == /\ l <= Len(Log)
        /\ IF Step(Log[l]) THEN TRUE ELSE PrintT(<<"REJECT", l>>)
        /\ l' = l + Lanes
Spec == Init /\ [][Next]_l
===============================================================================
