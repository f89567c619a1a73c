-------------------------------- MODULE PartScen --------------------------------
(***************************************************************************)
(* The functions of the packages below the root, each for callers that     *)
(* share its arguments.                                                    *)
(***************************************************************************)
EXTENDS Calls, TLC, IOUtils, Json, CSV

VARIABLE p
Init == p \in UNION {{<<[op |-> f, alg |-> s]>> : s \in Variants(f)} : f \in DOMAIN Parts}
Spec == Init /\ [][UNCHANGED p]_p
Emit == CSVWrite("%1$s", <<ToJson([calls |-> p])>>, IOEnv.OUT)
===============================================================================
