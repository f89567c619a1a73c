-------------------------------- MODULE ConcScen --------------------------------
(***************************************************************************)
(* Programs for concurrent callers.  A program is run in a process of its  *)
(* own, so that its calls are the first ones there: "first" programs have  *)
(* one call that all callers make at once; "pair" programs have two, made  *)
(* in either order; "all" programs have every call, begun by the callers   *)
(* at different places and gone through with different steps.              *)
(***************************************************************************)
EXTENDS Calls, TLC, IOUtils, Json, CSV

Thorough == IOEnv.TIER = "thorough"
Good == UNION {{<<f, s>> : s \in Own(f)} : f \in DOMAIN Functions}
VARIABLE p
Init == p = <<>>
Next == \/ Len(p) < 2 /\ \E x \in Good : p' = Append(p, x)
Spec == Init /\ [][Next]_p
Emit == p # <<>> => CSVWrite("%1$s", <<ToJson([calls |-> [i \in DOMAIN p |-> [op |-> p[i][1], alg |-> p[i][2]]]])>>, IOEnv.OUT)
===============================================================================
