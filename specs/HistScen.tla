-------------------------------- MODULE HistScen --------------------------------
(***************************************************************************)
(* Histories for the driver.  For one property: a call, twice, a variant   *)
(* of it, twice, and the call again; the variant may also be the same call *)
(* with another selector.  For the property about histories ("C27"): any   *)
(* two calls, one after the other, the second a variant, and the first one *)
(* again; and ("ALL") the histories of every property.                     *)
(***************************************************************************)
EXTENDS History, TLC, IOUtils, Json, CSV

Property == IOEnv.PROP
Mine(f, s) == Property = "ALL" \/ Owner(f, s) = Property
Call(f, s, c) == [op |-> f, alg |-> s, with |-> c, mine |-> Property = "C27" \/ Mine(f, s)]
None == [d \in {} |-> ""]

Usual(f, s) == LET D == Dims(f, s) IN
  IF "key" \in D THEN [d \in {"key"} |-> "neg"]
  ELSE IF "msg" \in D THEN [d \in {"msg"} |-> "tail"] ELSE None
Unusual(f, s) == LET D == Dims(f, s) IN
  IF "key" \in D THEN [d \in {"key"} |-> "bad"]
  ELSE IF "msg" \in D THEN [d \in {"msg"} |-> "ext"] ELSE None

Around(x, y) == <<x, x, y, y, x>>

VARIABLE h
Init == \/ /\ Property # "C27"
           /\ \E x \in Good : Mine(x[1], x[2]) /\ h = <<Call(x[1], x[2], None)>>
        \/ /\ Property = "C27"
           /\ \E x \in Good : h = <<Call(x[1], x[2], None)>>
Next == /\ Len(h) = 1
        /\ LET f == h[1].op s == h[1].alg IN
           IF Property # "C27"
           THEN \/ \E c \in Changes(f, s) : h' = Around(h[1], Call(f, s, c))
                \/ \E t \in Own(f) \ {s} : h' = Around(h[1], Call(f, t, None))
           ELSE \E x \in Good : \E c \in {Usual(x[1], x[2]), Unusual(x[1], x[2])} : h' = <<h[1], Call(x[1], x[2], c), h[1]>>
Spec == Init /\ [][Next]_h

Emit == Len(h) > 1 => CSVWrite("%1$s", <<ToJson([calls |-> h])>>, IOEnv.OUT)
===============================================================================
