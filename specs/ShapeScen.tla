------------------------------- MODULE ShapeScen -------------------------------
(***************************************************************************)
(* Writes the calls the driver is to make to see how the library treats    *)
(* unusual arguments: every function with every selector, with every       *)
(* argument in turn of every shape (the others as they should be), and     *)
(* with the selectors a function supports also every pair of arguments of  *)
(* every pair of shapes.                                                   *)
(***************************************************************************)
EXTENDS Calls, TLC, IOUtils, Json, CSV

Thorough == IOEnv.TIER = "thorough"

Few(kind) == IF Thorough THEN Shapes(kind)
             ELSE Shapes(kind) \cap {"nil", "empty", "short", "long", "zero", "ones", "order", "off", "unreduced", "infinity", "flip", "r0", "0", "65535", "c1", "none", "badlast", "huge"}

\* A call to be made: arguments are spoilt one after the other, from the left.
VARIABLE call
Init == \E f \in DOMAIN Functions : \E s \in Selectors(f) : call = [op |-> f, alg |-> s, bad |-> <<>>]
Last == IF call.bad = <<>> THEN 0 ELSE CHOOSE i \in DOMAIN Functions[call.op] : Functions[call.op][i][1] = call.bad[Len(call.bad)][1]
Spoil(i, x) == call' = [call EXCEPT !.bad = Append(@, <<Functions[call.op][i][1], Functions[call.op][i][2], x>>)]
Next == LET fs == Functions[call.op] IN
        \E i \in DOMAIN fs :
          /\ i > Last
          /\ IF call.bad = <<>>
             THEN \E x \in (IF call.alg \in Own(call.op) THEN Shapes(fs[i][2]) ELSE Shapes(fs[i][2]) \cap {"nil", "long", "huge", "65535", "none"}) : Spoil(i, x)
             ELSE /\ Len(call.bad) = 1 /\ call.alg \in Own(call.op)
                  /\ call.bad[1][3] \in Few(call.bad[1][2])
                  /\ \E x \in Few(fs[i][2]) : Spoil(i, x)
Spec == Init /\ [][Next]_call

Emit == CSVWrite("%1$s", <<ToJson(call)>>, IOEnv.OUT)
===============================================================================
