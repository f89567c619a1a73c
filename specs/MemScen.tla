-------------------------------- MODULE MemScen --------------------------------
(***************************************************************************)
(* Histories for the memory property: a call, something in between, and    *)
(* the call again.  In between the caller overwrites everything it was     *)
(* given and has given, or makes another call and overwrites the results.  *)
(* The layouts say where the arguments are: each in a buffer of its own    *)
(* without ("tight") or with ("spare") room behind it; one behind the      *)
(* other in one buffer, in order or in reverse, each with the next ones in *)
(* its spare capacity ("packed", "reversed"); or in buffers that are there *)
(* already, such as earlier results, where these have the right content    *)
(* ("reuse").                                                              *)
(***************************************************************************)
EXTENDS Calls, TLC, IOUtils, Json, CSV

Thorough == IOEnv.TIER = "thorough"
Layouts == {"tight", "spare", "packed", "reversed", "reuse"}
Top == UNION {{[op |-> f, alg |-> s, bad |-> <<>>] : s \in Own(f)} : f \in DOMAIN Functions}
Below == UNION {{[op |-> f, alg |-> s, bad |-> <<>>] : s \in Variants(f)} : f \in DOMAIN Parts}
Good == Top \cup Below
Given(f) == IF f \in DOMAIN Parts THEN Parts[f] ELSE Functions[f]
Spoilt(c) == {[c EXCEPT !.bad = << <<Given(c.op)[i][1], Given(c.op)[i][2], x>> >>] : i \in DOMAIN Given(c.op),
              x \in UNION {Shapes(Given(c.op)[j][2]) : j \in DOMAIN Given(c.op)}}
\* shapes of other kinds of arguments are left out
Fits(c) == c.bad = <<>> \/ c.bad[1][3] \in Shapes(c.bad[1][2])
Call(c, l) == [op |-> c.op, alg |-> c.alg, bad |-> c.bad, layout |-> l]
Overwrite(w) == [op |-> "overwrite", alg |-> w, bad |-> <<>>, layout |-> ""]

VARIABLE h
Init == \/ \E c \in Good, l \in Layouts : h = <<Call(c, l)>>
        \/ \E g \in Good : \E c \in Spoilt(g) : Fits(c) /\ \E l \in {"packed", "spare"} : h = <<Call(c, l)>>
Is(s) == [op |-> s.op, alg |-> s.alg, bad |-> s.bad]
Next ==
  \/ Len(h) = 1 /\ h' = Append(h, Overwrite("all"))
  \/ Len(h) = 1 /\ h[1].bad = <<>> /\ h[1].layout = "spare" /\ \E c \in (IF h[1].op \in DOMAIN Parts THEN Below ELSE Top), l \in (IF Thorough THEN Layouts ELSE {"packed"}) : h' = Append(h, Call(c, l))
  \/ Len(h) = 2 /\ h[2].op = "overwrite"
     /\ \E l \in (IF h[1].bad = <<>> THEN Layouts ELSE {"packed"}) : h' = Append(h, Call(Is(h[1]), l))
  \/ Len(h) = 2 /\ h[2].op # "overwrite" /\ h' = Append(h, Overwrite("results"))
  \/ Len(h) = 3 /\ h[3].op = "overwrite" /\ h' = Append(h, Call(Is(h[1]), "reversed"))
Done == h[Len(h)].op # "overwrite" /\ Len(h) > 2
Spec == Init /\ [][Next]_h
Emit == Done => CSVWrite("%1$s", <<ToJson([steps |-> h])>>, IOEnv.OUT)
===============================================================================
