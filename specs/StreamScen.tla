------------------------------- MODULE StreamScen -------------------------------
(***************************************************************************)
(* Writes the histories of hash objects that the driver is to perform:     *)
(* every sequence of N events HashStream allows, over classes of sizes     *)
(* given by the block size B ("B-1" and so on; "P" is where the length     *)
(* field still fits).  hash: objects with Sum; xof: objects with Read and  *)
(* Clone, where the events after a Clone go to the clone.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, IOUtils, Json

Thorough == IOEnv.TIER = "thorough"
N == IF Thorough THEN 4 ELSE 3
H == INSTANCE HashStream WITH Digest <- LAMBDA k, s : s, Squeeze <- LAMBDA k, s, n : s, SizeOf <- LAMBDA k : 0, BlockOf <- LAMBDA k : 0

Sizes == {"0", "1", "P", "B-1", "B", "B+1", "2B", "R"}
HashEvs == {[op |-> "Write", c |-> c] : c \in Sizes} \cup {[op |-> "Sum", c |-> c] : c \in {"0", "R"}} \cup {[op |-> "Reset", c |-> ""]}
XofEvs == {[op |-> "Write", c |-> c] : c \in {"0", "1", "B-1", "B", "B+1"}}
          \cup {[op |-> "Read", c |-> c] : c \in {"0", "1", "B-1", "B", "B+1", "2B"}}
          \cup {[op |-> o, c |-> ""] : o \in {"Reset", "Clone"}}

VARIABLES type, hist, squeezed
Init == type \in {"hash", "xof"} /\ hist = <<>> /\ squeezed = FALSE
Next == /\ Len(hist) < N
        /\ \E ev \in (IF type = "hash" THEN HashEvs ELSE XofEvs) :
             LET o == [kind |-> type, msg |-> <<>>, squeezed |-> squeezed, pos |-> 0]
                 c == IF ev.op = "Read" THEN [op |-> "Read", n |-> 1]
                      ELSE IF ev.op = "Write" THEN [op |-> "Write", p |-> <<>>] ELSE [op |-> ev.op]
             IN H!ObjMay(o, c) /\ squeezed' = H!ObjAfter(o, c).squeezed /\ hist' = Append(hist, ev)
        /\ type' = type
Spec == Init /\ [][Next]_<<type, hist, squeezed>>

ASSUME TLCSet(1, <<>>)
Emit == Len(hist) = N => TLCSet(1, Append(TLCGet(1), [type |-> type, ev |-> hist]))
Post == ndJsonSerialize(IOEnv.OUT, TLCGet(1))
===============================================================================
