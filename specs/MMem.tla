---------------------------------- MODULE MMem ----------------------------------
(***************************************************************************)
(* Do histories show what a library does to the caller's memory?  A        *)
(* library that is as it should be is never objected to, whatever the      *)
(* history; and every way in which a library may go wrong that is listed   *)
(* here is objected to by the end of the history "call; overwrite the      *)
(* results and the arguments; call again with arguments in new buffers that *)
(* are equal to the first ones", when the arguments have spare capacity.   *)
(* Buffers are cells with one number of a small set each; a view is the    *)
(* first cell of a buffer, and the second cell its spare capacity.         *)
(***************************************************************************)
EXTENDS Memory, FiniteSets, TLC

Faults == {"none", "writes-argument", "writes-spare", "returns-argument", "returns-same", "returns-table", "keeps-argument", "counts"}
Values == 0 .. 1

VARIABLES lib, mem, memo, table, kept, ok, hist
vars == <<lib, mem, memo, table, kept, ok, hist>>

F(x) == (x + 1) % 2

Init == /\ lib \in Faults
        /\ mem = <<>> /\ memo = <<>> /\ ok = TRUE /\ hist = <<>>
        /\ table = 0     \* the buffer of the library that it shares with the caller, if there is one
        /\ kept = 0      \* state of the library

Alloc == /\ Len(mem) < 2
         /\ \E v \in Values : mem' = Append(mem, <<v, 0>>)
         /\ hist' = Append(hist, "alloc")
         /\ UNCHANGED <<lib, memo, table, kept, ok>>
Poke(b, v) == /\ mem' = [mem EXCEPT ![b] = v]
              /\ hist' = Append(hist, "poke")
              /\ UNCHANGED <<lib, memo, table, kept, ok>>

Whole(q, a) == a
Call(b) ==
  LET x == mem[b][1]
      n == Len(mem)
      \* the memory after the call, the buffer of the result
      new == Append(mem, <<F(x), 0>>)
      res == CASE lib = "writes-argument" -> [m |-> [new EXCEPT ![b] = <<F(x), @[2]>>], r |-> n + 1]
               [] lib = "writes-spare" -> [m |-> [new EXCEPT ![b] = <<@[1], F(@[2])>>], r |-> n + 1]
               [] lib = "returns-argument" -> [m |-> mem, r |-> b]
               [] lib = "returns-same" -> IF table = 0 THEN [m |-> new, r |-> n + 1] ELSE [m |-> [mem EXCEPT ![table] = <<F(x), 0>>], r |-> table]
               [] lib = "returns-table" -> IF table = 0 THEN [m |-> new, r |-> n + 1] ELSE [m |-> mem, r |-> table]
               [] lib = "keeps-argument" -> [m |-> Append(mem, <<IF kept = 0 THEN F(x) ELSE F(mem[kept][1]), 0>>), r |-> n + 1]
               [] lib = "counts" -> [m |-> Append(mem, <<IF kept = 0 THEN F(x) ELSE x, 0>>), r |-> n + 1]
               [] OTHER -> [m |-> new, r |-> n + 1]
      did == [changed |-> {i \in 1 .. n : res.m[i] # mem[i]}, rets |-> <<res.r>>]
      answer == res.m[res.r]
  IN /\ n < 5
     /\ mem' = res.m
     /\ ok' = (ok /\ CallOk(n, memo, x, answer, did, Whole))
     /\ memo' = Append(memo, <<x, answer>>)
     /\ table' = IF lib \in {"returns-same", "returns-table"} THEN res.r ELSE table
     /\ kept' = IF lib \in {"keeps-argument", "counts"} THEN b ELSE kept
     /\ hist' = Append(hist, "call")
     /\ UNCHANGED lib

\* Any history of a library as it should be; the history above of any other.
Free == lib = "none" /\ Len(hist) < 7
Overwritten(v) == <<F(v[1]), F(v[2])>>
Canonical ==
  \/ Len(hist) = 0 /\ Alloc
  \/ Len(hist) = 1 /\ Call(1)
  \/ Len(hist) = 2 /\ Poke(Len(mem), Overwritten(mem[Len(mem)]))
  \/ Len(hist) = 3 /\ Poke(1, <<F(mem[1][1]), 1>>)
  \/ /\ Len(hist) = 4
     /\ mem' = Append(mem, <<memo[1][1], 0>>)
     /\ hist' = Append(hist, "alloc")
     /\ UNCHANGED <<lib, memo, table, kept, ok>>
  \/ Len(hist) = 5 /\ Call(Len(mem))
Next == \/ Free /\ (Alloc \/ \E b \in DOMAIN mem : Call(b) \/ \E v \in Values \X Values : Poke(b, v))
        \/ lib # "none" /\ Canonical
Spec == Init /\ [][Next]_vars

NoFalseAlarm == lib = "none" => ok
AllFound == lib # "none" /\ Len(hist) = 6 => ~ok
===============================================================================
