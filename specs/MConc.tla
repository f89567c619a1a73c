---------------------------------- MODULE MConc ----------------------------------
(***************************************************************************)
(* Concurrent callers of a library function f(x) that uses a table and     *)
(* scratch space.  Variants of the library:                                *)
(*   eager   the table is made before any call, scratch space is the       *)
(*           call's own: what go-owcrypt is to be;                         *)
(*   once    the table is made by the first call, others wait for it;      *)
(*   flag    the table is made by the first call, a plain variable says    *)
(*           that it has been made;                                        *)
(*   early   as flag, but the variable is set before the table is made;    *)
(*   scratch the scratch space is shared.                                  *)
(* Right: every call returns f of its argument, whatever the others do.    *)
(* Ordered: no two callers are about to use the same variable of the       *)
(* library, one of them to write it, unless one waits for the other.       *)
(* Both hold of eager and once (MConc), and of no other variant: TLC finds *)
(* a schedule that violates Ordered (MConcF, MConcS) or Right (MConcE,     *)
(* MConcR), so that both the results and the race detector matter.         *)
(***************************************************************************)
EXTENDS Integers, FiniteSets

CONSTANTS Variants, Callers, Calls
f(x) == (3 * x + 1) % 5

VARIABLES lib, table, flag, lock, scratch, pc, arg, own, left, ok
vars == <<lib, table, flag, lock, scratch, pc, arg, own, left, ok>>

Made == [x \in 0 .. 1 |-> f(x)]
Lazy == lib \in {"once", "flag", "early"}
Init == /\ lib \in Variants
        /\ table = IF Lazy THEN [x \in 0 .. 1 |-> -1] ELSE Made
        /\ flag = ~Lazy
        /\ lock = 0
        /\ scratch = -1
        /\ pc = [c \in Callers |-> "idle"]
        /\ arg = [c \in Callers |-> 0]
        /\ own = [c \in Callers |-> -1]
        /\ left = [c \in Callers |-> Calls]
        /\ ok = TRUE
Go(c, s) == pc' = [pc EXCEPT ![c] = s]

Begin(c) == /\ pc[c] = "idle" /\ left[c] > 0
            /\ \E x \in 0 .. 1 : arg' = [arg EXCEPT ![c] = x]
            /\ left' = [left EXCEPT ![c] = @ - 1]
            /\ Go(c, IF Lazy THEN "check" ELSE "look")
            /\ UNCHANGED <<lib, table, flag, lock, scratch, own, ok>>
Check(c) == /\ pc[c] = "check"
            /\ lib = "once" => lock = 0
            /\ IF flag THEN Go(c, "look") /\ UNCHANGED lock
               ELSE Go(c, IF lib = "early" THEN "set" ELSE "make0") /\ lock' = IF lib = "once" THEN c ELSE lock
            /\ UNCHANGED <<lib, table, flag, scratch, arg, own, left, ok>>
Make(c, x) == /\ pc[c] = IF x = 0 THEN "make0" ELSE "make1"
              /\ table' = [table EXCEPT ![x] = f(x)]
              /\ Go(c, IF x = 0 THEN "make1" ELSE IF lib = "early" THEN "look" ELSE "set")
              /\ UNCHANGED <<lib, flag, lock, scratch, arg, own, left, ok>>
Set(c) == /\ pc[c] = "set"
          /\ flag' = TRUE
          /\ lock' = IF lock = c THEN 0 ELSE lock
          /\ Go(c, IF lib = "early" THEN "make0" ELSE "look")
          /\ UNCHANGED <<lib, table, scratch, arg, own, left, ok>>
Look(c) == /\ pc[c] = "look"
           /\ IF lib = "scratch" THEN scratch' = table[arg[c]] /\ UNCHANGED own
              ELSE own' = [own EXCEPT ![c] = table[arg[c]]] /\ UNCHANGED scratch
           /\ Go(c, "return")
           /\ UNCHANGED <<lib, table, flag, lock, arg, left, ok>>
Return(c) == /\ pc[c] = "return"
             /\ ok' = (ok /\ f(arg[c]) = IF lib = "scratch" THEN scratch ELSE own[c])
             /\ Go(c, "idle")
             /\ UNCHANGED <<lib, table, flag, lock, scratch, arg, own, left>>
Next == \E c \in Callers : Begin(c) \/ Check(c) \/ Make(c, 0) \/ Make(c, 1) \/ Set(c) \/ Look(c) \/ Return(c)
Spec == Init /\ [][Next]_vars

\* What a caller is about to read and to write, outside of the lock.
Locked(c) == lib = "once" /\ pc[c] \in {"check", "make0", "make1", "set"}
Reads(c) == CASE pc[c] = "check" -> {"flag"} [] pc[c] = "look" -> {"table"} [] pc[c] = "return" /\ lib = "scratch" -> {"scratch"} [] OTHER -> {}
Writes(c) == CASE pc[c] \in {"make0", "make1"} -> {"table"} [] pc[c] = "set" -> {"flag"} [] pc[c] = "look" /\ lib = "scratch" -> {"scratch"} [] OTHER -> {}

Right == ok
Ordered == \A c, d \in Callers : c # d /\ ~(Locked(c) /\ Locked(d)) => Writes(c) \cap (Reads(d) \cup Writes(d)) = {}
===============================================================================
