--------------------------------- MODULE Memory ---------------------------------
(***************************************************************************)
(* The caller's memory and the library.                                    *)
(*                                                                         *)
(* The memory is a sequence of buffers.  A slice is a view of a buffer:    *)
(* everything behind the view up to the end of the buffer is its spare     *)
(* capacity.  The caller allocates buffers, overwrites them and calls      *)
(* functions with views as arguments.  A call leaves every buffer as it    *)
(* was; its results are new buffers of their own; and what it answers      *)
(* depends on nothing but the function and the contents of the views.      *)
(***************************************************************************)
EXTENDS Integers, Sequences

\* What a call did: which buffers changed, and in which buffers its results
\* are.  n is the number of buffers there were.
LeavesMemory(did) == did.changed = {}
OwnResults(n, did) ==
  /\ \A i \in DOMAIN did.rets : did.rets[i] > n
  /\ \A i, j \in DOMAIN did.rets : i # j => did.rets[i] # did.rets[j]

\* memo is the sequence of <<question, answer>> so far: a question that was
\* asked before is answered as before.  Where the answer contains a random
\* choice, only the part of it that does not is compared.
SameAnswer(memo, question, answer, Part(_, _)) ==
  \A i \in DOMAIN memo : memo[i][1] = question => Part(question, memo[i][2]) = Part(question, answer)

CallOk(n, memo, question, answer, did, Part(_, _)) ==
  LeavesMemory(did) /\ OwnResults(n, did) /\ SameAnswer(memo, question, answer, Part)
===============================================================================
