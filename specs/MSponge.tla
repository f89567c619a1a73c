--------------------------------- MODULE MSponge --------------------------------
(***************************************************************************)
(* Design model of sponge contexts, with the permutation of a toy field.   *)
(* A context permutes lazily: when a third element arrives, not when the   *)
(* second one does.  Two contexts are fed, copied and read in every order; *)
(* the answer is to depend on the elements that the context (or the one it *)
(* is a copy of) was fed since it was made, by the definition in blocks,   *)
(* not on how they were cut or on the other context.  Faulty chooses a     *)
(* wrong context: one that permutes as soon as it is full, a copy that     *)
(* shares the elements, one whose digest leaves the elements behind, one   *)
(* that forgets its position when nothing is fed.                          *)
(***************************************************************************)
EXTENDS Pasta, TLC
CONSTANTS Faulty, N

TC == [p |-> 7, a |-> 0, b |-> 3, n |-> 13, g |-> <<1, 2>>]
TH == [c |-> TC, rk |-> << <<3, 1, 5>>, <<0, 2, 4>>, <<6, 2, 2>> >>, mds |-> << <<2, 3, 1>>, <<1, 2, 3>>, <<4, 1, 2>> >>, ri |-> 1]

VARIABLES mem,   \* cells that hold the elements of a context
          ctx,   \* contexts: the cell, the position
          fed,   \* what each context was fed: since it was made, and since its last digest
          answer \* the last digest and what it ought to be
vars == <<mem, ctx, fed, answer>>
Fresh == <<0, 0, 0>>
Init == /\ mem = <<Fresh, Fresh>> /\ ctx = << [cell |-> 1, n |-> 0], [cell |-> 2, n |-> 0] >>
        /\ fed = << <<>>, <<>> >> /\ answer = <<0, 0>>

\* The definition: the elements in blocks of two, a permutation between blocks and after the last.
RECURSIVE Sum(_, _)
Sum(s, l) ==
  IF Len(l) <= 2 THEN <<AddM(s[1], IF Len(l) > 0 THEN l[1] ELSE 0, 7), AddM(s[2], IF Len(l) > 1 THEN l[2] ELSE 0, 7), s[3]>>
  ELSE Sum(Permute(TH, Sum(s, SubSeq(l, 1, 2))), SubSeq(l, 3, Len(l)))
Right(l) == Permute(TH, Sum(Fresh, l))[1]

\* The machine: one call with a list of elements.
Step(st, x) ==
  LET t == IF st.n = 2 THEN [s |-> Permute(TH, st.s), n |-> 0] ELSE st
      u == [s |-> [t.s EXCEPT ![t.n + 1] = AddM(@, x, 7)], n |-> t.n + 1]
  IN IF Faulty = "eager" /\ u.n = 2 THEN [s |-> Permute(TH, u.s), n |-> 0] ELSE u
Run(st, xs) == IF xs = <<>> /\ Faulty = "empty" THEN [st EXCEPT !.n = 0] ELSE Fold(Step, st, xs)
Pieces == {<<>>, <<1>>, <<6, 1>>, <<2, 0, 1>>}

Feed(c, xs) ==
  /\ Len(fed[c]) + Len(xs) <= N
  /\ \E st \in {Run([s |-> mem[ctx[c].cell], n |-> ctx[c].n], xs)} :
       mem' = [mem EXCEPT ![ctx[c].cell] = st.s] /\ ctx' = [ctx EXCEPT ![c].n = st.n]
  /\ fed' = [fed EXCEPT ![c] = @ \o xs] /\ UNCHANGED answer
Copy(c, d) ==
  /\ c # d
  /\ IF Faulty = "shared" THEN ctx' = [ctx EXCEPT ![d] = ctx[c]] /\ mem' = mem
     ELSE ctx' = [ctx EXCEPT ![d].n = ctx[c].n] /\ mem' = [mem EXCEPT ![ctx[d].cell] = mem[ctx[c].cell]]
  /\ fed' = [fed EXCEPT ![d] = fed[c]] /\ UNCHANGED answer
\* The digest is read from a copy; the context itself is made anew.
Digest(c) ==
  /\ answer' = <<Permute(TH, mem[ctx[c].cell])[1], Right(fed[c])>>
  /\ mem' = (IF Faulty = "behind" THEN mem ELSE [mem EXCEPT ![ctx[c].cell] = Fresh])
  /\ ctx' = [ctx EXCEPT ![c].n = 0] /\ fed' = [fed EXCEPT ![c] = <<>>]
Next == \E c \in {1, 2} : (\E xs \in Pieces : Feed(c, xs)) \/ (\E d \in {1, 2} : Copy(c, d)) \/ Digest(c)
Spec == Init /\ [][Next]_vars
Answers == answer[1] = answer[2]
\* Reading a context at any moment would give the right answer.
Agrees == \A c \in {1, 2} : Permute(TH, mem[ctx[c].cell])[1] = Right(fed[c])
===============================================================================
