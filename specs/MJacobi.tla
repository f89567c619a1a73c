--------------------------------- MODULE MJacobi --------------------------------
(***************************************************************************)
(* Addition and doubling in Jacobian coordinates as the library performs   *)
(* them: instruction by instruction, on registers shared by the caller,    *)
(* any of which may be the same one.  For a small curve, every pair of     *)
(* points in every representation and every sharing, the destination ends  *)
(* with the sum and every other register with what it held.                *)
(* Faulty = "early" stores the result's Y before the last use of the       *)
(* operand's Y; "branch" does not tell opposite points from equal ones;    *)
(* "same" lacks the branch for equal points.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS P, B, Faulty

F == 0 .. P - 1
InvF(x) == CHOOSE y \in F : (x * y) % P = 1
Inf == <<0>>
Affine == {Inf} \cup {xy \in F \X F : (xy[2] * xy[2]) % P = (xy[1] * xy[1] * xy[1] + B) % P}
Neg(A) == IF A = Inf THEN Inf ELSE <<A[1], (P - A[2]) % P>>
Add(A, C) ==
  IF A = Inf THEN C ELSE IF C = Inf THEN A
  ELSE IF A = Neg(C) THEN Inf
  ELSE LET m == (IF A = C THEN 3 * A[1] * A[1] * InvF((2 * A[2]) % P) ELSE ((C[2] - A[2]) % P) * InvF((C[1] - A[1]) % P)) % P
           x == (m * m - A[1] - C[1]) % P
       IN <<x, (m * (A[1] - x) - A[2]) % P>>
OfJ(J) == IF J[3] = 0 THEN Inf ELSE LET z == InvF(J[3]) IN <<(J[1] * z * z) % P, (J[2] * z * z * z) % P>>
ToJ(A, z) == <<(A[1] * z * z) % P, (A[2] * z * z * z) % P, z>>
Reps == {ToJ(A, z) : A \in Affine \ {Inf}, z \in F \ {0}} \cup {<<0, 1, 0>>, <<0, 0, 0>>, <<2, 3, 0>>}

\* Instructions: operation, destination, operands.  A place is a temporary or a
\* coordinate of a register that the caller passed as r, p or q.
T(i) == <<"t", i>>
R(i) == <<"r", i>>
A1(i) == <<"p", i>>
A2(i) == <<"q", i>>
AddCode == <<
  <<"sq", T(7), A1(3), T(0)>>, <<"mul", T(1), A2(1), T(7)>>, <<"mul", T(2), A1(3), T(7)>>, <<"mul", T(0), A2(2), T(2)>>,
  <<"sq", T(8), A2(3), T(0)>>, <<"mul", T(3), A1(1), T(8)>>, <<"mul", T(4), A2(3), T(8)>>, <<"mul", T(2), A1(2), T(4)>>,
  <<"test", T(1), T(3), T(0)>>,
  <<"sub", T(1), T(1), T(3)>>, <<"dbl", T(4), T(1), T(0)>>, <<"sq", T(4), T(4), T(0)>>, <<"mul", T(5), T(1), T(4)>>,
  <<"sub", T(0), T(0), T(2)>>, <<"dbl", T(0), T(0), T(0)>>, <<"sq", T(6), T(0), T(0)>>, <<"sub", T(6), T(6), T(5)>>,
  <<"mul", T(3), T(3), T(4)>>, <<"dbl", T(4), T(3), T(0)>>, <<"sub", R(1), T(6), T(4)>>, <<"sub", T(4), T(3), R(1)>>,
  <<"mul", T(6), T(2), T(5)>>, <<"dbl", T(6), T(6), T(0)>>, <<"mul", T(0), T(0), T(4)>>, <<"sub", R(2), T(0), T(6)>>,
  <<"add", T(0), A1(3), A2(3)>>, <<"sq", T(0), T(0), T(0)>>, <<"sub", T(0), T(0), T(7)>>, <<"sub", T(0), T(0), T(8)>>, <<"mul", R(3), T(0), T(1)>> >>
DblTail == IF Faulty = "early"
           THEN << <<"sub", R(2), T(0), T(2)>>, <<"mul", T(0), A1(2), A1(3)>> >>
           ELSE << <<"sub", T(1), T(0), T(2)>>, <<"mul", T(0), A1(2), A1(3)>>, <<"set", R(2), T(1), T(0)>> >>
DblCode == <<
  <<"sq", T(0), A1(1), T(0)>>, <<"sq", T(1), A1(2), T(0)>>, <<"sq", T(2), T(1), T(0)>>, <<"add", T(1), A1(1), T(1)>>, <<"sq", T(1), T(1), T(0)>>,
  <<"sub", T(1), T(1), T(0)>>, <<"sub", T(1), T(1), T(2)>>, <<"dbl", T(1), T(1), T(0)>>, <<"dbl", T(3), T(0), T(0)>>, <<"add", T(0), T(3), T(0)>>,
  <<"sq", T(4), T(0), T(0)>>, <<"dbl", T(3), T(1), T(0)>>, <<"sub", R(1), T(4), T(3)>>, <<"sub", T(1), T(1), R(1)>>, <<"dbl", T(2), T(2), T(0)>>,
  <<"dbl", T(2), T(2), T(0)>>, <<"dbl", T(2), T(2), T(0)>>, <<"mul", T(0), T(0), T(1)>> >> \o DblTail \o << <<"dbl", R(3), T(0), T(0)>> >>

VARIABLES call, code, pc, at, mem, tmp, mem0
vars == <<call, code, pc, at, mem, tmp, mem0>>
\* In a call register 1 is the first operand.
Init ==
  /\ mem \in {<<a, b, ToJ(CHOOSE A \in Affine : A # Inf, 2)>> : a \in Reps, b \in Reps}
  /\ mem0 = mem
  /\ at \in {[r |-> r, p |-> 1, q |-> q] : r \in 1 .. 3, q \in 1 .. 2}
  /\ code \in {"add", "dbl"} /\ (code = "dbl" => at.q = 2 /\ mem[2] = ToJ(CHOOSE A \in Affine : A # Inf, 1))
  /\ call = code /\ pc = 0 /\ tmp = [i \in 0 .. 8 |-> 0]
Val(pl) == IF pl[1] = "t" THEN tmp[pl[2]] ELSE mem[at[pl[1]]][pl[2]]
Body == IF code = "add" THEN AddCode ELSE DblCode
End == 100
Store(pl, v) ==
  IF pl[1] = "t" THEN tmp' = [tmp EXCEPT ![pl[2]] = v] /\ UNCHANGED mem ELSE mem' = [mem EXCEPT ![at[pl[1]]][pl[2]] = v] /\ UNCHANGED tmp
Finish(j) == mem' = [mem EXCEPT ![at.r] = j] /\ pc' = End /\ UNCHANGED <<call, code, at, tmp, mem0>>
Start ==
  /\ pc = 0
  /\ IF mem[at.p][3] = 0 THEN Finish(IF code = "add" THEN mem[at.q] ELSE mem[at.p])
     ELSE IF code = "add" /\ mem[at.q][3] = 0 THEN Finish(mem[at.p])
     ELSE pc' = 1 /\ UNCHANGED <<call, code, at, mem, tmp, mem0>>
Exec ==
  /\ pc \in 1 .. Len(Body)
  /\ LET i == Body[pc] x == Val(i[3]) y == Val(i[4])
     IN IF i[1] = "test"
        THEN IF tmp[1] = tmp[3] /\ Faulty # "same"
             THEN IF tmp[0] = tmp[2] \/ Faulty = "branch" THEN code' = "dbl" /\ pc' = 1 /\ UNCHANGED <<call, at, mem, tmp, mem0>>
                  ELSE Finish(<<0, 1, 0>>)
             ELSE pc' = pc + 1 /\ UNCHANGED <<call, code, at, mem, tmp, mem0>>
        ELSE /\ Store(i[2], CASE i[1] = "sq" -> (x * x) % P [] i[1] = "mul" -> (x * y) % P [] i[1] = "sub" -> (x - y) % P
                              [] i[1] = "add" -> (x + y) % P [] i[1] = "dbl" -> (2 * x) % P [] i[1] = "set" -> x)
             /\ pc' = (IF pc = Len(Body) THEN End ELSE pc + 1)
             /\ UNCHANGED <<call, code, at, mem0>>
Next == Start \/ Exec
ASSUME Cardinality(Affine) = 13
Spec == Init /\ [][Next]_vars

Want == Add(OfJ(mem0[at.p]), OfJ(mem0[IF call = "add" THEN at.q ELSE at.p]))
Right == pc = End => /\ OfJ(mem[at.r]) = Want
                     /\ \A i \in (1 .. 3) \ {at.r} : mem[i] = mem0[i]
===============================================================================
