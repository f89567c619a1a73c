--------------------------------- MODULE MPairing -------------------------------
(***************************************************************************)
(* Design model of the pairing engine.  A point is its logarithm modulo R  *)
(* and a flag that says whether its coordinates are affine; the Miller     *)
(* loop is right for affine points other than the neutral one only.  The   *)
(* engine has a list of pairs, and its answers are to be those of the sum  *)
(* of the products of the logarithms since it was last empty.              *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANTS R, Length, Faulty
Scalars == 0 .. R - 1
Point == [k : Scalars, affine : BOOLEAN]
Garbage == R
VARIABLES p, q, pairs, sum, last, want, p0, q0
vars == <<p, q, pairs, sum, last, want, p0, q0>>

Init == /\ p \in [1 .. 2 -> Point] /\ q \in [1 .. 1 -> Point]
        /\ p0 = p /\ q0 = q /\ pairs = <<>> /\ sum = 0 /\ last = 0 /\ want = 0
Affine(x) == [x EXCEPT !.affine = TRUE]
Neg(x) == [x EXCEPT !.k = (R - x.k) % R]
Zero(x) == x.k = 0
\* The pair of the points x and y, which the engine makes affine.
Enter(x, y) ==
  IF (Zero(x) \/ Zero(y)) /\ Faulty # "zero" THEN pairs
  ELSE Append(pairs, IF Faulty = "rep" THEN <<x, y>> ELSE <<Affine(x), Affine(y)>>)
Normal(x, other) == IF Zero(x) \/ Zero(other) \/ Faulty = "rep" THEN x ELSE Affine(x)
AddPair(i, j) ==
  /\ Len(pairs) < Length
  /\ pairs' = Enter(p[i], q[j])
  /\ p' = [p EXCEPT ![i] = Normal(@, q[j])] /\ q' = [q EXCEPT ![j] = Normal(@, p[i])]
  /\ sum' = (sum + p[i].k * q[j].k) % R /\ UNCHANGED <<last, want, p0, q0>>
AddPairInv(i, j) ==
  /\ Len(pairs) < Length
  /\ pairs' = Enter(Neg(p[i]), q[j])
  /\ p' = (IF Faulty = "neg" THEN [p EXCEPT ![i] = Neg(@)] ELSE p) /\ q' = [q EXCEPT ![j] = Normal(@, p[i])]
  /\ sum' = (sum - p[i].k * q[j].k) % R /\ UNCHANGED <<last, want, p0, q0>>
RECURSIVE Value(_)
Value(s) ==
  IF s = <<>> THEN 0
  ELSE LET v == Value(Tail(s)) x == s[1][1] y == s[1][2]
       IN IF v = Garbage \/ Zero(x) \/ Zero(y) \/ ~x.affine \/ ~y.affine THEN Garbage ELSE (v + x.k * y.k) % R
Result == /\ last' = Value(pairs) /\ want' = sum
          /\ pairs' = (IF Faulty = "keep" THEN pairs ELSE <<>>) /\ sum' = 0 /\ UNCHANGED <<p, q, p0, q0>>
Check == /\ last' = (IF Value(pairs) = 0 THEN 0 ELSE 1) /\ want' = (IF sum = 0 THEN 0 ELSE 1)
         /\ pairs' = (IF Faulty = "gone" THEN <<>> ELSE pairs) /\ UNCHANGED <<p, q, sum, p0, q0>>
Reset == pairs' = <<>> /\ sum' = 0 /\ UNCHANGED <<p, q, last, want, p0, q0>>
Next == (\E i \in 1 .. 2, j \in 1 .. 1 : AddPair(i, j) \/ AddPairInv(i, j)) \/ Result \/ Check \/ Reset
Spec == Init /\ [][Next]_vars
Right == last = want /\ (\A i \in 1 .. 2 : p[i].k = p0[i].k) /\ q[1].k = q0[1].k
===============================================================================
