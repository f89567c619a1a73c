--------------------------------- MODULE MWeier ---------------------------------
(***************************************************************************)
(* Design model of the point operations: every history of additions,       *)
(* doublings, negations and multiplications on small curves of every shape *)
(* the library has (a = 0, a = -3, n above and below p) keeps the point    *)
(* equal to its logarithm times the generator; the encodings are inverse   *)
(* to each other; the group laws hold.                                     *)
(***************************************************************************)
EXTENDS Weier, FiniteSets, TLC

Toys == << [p |-> 23, a |-> 1, b |-> 4, n |-> 29, g |-> <<0, 2>>],
           [p |-> 23, a |-> 5, b |-> 22, n |-> 17, g |-> <<3, 8>>],
           [p |-> 13, a |-> 0, b |-> 2, n |-> 19, g |-> <<1, 4>>],
           [p |-> 17, a |-> 14, b |-> 3, n |-> 23, g |-> <<1, 1>>] >>

VARIABLES c, P, k
C == Toys[c]
Init == c \in 1 .. Len(Toys) /\ P = Inf /\ k = 0
Next ==
  /\ c' = c
  /\ \/ P' = Add(C, P, C.g) /\ k' = (k + 1) % C.n
     \/ P' = Add(C, C.g, P) /\ k' = (k + 1) % C.n
     \/ P' = Add(C, P, P) /\ k' = (2 * k) % C.n
     \/ P' = Neg(C, P) /\ k' = (C.n - k) % C.n
     \/ P' = Add(C, P, Neg(C, P)) /\ k' = 0
     \/ \E m \in 0 .. 2 * C.n : P' = Mul(C, m, P) /\ k' = (m * k) % C.n
Spec == Init /\ [][Next]_<<c, P, k>>

Homomorphic == PtEq(P, MulG(C, k)) /\ OnCurve(C, P) /\ (P = Inf <=> k = 0)
Encodings ==
  P # Inf => /\ FromXY(C, XY(P)) = <<P>> /\ FromAny(C, Full(P)) = <<P>> /\ FromComp(C, Comp(P)) = <<P>>
             /\ Comp(Neg(C, P)) # Comp(P)
Points(D) == {MulG(D, i) : i \in 0 .. D.n - 1}
GroupLaws ==
  \A Q \in Points(C) : /\ Add(C, P, Q) = Add(C, Q, P)
                       /\ \A R \in {MulG(C, 1), MulG(C, 2), MulG(C, C.n - 1), Q} :
                            Add(C, Add(C, P, Q), R) = Add(C, P, Add(C, Q, R))
Counted == \A D \in {Toys[i] : i \in 1 .. Len(Toys)} :
   Cardinality({xy \in (0 .. D.p - 1) \X (0 .. D.p - 1) : OnCurve(D, xy)}) = D.n - 1 /\ Mul(D, D.n, D.g) = Inf
ASSUME Counted
===============================================================================
