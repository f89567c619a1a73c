---------------------------------- MODULE MComb ----------------------------------
(***************************************************************************)
(* Design model of SM2's multiplication of the base point: a comb with     *)
(* Teeth teeth and Tables tables, Bits bits each (4, 2 and 32 in the       *)
(* library), whose addition of affine points is right only if neither      *)
(* point is infinity and they are neither equal nor opposite.  A point is  *)
(* its discrete logarithm here.  For every scalar the exceptional cases    *)
(* never arise, because the scalar is first reduced modulo the order, and  *)
(* the result is the multiple that was asked for.                          *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets

CONSTANTS N, Teeth, Tables, Bits, Faulty
Size == Teeth * Tables * Bits
VARIABLES k, i, j, acc, inf, bad
vars == <<k, i, j, acc, inf, bad>>

BitAt(n, b) == (n \div (2 ^ b)) % 2
Reduced(n) == IF Faulty = "unreduced" THEN n ELSE n % N
\* The teeth of table j in turn i, and what the table holds for them.
Tooth(t) == t * Tables * Bits + j * Bits + (Bits - 1 - i)
Sum(f(_), n) == LET g[m \in 0 .. n] == IF m = 0 THEN 0 ELSE g[m - 1] + f(m - 1) IN g[n]
Index == Sum(LAMBDA t : BitAt(k, Tooth(t)) * 2 ^ t, Teeth)
Held == Sum(LAMBDA t : BitAt(k, Tooth(t)) * 2 ^ (t * Tables * Bits + j * Bits), Teeth) % N

Init == k \in {Reduced(n) : n \in 0 .. 2 ^ Size - 1} /\ i = 0 /\ j = 0 /\ acc = 0 /\ inf = TRUE /\ bad = FALSE
Turn ==
  /\ i < Bits
  /\ LET a == IF j = 0 /\ i # 0 THEN (2 * acc) % N ELSE acc
     IN /\ acc' = (IF inf THEN Held ELSE IF Index # 0 THEN (a + Held) % N ELSE a)
        /\ bad' = (bad \/ (~inf /\ Index # 0 /\ (a = Held \/ (a + Held) % N = 0 \/ a = 0 \/ Held = 0)))
        /\ inf' = (inf /\ (IF Faulty = "mask" THEN j # 0 ELSE Index = 0))
  /\ IF j = Tables - 1 THEN j' = 0 /\ i' = i + 1 ELSE j' = j + 1 /\ i' = i
  /\ k' = k
Next == Turn
Spec == Init /\ [][Next]_vars

Regular == ~bad
Right == i = Bits => acc = k % N /\ (inf <=> k = 0)
==================================================================================
