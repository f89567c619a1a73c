-------------------------------- MODULE MInverse --------------------------------
(***************************************************************************)
(* Design model of the field inverse of package bls: the almost Montgomery *)
(* inverse, word for word, with words of N + Slack bits (N + 3 = 384 in    *)
(* the library), for every odd modulus of N bits and every operand that is *)
(* prime to it.  Phase 1 ends before its bound, in N to 2 N - 1 steps; no      *)
(* carry out of a word is lost; the result is reduced and is the inverse   *)
(* of the operand times R^2, so that Montgomery forms go to Montgomery     *)
(* forms.                                                                  *)
(***************************************************************************)
EXTENDS Naturals

CONSTANTS N, Slack, Bound, Least, Most, Faulty
W == N + Slack
Full == 2 ^ W
Moduli == {m \in 2 ^ (N - 1) .. 2 ^ N - 1 : m % 2 = 1}
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)

VARIABLES p, e, u, v, r, s, k, z, lost, pc, out
vars == <<p, e, u, v, r, s, k, z, lost, pc, out>>

Init == /\ p \in Moduli
        /\ e \in {x \in 1 .. p - 1 : Gcd(p, x) = 1}
        /\ u = p /\ v = e /\ r = 0 /\ s = 1 /\ k = 0 /\ z = 0 /\ lost = FALSE /\ pc = "one" /\ out = 0

\* One turn of the first loop.
One ==
  /\ pc = "one"
  /\ IF v = 0 THEN pc' = "check" /\ UNCHANGED <<u, v, r, s, k, z, lost>>
     ELSE IF k >= Bound THEN pc' = "zero" /\ UNCHANGED <<u, v, r, s, k, z, lost>>
     ELSE /\ pc' = "one" /\ k' = k + 1
          /\ CASE u % 2 = 0 -> u' = u \div 2 /\ s' = (2 * s) % Full /\ lost' = (lost \/ 2 * s >= Full) /\ UNCHANGED <<v, r, z>>
               [] u % 2 # 0 /\ v % 2 = 0 -> v' = v \div 2 /\ r' = (2 * r) % Full /\ z' = z + (2 * r) \div Full /\ UNCHANGED <<u, s, lost>>
               [] u % 2 # 0 /\ v % 2 # 0 /\ u > v ->
                    /\ u' = (u - v) \div 2 /\ r' = (r + s) % Full /\ s' = (2 * s) % Full
                    /\ lost' = (lost \/ r + s >= Full \/ 2 * s >= Full) /\ UNCHANGED <<v, z>>
               [] u % 2 # 0 /\ v % 2 # 0 /\ u <= v ->
                    /\ v' = (v - u) \div 2 /\ s' = (s + r) % Full /\ r' = (2 * r) % Full /\ z' = z + (2 * r) \div Full
                    /\ lost' = (lost \/ s + r >= Full) /\ UNCHANGED u
  /\ UNCHANGED <<p, e, out>>
Check ==
  /\ pc = "check"
  /\ IF k < Least \/ k > Most THEN pc' = "zero" /\ UNCHANGED u
     ELSE /\ pc' = "two"
          /\ u' = LET rr == IF Faulty = "nosub" THEN r ELSE IF r >= p \/ z > 0 THEN (r + Full - p) % Full ELSE r
                  IN (p + Full - rr) % Full
  /\ UNCHANGED <<p, e, v, r, s, k, z, lost, out>>
\* The second loop: 2 W - k doublings modulo p.
RECURSIVE Doubled(_, _)
Doubled(x, n) == IF n <= 0 THEN x ELSE Doubled((2 * x) % p, n - 1)
Two ==
  /\ pc = "two"
  /\ pc' = "done"
  /\ out' = Doubled(u, (IF Faulty = "short" THEN 2 * N ELSE 2 * W) - k)
  /\ UNCHANGED <<p, e, u, v, r, s, k, z, lost>>
Next == One \/ Check \/ Two
Spec == Init /\ [][Next]_vars

NoCarry == ~lost
Ends == pc # "zero" /\ (pc \in {"check", "two", "done"} => N <= k /\ k < 2 * N)
Inverse == pc = "done" => out < p /\ (out * e) % p = (Full * Full) % p
\* No step of the first loop changes what is being computed: p = u s + v r, and r = -u-part of e.
Sums == pc = "one" /\ ~lost => p = u * s + v * (r + z * Full)
=================================================================================
