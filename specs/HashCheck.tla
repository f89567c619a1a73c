------------------------------- MODULE HashCheck -------------------------------
(* The native evaluation of many zero blocks agrees with its definition, and   *)
(* a message that begins with zeros with the same message written out.         *)
EXTENDS Hashes

VARIABLES n, k
Init == n \in 0 .. 3 /\ k \in {0, 1, 55, 56, 63, 64, 65, 130}
Next == FALSE /\ UNCHANGED <<n, k>>
Spec == Init /\ [][Next]_<<n, k>>

S == [i \in 1 .. k |-> (i * 7 + n) % 256]
Long == Zeros(64 * n) \o S
Salt == [i \in 1 .. 16 |-> i * n]
P == PlainParam(32, 20 + n, 0)
Same ==
  /\ SM3long(n, S) = SM3(Long)
  /\ BLAKE256long(Salt, n, S) = BLAKE256(Salt, Long)
  /\ BLAKE224long(Salt, n, S) = BLAKE224(Salt, Long)
  /\ k > 0 => BLAKE2Slong(P, FALSE, 20 + n, n, S) = BLAKE2Sraw(P, <<>>, FALSE, 20 + n, Long)
  /\ k > 0 => BLAKE2Slong(P, TRUE, 20 + n, n, S) = BLAKE2Sraw(P, <<>>, TRUE, 20 + n, Long)
================================================================================
