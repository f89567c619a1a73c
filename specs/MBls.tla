---------------------------------- MODULE MBls ----------------------------------
(***************************************************************************)
(* Design model of the BLS scheme on toy groups of order 7 over GF(31) and *)
(* GF(31^2), with encodings of 1 and 2 bytes: every history of signatures  *)
(* being aggregated is the sum, whatever the order; of all byte strings    *)
(* exactly the encodings of the 7 points of each subgroup decode; exactly  *)
(* one byte string is accepted for each key and message hash.              *)
(***************************************************************************)
EXTENDS Bls, FiniteSets, TLC

E == [p |-> 31, r |-> 7, w |-> 1, b |-> 7, b2 |-> <<18, 24>>, g |-> <<27, 6>>]
F31 == 0 .. 30
Fp2 == F31 \X F31

\* Field of 961 elements.
ASSUME \A a \in Fp2 : /\ ~FIsZero(a) => FMul(31, a, FInv(31, a)) = FOne
                      /\ LET s == FSqrt(31, a) IN (s # <<>> => FSqr(31, s[1]) = a) /\ (s # <<>> <=> FIsSquare(31, a))
ASSUME Cardinality({FSqr(31, a) : a \in Fp2}) = 481
ASSUME \A a \in Fp2 : ~FIsZero(a) => FLarger(31, a) + FLarger(31, FNeg(31, a)) = 1 /\ FSgn0(a) + FSgn0(FNeg(31, a)) = 1

Bytes1 == 0 .. 255
D1 == {s \in Bytes1 : G1Dec(E, <<s>>) # <<>>}
D2 == {<<129, 22>>, <<133, 17>>, <<153, 23>>, <<161, 22>>, <<165, 17>>, <<185, 23>>, <<192, 0>>}
ASSUME D2 = {s \in Bytes1 \X Bytes1 : G2Dec(E, s) # <<>>}
ASSUME Cardinality(D1) = 7 /\ \A s \in D1 : G1Enc(E, G1Dec(E, <<s>>)[1]) = <<s>>
ASSUME Cardinality(D2) = 7 /\ \A s \in D2 : G2Enc(E, G2Dec(E, s)[1]) = s
ASSUME \A n \in 0 .. 3 : n # 1 => G1Dec(E, Zeros(n)) = <<>> /\ (n # 2 => G2Dec(E, Zeros(n)) = <<>>)

VARIABLES H, S, s, n, L     \* L: the encoded signatures so far
vars == <<H, S, s, n, L>>
G2s == {G2Dec(E, x)[1] : x \in D2}
Init == H \in G2s \ {Inf} /\ S = Inf /\ s = 0 /\ n = 0 /\ L = <<>>
Next == /\ n < 3 /\ n' = n + 1 /\ H' = H
        /\ \E k \in 0 .. 6 : LET T == BlsSig(E, k, H) IN
             /\ S' = G2Add(31, S, T) /\ s' = (s + k) % 7 /\ L' = Append(L, G2Enc(E, T))
Spec == Init /\ [][Next]_vars

Sum == /\ S = G2Mul(31, s, H) /\ G2On(31, FZero, E.b2, S)
       /\ BlsSum(E, L) = (IF L = <<>> THEN <<>> ELSE <<S>>)
       /\ \A i \in 1 .. Len(L) : BlsSum(E, [L EXCEPT ![i] = <<0, 0>>]) = <<>>
       /\ G2Dec(E, G2Enc(E, S)) = <<S>>
OneSignature ==
  \A k \in 1 .. 6 : \A x \in D2 : BlsAccepts(E, k, BlsPub(E, k), H, x) <=> G2Dec(E, x)[1] = G2Mul(31, k, H)
NoIdentityKey == \A x \in D2 : ~BlsAccepts(E, 0, G1Enc(E, Inf), H, x)
\* The aggregate under the sum of the keys.
Aggregate == s # 0 => BlsAccepts(E, s, BlsPub(E, s), H, G2Enc(E, S))
===============================================================================
