--------------------------------- MODULE MPasta ---------------------------------
(***************************************************************************)
(* Design model of the sponge and of the Schnorr scheme with a curve over  *)
(* GF(13) of 19 points and three rounds of Poseidon: the permutation is    *)
(* one-to-one; a sponge fed element by element gives the hash of the list  *)
(* whatever the pieces; for each key and message and each r the verifier   *)
(* accepts exactly one s, that of the signer, and none when r is the x of  *)
(* no point.                                                               *)
(***************************************************************************)
EXTENDS Pasta, FiniteSets, TLC

TC == [p |-> 13, a |-> 0, b |-> 2, n |-> 19, g |-> <<1, 4>>]
TH == [c |-> TC, rk |-> << <<3, 1, 12>>, <<0, 7, 5>>, <<11, 2, 2>>, <<6, 9, 4>> >>,
       mds |-> << <<2, 3, 1>>, <<1, 2, 3>>, <<4, 1, 2>> >>, ri |-> 7]
F13 == 0 .. 12
ASSUME Cardinality({Permute(TH, <<x, y, z>>) : x \in F13, y \in F13, z \in F13}) = 13 * 13 * 13

VARIABLES S, L, d
vars == <<S, L, d>>
Init == S = SpongeNew(<<5, 0, 9>>) /\ L = <<>> /\ d \in 1 .. 18
Next == Len(L) < 4 /\ d' = d /\ \E x \in {0, 1, 12} : S' = SpongeAbsorb(TH, S, x) /\ L' = Append(L, x)
Spec == Init /\ [][Next]_vars

\* The definition by blocks, to compare with.
RECURSIVE Blocks(_, _)
Blocks(s, l) ==
  LET a == IF Len(l) > 0 THEN l[1] ELSE 0 b == IF Len(l) > 1 THEN l[2] ELSE 0
      t == Permute(TH, <<AddM(s[1], a, 13), AddM(s[2], b, 13), s[3]>>)
  IN IF Len(l) <= 2 THEN t[1] ELSE Blocks(t, SubSeq(l, 3, Len(l)))
Sponge == /\ S.n \in 0 .. 2 /\ SpongeOut(TH, S) = Blocks(<<5, 0, 9>>, L)
          /\ SpongeOut(TH, S) = Poseidon(TH, <<5, 0, 9>>, L)

Evens == {k \in 1 .. 18 : Bit(MulG(TC, k)[2], 0) = 0}
Schnorr ==
  Len(L) \in {1, 2} =>
    LET P == MulG(TC, d) m == [pre |-> Tail(L), suf |-> <<L[1]>>, iv |-> <<1, 2, 3>>] IN
    \A r \in 0 .. 14 : \A s \in 0 .. 20 :
      MinaAccepts(TH, P, m, r, s) <=>
        \E k \in Evens : /\ MulG(TC, k)[1] = r
                         /\ s = AddM(k, MulM(MinaHash(TH, m, P, r), d, 19), 19)
                         /\ MinaNonce(TH, d, P, m, r, s) = k
===============================================================================
