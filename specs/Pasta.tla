--------------------------------- MODULE Pasta ---------------------------------
(***************************************************************************)
(* The Poseidon sponge and Mina's Schnorr signatures on a curve of prime   *)
(* order n > p.  A system is a record [c, rk, mds, ri]: the curve, the     *)
(* round keys (one triple more than there are rounds), the 3x3 matrix, and *)
(* the inverse of the Montgomery radix in which messages carry their field *)
(* elements.                                                               *)
(***************************************************************************)
EXTENDS Weier

Pow5(p, x) == LET t == MulM(x, x, p) IN MulM(MulM(t, t, p), x, p)
SAdd(p, s, k) == Strict(<<AddM(s[1], k[1], p), AddM(s[2], k[2], p), AddM(s[3], k[3], p)>>)
SRow(p, m, s) == AddM(AddM(MulM(m[1], s[1], p), MulM(m[2], s[2], p), p), MulM(m[3], s[3], p), p)
SRound(p, mds, s, k) ==
  LET t == SAdd(p, s, k)
      u == Strict(<<Pow5(p, t[1]), Pow5(p, t[2]), Pow5(p, t[3])>>)
  IN Strict(<<SRow(p, mds[1], u), SRow(p, mds[2], u), SRow(p, mds[3], u)>>)
Permute(H, s) ==
  LET n == Len(H.rk)
  IN SAdd(H.c.p, Fold(LAMBDA acc, k : SRound(H.c.p, H.mds, acc, k), s, SubSeq(H.rk, 1, n - 1)), H.rk[n])

\* The sponge: two elements are absorbed before each permutation.  State of a
\* sponge object: [s, n], n elements absorbed since the last permutation.
SpongeNew(iv) == [s |-> iv, n |-> 0]
SpongeAbsorb(H, S, x) ==
  LET T == IF S.n = 2 THEN [s |-> Permute(H, S.s), n |-> 0] ELSE S
      i == T.n + 1
  IN [s |-> Strict([T.s EXCEPT ![i] = AddM(T.s[i], x, H.c.p)]), n |-> i]
SpongeOut(H, S) == Permute(H, S.s)[1]
Poseidon(H, iv, xs) == SpongeOut(H, Fold(LAMBDA S, x : SpongeAbsorb(H, S, x), SpongeNew(iv), xs))

---------------------------------------------------------------------------
(* A message is [pre, suf, iv] of field elements. *)

MinaHash(H, m, P, r) == Poseidon(H, m.iv, m.pre \o <<P[1], P[2], r>> \o m.suf)
\* s G = R + e P, x(R) = r, y(R) even.
MinaAccepts(H, P, m, r, s) ==
  /\ P # Inf /\ r \prec H.c.p /\ s \prec H.c.n
  /\ LET e == MinaHash(H, m, P, r)
         R == Add(H.c, MulG(H.c, s), Neg(H.c, Mul(H.c, e, P)))
     IN R # Inf /\ R[1] \doteq r /\ Bit(R[2], 0) = 0
\* The scalar k of R = k G in the signature by the key d: k or n - k.
MinaNonce(H, d, P, m, r, s) == SubM(s, MulM(MinaHash(H, m, P, r), d, H.c.n), H.c.n)

\* The elements carried by a message in Montgomery form; <<>> when one is not below p.
Unpack(H, raw) == [i \in 1 .. Len(raw) |-> MulM(raw[i], H.ri, H.c.p)]
Packed(H, raw) == \A i \in 1 .. Len(raw) : raw[i] \prec H.c.p
===============================================================================
