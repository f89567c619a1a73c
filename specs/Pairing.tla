--------------------------------- MODULE Pairing --------------------------------
(***************************************************************************)
(* The pairing of BLS12-381 and its target group.  GF(p^12) is             *)
(* GF(p^2)(w), w^6 = 1 + i: the sequence of the coefficients of 1, w .. w^5.*)
(* The pairing is computed once, from its definition (Miller's function    *)
(* and the final power); any other value is a power of that one.           *)
(***************************************************************************)
EXTENDS BlsG1

Xi == <<1, 1>>
Conj2(a) == <<a[1], NegM(a[2], BlsP)>>
TOne == <<FOne, FZero, FZero, FZero, FZero, FZero>>
TZero == <<FZero, FZero, FZero, FZero, FZero, FZero>>
TEq(a, b) == \A i \in 1 .. 6 : FEq(a[i], b[i])
TCoef(a, b, k) ==      \* the coefficient of w^k, 0 <= k <= 10, of the product of the polynomials
  FoldN(LAMBDA acc, i : FAdd(BlsP, acc, FMul(BlsP, a[i + 1], b[k - i + 1])), FZero, IF k > 5 THEN k - 5 ELSE 0, IF k > 5 THEN 5 ELSE k)
TMul(a, b) == Strict([k \in 1 .. 6 |-> IF k = 6 THEN TCoef(a, b, 5) ELSE FAdd(BlsP, TCoef(a, b, k - 1), FMul(BlsP, Xi, TCoef(a, b, k + 5)))])
TAdd(a, b) == Strict([k \in 1 .. 6 |-> FAdd(BlsP, a[k], b[k])])
TSub(a, b) == Strict([k \in 1 .. 6 |-> FSub(BlsP, a[k], b[k])])
\* The powers p^6 (conjugation) and p.
TConj(a) == Strict([k \in 1 .. 6 |-> IF k % 2 = 1 THEN a[k] ELSE FNeg(BlsP, a[k])])
FPow(a, n) == Fold(LAMBDA acc, bit : LET d == FSqr(BlsP, acc) IN IF bit = 1 THEN FMul(BlsP, d, a) ELSE d, FOne, BitsBE(n))
Gammas == Strict([k \in 1 .. 6 |-> FPow(Xi, (k - 1) ** ((BlsP -- 1) // 6))])
TFrob(a) == Strict([k \in 1 .. 6 |-> FMul(BlsP, Conj2(a[k]), Gammas[k])])
TInv(a) ==             \* by a conj(a), which has even powers of w only: GF(p^6)
  LET n == TMul(a, TConj(a))
      M(x, y) == FMul(BlsP, x, y)
      u0 == FSub(BlsP, M(n[1], n[1]), M(Xi, M(n[3], n[5])))
      u1 == FSub(BlsP, M(Xi, M(n[5], n[5])), M(n[1], n[3]))
      u2 == FSub(BlsP, M(n[3], n[3]), M(n[1], n[5]))
      d == FInv(BlsP, FAdd(BlsP, M(n[1], u0), M(Xi, FAdd(BlsP, M(n[5], u1), M(n[3], u2)))))
  IN TMul(TConj(a), Strict(<<M(u0, d), FZero, M(u1, d), FZero, M(u2, d), FZero>>))
TPow(a, n) == Fold(LAMBDA acc, bit : LET d == TMul(acc, acc) IN IF bit = 1 THEN TMul(d, a) ELSE d, TOne, BitsBE(n))

\* The optimal ate pairing: Miller's function of |x| at the points <<Q, P>>, conjugated
\* (x is negative), to the power 3 (p^12 - 1) / r.
BlsX == HexNat("d201000000010000")
Line(T, m, P) == Strict(<<FSub(BlsP, FMul(BlsP, m, T[1]), T[2]), FZero, FMul(BlsP, FNeg(BlsP, m), <<P[1], 0>>), <<P[2], 0>>, FZero, FZero>>)
Miller(P, Q) ==
  LET F3(x) == FAdd(BlsP, FAdd(BlsP, x, x), x)
      Tangent(T) == FMul(BlsP, F3(FSqr(BlsP, T[1])), FInv(BlsP, FAdd(BlsP, T[2], T[2])))
      Secant(T) == FMul(BlsP, FSub(BlsP, Q[2], T[2]), FInv(BlsP, FSub(BlsP, Q[1], T[1])))
      step(acc, bit) ==
        LET f == acc[1] T == acc[2]
            f2 == TMul(TMul(f, f), Line(T, Tangent(T), P))
            T2 == G2Add(BlsP, T, T)
        IN IF bit = 0 THEN Strict(<<f2, T2>>) ELSE Strict(<<TMul(f2, Line(T2, Secant(T2), P)), G2Add(BlsP, T2, Q)>>)
  IN TConj(Fold(step, <<TOne, Q>>, Tail(BitsBE(BlsX)))[1])
Hard == (3 ** ((((BlsP ** BlsP) ** (BlsP ** BlsP)) -- (BlsP ** BlsP)) ++ 1)) // BLS381.r
FinalPower(f) ==
  LET g == TMul(TConj(f), TInv(f)) IN TPow(TMul(TFrob(TFrob(g)), g), Hard)
Pair(P, Q) == IF P = Inf \/ Q = Inf THEN TOne ELSE FinalPower(Miller(P, Q))
\* The pairing of the generators, and of points with the given logarithms.
E0 == Strict(Pair(BLS381.g, BLS381G2))
TPowR(a, k) == IF BLS381.r \prec (2 ** k) THEN TConj(TPow(a, BLS381.r -- k)) ELSE TPow(a, k)
PairLog(k) == TPowR(E0, k %% BLS381.r)

TMember(a) == TEq(TPow(a, BLS381.r), TOne)
\* Encodings: the coefficients of w^5, w^3, w, w^4, w^2, 1, each with i's part first.
TOrder == <<6, 4, 2, 5, 3, 1>>
TEnc(a) == LET e(k) == BytesBE(a[TOrder[k]][2], 48) \o BytesBE(a[TOrder[k]][1], 48) IN e(1) \o e(2) \o e(3) \o e(4) \o e(5) \o e(6)
TPos == <<6, 3, 5, 2, 4, 1>>           \* where the coefficient of w^(k-1) is
TSeen(s) == Strict([k \in 1 .. 6 |-> <<Num48(s, 2 * TPos[k] - 1), Num48(s, 2 * TPos[k] - 2)>>])
TDec(s) ==
  IF Len(s) # 576 THEN <<>>
  ELSE LET a == TSeen(s)
       IN IF (\A k \in 1 .. 6 : a[k][1] \prec BlsP /\ a[k][2] \prec BlsP) /\ TMember(a) THEN <<a>> ELSE <<>>

---------------------------------------------------------------------------
(* A machine: points in G1 and G2, elements of the target group, and an     *)
(* engine that gathers pairs of points.  The state s has                    *)
(*   p, q   the plain encodings of the points (hexadecimal)                 *)
(*   lp, lq their logarithms                                                *)
(*   t      the encodings of the elements                                   *)
(*   acc    the logarithm of the product of the pairings gathered           *)

R == BLS381.r
Hx(k) == ToHex(BytesBE(k, 32))
Ln(h) == NatBE(B(h))
Product(s, i, j) == MulM(Ln(s.lp[i]), Ln(s.lq[j]), R)
TF2(b) == IF b THEN "true" ELSE "false"
Keep(s, out) == [s |-> s, ok |-> TRUE, out |-> out]
Put(s, d, a) == [s |-> [s EXCEPT !.t[d] = ToHex(TEnc(a))], ok |-> TRUE, out |-> ""]
\* What the event does.
PairResult(s, ev) ==
  LET tt(i) == TSeen(B(s.t[i]))
      k == NatBE(B(ev.k))
  IN CASE ev.op = "add" -> Keep([s EXCEPT !.acc = Hx(AddM(Ln(s.acc), Product(s, ev.a, ev.b), R))], "")
       [] ev.op = "inv" -> Keep([s EXCEPT !.acc = Hx(SubM(Ln(s.acc), Product(s, ev.a, ev.b), R))], "")
       [] ev.op = "reset" -> Keep([s EXCEPT !.acc = Hx(0)], "")
       [] ev.op = "check" -> Keep(s, TF2(Ln(s.acc) \doteq 0))
       [] ev.op = "result" -> Put([s EXCEPT !.acc = Hx(0)], ev.d, PairLog(Ln(s.acc)))
       [] ev.op = "pair" -> Put(s, ev.d, PairLog(Product(s, ev.a, ev.b)))
       [] ev.op = "validate" -> Keep(s, TF2(Product(s, ev.as[1], ev.as[2]) \doteq Product(s, ev.as[3], ev.as[4])))
       [] ev.op \in {"pagain", "qagain"} -> Keep(s, "")
       [] ev.op = "tmul" -> Put(s, ev.d, TMul(tt(ev.a), tt(ev.b)))
       [] ev.op = "tdiv" -> Put(s, ev.d, TMul(tt(ev.a), TInv(tt(ev.b))))
       [] ev.op = "tadd" -> Put(s, ev.d, TAdd(tt(ev.a), tt(ev.b)))
       [] ev.op = "tsub" -> Put(s, ev.d, TSub(tt(ev.a), tt(ev.b)))
       [] ev.op = "tsq" -> Put(s, ev.d, TMul(tt(ev.a), tt(ev.a)))
       [] ev.op = "texp" -> Put(s, ev.d, TPowR(tt(ev.a), k %% R))
       [] ev.op = "tinv" -> Put(s, ev.d, TInv(tt(ev.a)))
       [] ev.op \in {"tset", "tclone"} -> Keep([s EXCEPT !.t[ev.d] = s.t[ev.a]], "")
       [] ev.op = "tone" -> Put(s, ev.d, TOne)
       [] ev.op = "teq" -> Keep(s, TF2(s.t[ev.a] = s.t[ev.b]))
       [] ev.op = "tisone" -> Keep(s, TF2(TEq(tt(ev.a), TOne)))
       [] ev.op = "tvalid" -> Keep(s, TF2(TMember(tt(ev.a))))
       [] ev.op = "tto" -> Keep(s, s.t[ev.a])
       [] ev.op = "tfrom" ->
            LET a == TDec(B(ev.x)) IN IF a = <<>> THEN [s |-> s, ok |-> FALSE, out |-> ""] ELSE Put(s, ev.d, a[1])
\* Whether the code did so.
PairOk(x, ev) == ev.st = "OK" /\ ev.ok = x.ok /\ ev.out = x.out /\ ev.p = x.s.p /\ ev.q = x.s.q /\ ev.t = x.s.t
===============================================================================
