---------------------------------- MODULE MMont ----------------------------------
(***************************************************************************)
(* Design model of the x-only arithmetic of EC-KCDSA on small curves.  The *)
(* ladder and the double ladder of the library, formula by formula, for    *)
(* every scalar of N bits and every u of the curve and of its twist:       *)
(* the ladder gives the multiple that the group law gives, the double      *)
(* ladder gives v abs(P) + h G, and an exchange of keys agrees.            *)
(***************************************************************************)
EXTENDS Ed25519, Mont, FiniteSets, TLC

CONSTANTS N, Faulty
Toys == << [p |-> 37, d |-> 20, n |-> 5, b |-> <<8, 14>>, A |-> 7, gu |-> 33, gv |-> 28],
           [p |-> 53, d |-> 39, n |-> 7, b |-> <<11, 14>>, A |-> 14, gu |-> 7, gv |-> 20] >>
VARIABLES c, u, v, h, step
E == Toys[c]
\* (A - 2) / 4
A24(F) == MulM(F.A - 2, InvM(4, F.p), F.p)

BitAt(n, i) == (n \div (2 ^ i)) % 2
F(x) == x % E.p
Prep(q) == <<F(q[1] + q[2]), F(q[1] - q[2])>>
Sum(a, b, dx) ==       \* of two prepared points whose difference has the u coordinate dx
  LET x == F(a[2] * b[1]) z == F(a[1] * b[2])
  IN <<F(F(x + z) * F(x + z)), F(F(F(x - z) * F(x - z)) * dx)>>
Dbl(b) ==
  LET s == F(b[1] * b[1]) t == F(b[2] * b[2]) m == F(s - t)
  IN <<F(s * t), F(F(s + F(m * A24(E))) * m)>>
Out(q) == F(q[1] * InvM(q[2], E.p))

RECURSIVE Ladder(_, _, _, _)
Ladder(k, dx, i, xs) ==    \* xs: the two points; from bit i down
  IF i < 0 THEN xs
  ELSE LET bit == BitAt(k, i)
           a == Prep(xs[2 - bit]) b == Prep(xs[bit + 1])
           sum == Sum(a, b, IF Faulty = "nine" THEN E.gu ELSE dx) dbl == Dbl(b)
       IN Ladder(k, dx, i - 1, IF bit = 0 THEN <<dbl, sum>> ELSE <<sum, dbl>>)
Curve(k, x) == Out(Ladder(k, x, N - 1, << <<1, 0>>, <<x, 1>> >>)[1])

\* The double ladder.
W(n, i) == (IF i >= N THEN 0 ELSE BitAt(n, i)) # (IF i = 0 THEN 0 ELSE BitAt(n, i - 1))
RECURSIVE D(_)
D(i) == LET w == W(v, i) IN IF i = 0 THEN w ELSE w # ((W(v, i) = W(h, i)) /\ D(i - 1))
One(b) == IF b THEN 1 ELSE 0
Sd(P) ==       \* u of |P| + G and |P| - G
  LET yy == MulM(P[2], P[2], E.p) gg == MulM(E.gv, E.gv, E.p) cross == F(2 * F(P[2] * E.gv))
      i == InvM(F(F(P[1] - E.gu) * F(P[1] - E.gu)), E.p)
      of(t) == F(F(t * i) - P[1] - E.gu - E.A)
  IN <<of(F(yy + gg - cross)), of(F(yy + gg + cross))>>
RECURSIVE Double(_, _, _, _)
Double(ps, sd, i, y) ==
  IF i < 0 THEN y
  ELSE LET t == <<Prep(y[1]), Prep(y[2]), Prep(y[3])>>
           k == One(W(v, i + 1)) + One(W(h, i + 1))
           di == One(D(i)) dn == One(D(i + 1))
           y0 == Dbl(t[k + 1])
           y1 == Sum(t[2], t[1 + 2 * One(di # dn)], ps[1 + di])
           y2 == Sum(t[3], t[1], sd[1 + One((i + 1 < N) /\ (BitAt(v, i + 1) # BitAt(h, i + 1)))])
       IN Double(ps, sd, i - 1, <<y0, y1, y2>>)
Verify ==
  LET P == MAbs(E, u)[1]
      ps == <<E.gu, u>> sd == Sd(P)
      y == Double(ps, sd, N - 1, << <<1, 0>>, <<ps[1 + One(D(N))], 1>>, <<sd[1], 1>> >>)
      special == (u = E.gu /\ Faulty # "base") \/ (Faulty # "torsion" /\ (u = 0 \/ u = InvM(E.gu, E.p)))
      \* abs(P) = G + (0, 0), or (0, 0) - G where that has the even v
      even == u = E.gu \/ F(E.p - F(E.gv * F(InvM(E.gu, E.p) * InvM(E.gu, E.p)))) % 2 = 0
      k == IF u = 0 THEN h ELSE IF even THEN (v + h) % E.n ELSE (h - v) % E.n
  IN IF special THEN LET x == Curve(k, E.gu) IN IF u # E.gu /\ v % 2 = 1 THEN InvM(x, E.p) ELSE x
     ELSE Out(y[1 + BitAt(v, 0) + BitAt(h, 0)])

Init == /\ c \in 1 .. 2 /\ u \in 0 .. Toys[c].p - 1 /\ v \in 0 .. 2 ^ N - 1 /\ h \in 0 .. 2 ^ N - 1 /\ step = 0
Next == step = 0 /\ step' = 1 /\ UNCHANGED <<c, u, v, h>>
Spec == Init /\ [][Next]_<<c, u, v, h, step>>

Ladders == Curve(v, u) = UMul(E, v, u)
Agree == Curve(v, Curve(h, u)) = Curve(h, Curve(v, u))
Doubles ==
  LET P == MAbs(E, u)
  IN P # <<>> => Verify = UOf(MAdd(E, MMul(E, v, P[1]), MMul(E, h, MBase(E))))
===============================================================================
