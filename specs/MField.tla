--------------------------------- MODULE MField ---------------------------------
(***************************************************************************)
(* Design model of the limb arithmetic, with small words: the algorithms   *)
(* the library uses, run step by step on every operand, give what Arith    *)
(* demands.                                                                *)
(*  mont   word-by-word Montgomery multiplication, final subtraction       *)
(*  carry  the carry chain of a product of signed mixed-radix limbs        *)
(*  tobytes  the quotient estimate and the final reduction                 *)
(*  divstep  the Bernstein-Yang inversion                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

CONSTANTS W, M           \* word size in values, odd modulus below W * W

Inv(a, m) == IF \E x \in 1 .. m - 1 : (a * x) % m = 1 THEN CHOOSE x \in 1 .. m - 1 : (a * x) % m = 1 ELSE 0
\* p = 2^8 - 3 in limbs of 3, 2 and 3 bits
P == 253
Bits == <<3, 2, 3>>
Off == <<0, 3, 5>>
P2(k) == 2 ^ k
Val(h) == h[1] + 8 * h[2] + 32 * h[3]
Wide == -21 .. 21
Tight == {<<a, b, c>> : a \in -4 .. 4, b \in -2 .. 2, c \in -4 .. 4}

VARIABLES kind, a, b, acc, i, out
vars == <<kind, a, b, acc, i, out>>

DivIters == 18          \* enough for values below 2^5 (checked below)
RECURSIVE HalfPow(_)
HalfPow(k) == IF k = 0 THEN 1 ELSE (HalfPow(k - 1) * ((M + 1) \div 2)) % M
Init ==
  \/ kind = "mont" /\ a \in 0 .. M - 1 /\ b \in 0 .. M - 1 /\ acc = 0 /\ i = 1 /\ out = <<>>
  \/ kind = "carry" /\ (\E x \in Wide, y \in Wide, z \in Wide : a = <<x, y, z>>) /\ b = 0 /\ acc = a /\ i = 1 /\ out = <<>>
  \/ kind = "tobytes" /\ a \in Tight /\ b = 0 /\ acc = a /\ i = 1 /\ out = <<>>
  \/ kind = "divstep" /\ a \in 0 .. M - 1 /\ b = 0 /\ acc = <<1, M, a, 0, 1>> /\ i = 1 /\ out = <<>>

\* ---- Montgomery
WordOf(x, j) == IF j = 1 THEN x % W ELSE x \div W
NegInvW == (W - Inv(M % W, W)) % W
Mont ==
  /\ kind = "mont"
  /\ \/ i <= 2 /\ (LET s == acc + WordOf(a, i) * b
                      q == ((s % W) * NegInvW) % W
                  IN acc' = (s + q * M) \div W) /\ i' = i + 1 /\ out' = out
     \/ i = 3 /\ out' = <<IF acc >= M THEN acc - M ELSE acc>> /\ i' = 4 /\ acc' = acc
\* ---- carries: 1, 2, 3 (into the first, times 3), 1 again
Carry(h, k) ==
  LET c == (h[k] + P2(Bits[k] - 1)) \div P2(Bits[k])
  IN [h EXCEPT ![k] = @ - c * P2(Bits[k]), ![(k % 3) + 1] = @ + (IF k = 3 THEN 3 * c ELSE c)]
Chain == <<1, 2, 3, 1, 2>>
CarryStep ==
  /\ kind = "carry" /\ i <= Len(Chain)
  /\ acc' = Carry(acc, Chain[i]) /\ i' = i + 1 /\ out' = (IF i = Len(Chain) THEN <<acc'>> ELSE out)
\* ---- to bytes
Quot(h) == LET q0 == (3 * h[3] + 4) \div 8
               q1 == (h[1] + q0) \div 8
               q2 == (h[2] + q1) \div 4
           IN (h[3] + q2) \div 8
ToBytes ==
  /\ kind = "tobytes" /\ i <= 4
  /\ IF i = 1 THEN acc' = [acc EXCEPT ![1] = @ + 3 * Quot(acc)] /\ out' = out
     ELSE LET k == i - 1
              c == acc[k] \div P2(Bits[k])
              r == [acc EXCEPT ![k] = @ - c * P2(Bits[k])]
          IN /\ acc' = (IF k < 3 THEN [r EXCEPT ![k + 1] = @ + c] ELSE r)
             /\ out' = (IF k = 3 THEN <<Val(acc')>> ELSE out)
  /\ i' = i + 1
\* ---- division steps, with v and r modulo M
DivStep ==
  /\ kind = "divstep" /\ i <= DivIters
  /\ LET d == acc[1]  f == acc[2]  g == acc[3]  v == acc[4]  r == acc[5]  odd == g % 2
     IN acc' = IF d > 0 /\ odd = 1 THEN <<1 - d, g, (g - f) \div 2, (2 * r) % M, (r - v) % M>>
               ELSE <<1 + d, f, (g + odd * f) \div 2, (2 * v) % M, (r + odd * v) % M>>
  /\ i' = i + 1
  /\ out' = (IF i = DivIters THEN LET pre == HalfPow(DivIters)
                                      v == IF acc'[2] < 0 THEN (0 - acc'[4]) % M ELSE acc'[4]
                                  IN <<(v * pre) % M>> ELSE out)
Next == (Mont \/ CarryStep \/ ToBytes \/ DivStep) /\ UNCHANGED <<kind, a, b>>
Spec == Init /\ [][Next]_vars

MontRight == kind = "mont" =>
  /\ acc < 2 * M
  /\ out # <<>> => (out[1] * W * W) % M = (a * b) % M /\ out[1] < M
CarryRight == kind = "carry" =>
  /\ (Val(acc) - Val(a)) % P = 0
  /\ out # <<>> => /\ out[1][1] \in -5 .. 5 /\ out[1][2] \in -3 .. 3 /\ out[1][3] \in -6 .. 6
BytesRight == kind = "tobytes" => (out # <<>> => out[1] = Val(a) % P)
DivRight == kind = "divstep" =>
  /\ acc[2] % 2 = 1                                    \* f stays odd
  \* v and r keep f and g as multiples of a: f * 2^k = v * a, g * 2^k = r * a
  /\ (acc[4] * a - acc[2] * 2 ^ (i - 1)) % M = 0 /\ (acc[5] * a - acc[3] * 2 ^ (i - 1)) % M = 0
  /\ out # <<>> => acc[3] = 0 /\ out[1] = Inv(a, M)
===============================================================================
