--------------------------------- MODULE Arith ---------------------------------
(***************************************************************************)
(* The exported field and scalar arithmetic.  An edwards25519 field        *)
(* element is ten signed limbs of alternately 26 and 25 bits; its value is *)
(* taken modulo 2^255 - 19, and every operation promises limbs within      *)
(* bounds that the next one can take.  A pasta element is a number below   *)
(* the modulus; products carry the Montgomery factor.                      *)
(***************************************************************************)
EXTENDS Bytes

---------------------------------------------------------------------------
(* edwards25519 *)
FeP == HexNat("7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed")
FeOffset == <<0, 26, 51, 77, 102, 128, 153, 179, 204, 230>>
FeVal(limbs) == FoldN(LAMBDA acc, i : acc ++ (limbs[i] ** Pow(2, FeOffset[i])), 0, 1, 10)
FeAbs(x) == IF x < 0 THEN -x ELSE x
\* even limbs within b, odd limbs within half of it
FeWithin(limbs, b) == \A i \in 1 .. 10 : FeAbs(limbs[i]) <= (IF i % 2 = 1 THEN b ELSE (b \div 2) + 1)
FeTight == 36909875        \* 1.1 * 2^25
FeLoose == 110729625       \* 1.65 * 2^26
FeSum == 73819751          \* 1.1 * 2^26

\* what can be turned into bytes: results, and sums and differences of them, from -p to p
FeCodes(limbs) == FeWithin(limbs, FeSum) /\ FeVal(limbs) \preceq FeP /\ (0 -- FeP) \preceq FeVal(limbs)

FeCongr(limbs, v) == (FeVal(limbs) %% FeP) \doteq (v %% FeP)
FeResult(limbs, v) == FeWithin(limbs, FeTight) /\ FeCongr(limbs, v)
FeBytes(limbs) == ToHex(BytesLE(FeVal(limbs) %% FeP, 32))

ScL == HexNat("1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed")

\* The call must have been made within the stated input range; then the result is exact.
FeStep(c) ==
  CASE c.op = "FeAdd" -> FeWithin(c.a, FeTight) /\ FeWithin(c.b, FeTight) => FeWithin(c.out, FeSum) /\ FeCongr(c.out, FeVal(c.a) ++ FeVal(c.b))
    [] c.op = "FeSub" -> FeWithin(c.a, FeTight) /\ FeWithin(c.b, FeTight) => FeWithin(c.out, FeSum) /\ FeCongr(c.out, FeVal(c.a) -- FeVal(c.b))
    [] c.op = "FeNeg" -> FeWithin(c.a, FeTight) => FeWithin(c.out, FeTight) /\ FeCongr(c.out, 0 -- FeVal(c.a))
    [] c.op = "FeMul" -> FeWithin(c.a, FeLoose) /\ FeWithin(c.b, FeLoose) => FeResult(c.out, FeVal(c.a) ** FeVal(c.b))
    [] c.op = "FeSquare" -> FeWithin(c.a, FeLoose) => FeResult(c.out, FeVal(c.a) ** FeVal(c.a))
    [] c.op = "FeSquare2" -> FeWithin(c.a, FeLoose) => FeResult(c.out, 2 ** (FeVal(c.a) ** FeVal(c.a)))
    [] c.op = "FeInvert" -> FeWithin(c.a, FeLoose) => FeResult(c.out, InvM(FeVal(c.a) %% FeP, FeP))
    [] c.op = "FeFromBytes" -> FeResult(c.out, NatLE(B(c.a)) %% Pow(2, 255))
    [] c.op = "FeToBytes" -> FeCodes(c.a) => c.out = FeBytes(c.a)
    [] c.op = "FeIsNegative" -> FeCodes(c.a) => c.out = B(FeBytes(c.a))[1] % 2
    [] c.op = "FeIsNonZero" -> FeCodes(c.a) => (c.out = 0) = ((FeVal(c.a) %% FeP) \doteq 0) /\ c.out \in {0, 1}
    [] c.op = "FeCMove" -> c.out = IF c.n = 1 THEN c.b ELSE c.a
    [] c.op = "FeCopy" -> c.out = c.a
    [] c.op = "FeZero" -> FeResult(c.out, 0)
    [] c.op = "FeOne" -> FeResult(c.out, 1)
    [] c.op = "ScReduce" -> c.out = ToHex(BytesLE(NatLE(B(c.a)) %% ScL, 32))
    [] c.op = "ScMulAdd" -> c.out = ToHex(BytesLE(((NatLE(B(c.a)) ** NatLE(B(c.b))) ++ NatLE(B(c.c))) %% ScL, 32))

---------------------------------------------------------------------------
(* pasta: F is "Fp" or "Fq"; numbers are written big-endian in 32 bytes. *)
PastaMod(F) == IF F = "Fp" THEN HexNat("40000000000000000000000000000000224698fc094cf91b992d30ed00000001")
               ELSE HexNat("40000000000000000000000000000000224698fc0994a8dd8c46eb2100000001")
PV(h) == NatBE(B(h))
MontR(m) == Pow(2, 256) %% m
MontRinv(m) == InvM(MontR(m), m)
P32(n) == ToHex(BytesBE(n, 32))
Pow64 == HexNat("10000000000000000")
P8(n) == ToHex(BytesBE(n, 8))
Below(h, m) == PV(h) \prec m
\* two's complement in five words
P40(n) == ToHex(BytesBE(n %% Pow(2, 320), 40))
Signed(h) == IF PV(h) \prec Pow(2, 319) THEN PV(h) ELSE PV(h) -- Pow(2, 320)
Signed8(h) == IF PV(h) \prec Pow(2, 63) THEN PV(h) ELSE PV(h) -- Pow64

\* The state of a division step: f is odd, and -d is representable.
DivStepState(c, m) == Below(c.v, m) /\ Below(c.r, m) /\ (Signed(c.f) %% 2) \doteq 1 /\ c.d # "8000000000000000"
DivStepOf(c, m) ==
  LET d == Signed8(c.d)  f == Signed(c.f)  g == Signed(c.g)  v == PV(c.v)  r == PV(c.r)
      odd == g %% 2
      swap == 0 \prec d /\ odd \doteq 1
  IN [d |-> P8((IF swap THEN 1 -- d ELSE 1 ++ d) %% Pow64),
      f |-> P40(IF swap THEN g ELSE f),
      g |-> P40((IF swap THEN g -- f ELSE g ++ (odd ** f)) // 2),
      v |-> P32(IF swap THEN AddM(r, r, m) ELSE AddM(v, v, m)),
      r |-> P32(IF swap THEN SubM(r, v, m) ELSE AddM(r, odd ** v, m))]

PastaStep(c) ==
  LET m == PastaMod(c.F)
      A == Below(c.a, m)
      AB == A /\ Below(c.b, m)
      mont(n) == P32((n %% m) ** MontR(m) %% m)
  IN
  CASE c.op = "Add" -> AB => c.out = P32(AddM(PV(c.a), PV(c.b), m))
    [] c.op = "Sub" -> AB => c.out = P32(SubM(PV(c.a), PV(c.b), m))
    [] c.op = "Opp" -> A => c.out = P32(NegM(PV(c.a), m))
    [] c.op = "Mul" -> AB => c.out = P32(MulM(MulM(PV(c.a), PV(c.b), m), MontRinv(m), m))
    [] c.op = "Square" -> A => c.out = P32(MulM(MulM(PV(c.a), PV(c.a), m), MontRinv(m), m))
    [] c.op = "FromMontgomery" -> A => c.out = P32(MulM(PV(c.a), MontRinv(m), m))
    [] c.op = "ToMontgomery" -> A => c.out = P32(MulM(PV(c.a), MontR(m), m))
    [] c.op = "NonZero" -> A => (PV(c.out) \doteq 0) = (PV(c.a) \doteq 0)
    [] c.op = "EqualsZero" -> A => (c.out = 1) = (PV(c.a) \doteq 0)
    [] c.op = "EqualsOne" -> A => (c.out = 1) = (c.a = P32(MontR(m)))
    [] c.op = "Equals" -> AB => (c.out = 1) = (c.a = c.b)
    [] c.op = "SelectZnz" -> c.out = IF c.n = 0 THEN c.a ELSE c.b
    [] c.op = "Copy" -> c.out = c.a
    [] c.op = "ToBytes" -> A => c.out = ToHex(BytesLE(PV(c.a), 32))
    [] c.op = "FromBytes" -> c.out = P32(NatLE(B(c.a)))
    [] c.op = "SetOne" -> c.out = P32(MontR(m))
    [] c.op = "MSat" -> c.out = P40(m)
    \* ((m - 1) / 2) to the power floor((49 * 255 + 57) / 17), in Montgomery form
    [] c.op = "DivStepPreComp" -> c.out = mont(PowM((m -- 1) // 2, 738, m))
    [] c.op = "DivStep" -> DivStepState(c, m) => [d |-> c.d2, f |-> c.f2, g |-> c.g2, v |-> c.v2, r |-> c.r2] = DivStepOf(c, m)
    \* the inversion these steps are made for: 738 of them from (1, m, a, 0, 1)
    [] c.op = "DivStepInv" -> A => c.out = P32(InvM(PV(c.a), m))
    [] c.op = "Inv" -> A => c.out = mont(InvM(MulM(PV(c.a), MontRinv(m), m), m))
    [] c.op = "Pow" -> A => c.out = mont(PowM(MulM(PV(c.a), MontRinv(m), m), PV(c.e), m))
    [] c.op = "LegendRe" -> A => c.out = (IF PV(c.a) \doteq 0 THEN 0 ELSE IF SqrtM(MulM(PV(c.a), MontRinv(m), m), m) \doteq -1 THEN -1 ELSE 1)
    [] c.op = "Sqrt" -> A => LET v == MulM(PV(c.a), MontRinv(m), m)
                                 root == MulM(PV(c.out), MontRinv(m), m)
                             IN IF SqrtM(v, m) \doteq -1 THEN c.ok = 0 ELSE c.ok = 1 /\ Below(c.out, m) /\ MulM(root, root, m) \doteq v
    [] c.op = "IsOdd" -> A => c.out = (IF (MulM(PV(c.a), MontRinv(m), m) %% 2) \doteq 1 THEN 1 ELSE 0)
    \* little-endian hexadecimal of 254 bits, otherwise refused
    [] c.op = "FromHex" -> IF c.ok = 1 THEN Len(B(c.a)) = 32 /\ NatLE(B(c.a)) \prec Pow(2, 254) /\ c.out = mont(NatLE(B(c.a)))
                           ELSE Len(B(c.a)) # 32 \/ Pow(2, 254) \preceq NatLE(B(c.a))
    [] c.op = "FromWords" -> c.out = mont(PV(c.a) %% Pow(2, 254))
    [] c.op = "ToMontBE" -> A => c.out = P32(MulM(PV(c.a), MontR(m), m))
    [] c.op = "FromMontBE" -> A => c.out = P32(MulM(PV(c.a), MontRinv(m), m))
    \* word primitives; n is the incoming carry or borrow, or the condition
    [] c.op = "AddCarryX" -> LET s == PV(c.a) ++ PV(c.b) ++ c.n IN c.out = P8(s %% Pow64) /\ (s // Pow64) \doteq c.carry
    [] c.op = "SubBorrowX" -> LET s == PV(c.a) -- PV(c.b) -- c.n IN c.out = P8(s %% Pow64) /\ (0 -- (s // Pow64)) \doteq c.carry
    [] c.op = "MulX" -> LET s == PV(c.a) ** PV(c.b) IN c.out = P8(s %% Pow64) /\ c.hi = P8(s // Pow64)
    [] c.op = "Cmovznz" -> c.out = IF c.n = 0 THEN c.a ELSE c.b

Step(c) == c.st = "OK" /\ IF c.F = "ed" THEN FeStep(c) ELSE PastaStep(c)
===============================================================================
