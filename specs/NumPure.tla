-------------------------------- MODULE NumPure --------------------------------
(***************************************************************************)
(* Unbounded integers and modular arithmetic.                              *)
(*                                                                         *)
(* Every operator below has an ordinary TLA+ definition; that definition   *)
(* is the meaning.  TLC's own integers stop at 32 bits, so when the        *)
(* overrides in /verif/java are on TLC's classpath the same operators are  *)
(* evaluated with arbitrary precision.  NumCheck.tla checks that the two   *)
(* evaluations agree on the range both can represent.                      *)
(*                                                                         *)
(* An integer outside TLC's range is opaque to TLC: it must be compared    *)
(* with \doteq, \prec and \preceq, not with = and <.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences

a \doteq b == a = b
a \prec b == a < b
a \preceq b == a <= b

a ++ b == a + b
a -- b == a - b
a ** b == a * b
a // b == a \div b          \* b > 0
a %% b == a % b             \* b > 0; result in 0..b-1

AddM(a, b, m) == (a + b) % m
SubM(a, b, m) == (a - b) % m
MulM(a, b, m) == (a * b) % m
NegM(a, m) == (0 - a) % m

RECURSIVE Pow(_, _)
Pow(a, k) == IF k = 0 THEN 1 ELSE a * Pow(a, k - 1)

RECURSIVE PowM(_, _, _)
PowM(a, k, m) ==
  IF k = 0 THEN 1 % m
  ELSE LET h == PowM(a, k \div 2, m)
           s == (h * h) % m
       IN IF k % 2 = 0 THEN s ELSE (s * (a % m)) % m

\* The inverse of a modulo m, or 0 when there is none.
InvM(a, m) ==
  IF \E x \in 1 .. m - 1 : (a * x) % m = 1
  THEN CHOOSE x \in 1 .. m - 1 : (a * x) % m = 1
  ELSE 0

\* A square root of a modulo the prime m, or -1 when a is not a square.
\* (Which of the two roots is returned is not specified.)
SqrtM(a, m) ==
  IF \E x \in 0 .. m - 1 : (x * x) % m = a % m
  THEN CHOOSE x \in 0 .. m - 1 : (x * x) % m = a % m
  ELSE -1

Bit(a, i) == (a \div Pow(2, i)) % 2

RECURSIVE BitLen(_)
BitLen(a) == IF a = 0 THEN 0 ELSE 1 + BitLen(a \div 2)

(* The bits of a natural number, most significant first. *)
BitsBE(a) == [i \in 1 .. BitLen(a) |-> Bit(a, BitLen(a) - i)]

---------------------------------------------------------------------------
(* Byte strings are sequences over 0..255. *)

RECURSIVE NatBE(_)
NatBE(s) == IF s = <<>> THEN 0
            ELSE NatBE(SubSeq(s, 1, Len(s) - 1)) * 256 + s[Len(s)]
RECURSIVE NatLE(_)
NatLE(s) == IF s = <<>> THEN 0 ELSE Head(s) + 256 * NatLE(Tail(s))

\* n written in len bytes; n must be < 256^len.
BytesBE(n, len) == [i \in 1 .. len |-> (n \div Pow(256, len - i)) % 256]
BytesLE(n, len) == [i \in 1 .. len |-> (n \div Pow(256, i - 1)) % 256]

\* Reading of hexadecimal string literals.  These two have no useful TLA+
\* definition (strings are opaque); they only exist with the overrides.
HexNat(str) == CHOOSE n \in Nat : TRUE
HexBytes(str) == CHOOSE s \in Seq(0 .. 255) : TRUE
\* The hexadecimal writing of a byte string, for messages.
ToHex(s) == "?"

---------------------------------------------------------------------------
(* Machine words of w bits, as naturals below 2^w. *)

RECURSIVE BitwiseFold(_, _, _, _)
BitwiseFold(a, b, f, i) ==      \* f is a truth table <<f00, f01, f10, f11>>
  IF i = 0 THEN 0
  ELSE 2 * BitwiseFold(a \div 2, b \div 2, f, i - 1) + f[1 + 2 * (a % 2) + (b % 2)]

WXor(a, b) == BitwiseFold(a, b, <<0, 1, 1, 0>>, 30)
WAnd(a, b) == BitwiseFold(a, b, <<0, 0, 0, 1>>, 30)
WOr(a, b)  == BitwiseFold(a, b, <<0, 1, 1, 1>>, 30)
WNot(w, a) == Pow(2, w) - 1 - a
WAdd(w, a, b) == (a + b) % Pow(2, w)
WShr(a, n) == a \div Pow(2, n)
WShl(w, a, n) == (a * Pow(2, n)) % Pow(2, w)
WRotl(w, a, n) == ((a * Pow(2, n % w)) % Pow(2, w)) + (a \div Pow(2, w - (n % w)))
WRotr(w, a, n) == (a \div Pow(2, n % w)) + ((a % Pow(2, n % w)) * Pow(2, w - (n % w)))
WXor3(a, b, c) == WXor(WXor(a, b), c)
WAdd3(w, a, b, c) == WAdd(w, WAdd(w, a, b), c)
WAdd4(w, a, b, c, d) == WAdd(w, WAdd3(w, a, b, c), d)
WAdd5(w, a, b, c, d, e) == WAdd(w, WAdd4(w, a, b, c, d), e)

\* s split into the words of n bytes each it consists of.
WordsBE(s, n) == [i \in 1 .. Len(s) \div n |-> NatBE(SubSeq(s, (i - 1) * n + 1, i * n))]
WordsLE(s, n) == [i \in 1 .. Len(s) \div n |-> NatLE(SubSeq(s, (i - 1) * n + 1, i * n))]
UnwordsBE(ws, n) == [i \in 1 .. Len(ws) * n |-> BytesBE(ws[(i - 1) \div n + 1], n)[1 + ((i - 1) % n)]]
UnwordsLE(ws, n) == [i \in 1 .. Len(ws) * n |-> BytesLE(ws[(i - 1) \div n + 1], n)[1 + ((i - 1) % n)]]

---------------------------------------------------------------------------
\* Identity; forces TLC to evaluate a lazily represented function once.
Strict(v) == v
\* Left fold over a sequence, and over 1..n.
Fold(Op(_, _), acc, s) ==
  LET f[i \in 0 .. Len(s)] == IF i = 0 THEN acc ELSE Op(f[i - 1], s[i])
  IN f[Len(s)]
FoldN(Op(_, _), acc, lo, hi) ==
  LET f[i \in lo - 1 .. hi] == IF i = lo - 1 THEN acc ELSE Op(f[i - 1], i)
  IN IF hi < lo THEN acc ELSE f[hi]
=============================================================================
