--------------------------------- MODULE PField --------------------------------
(***************************************************************************)
(* Register machines over package pasta's numbers and sponges.             *)
(*   fp  elements of the field of Pallas     fq  scalars of its group      *)
(*   sp  Poseidon contexts                                                 *)
(* A register of fp and fq is a residue, observed as 32 big-endian bytes;  *)
(* one of sp is a sponge [s, n], observed as the three elements of s and   *)
(* one byte n.  An event names an operation, the registers it reads (a, b) *)
(* and the one it assigns (d).                                             *)
(***************************************************************************)
EXTENDS Mina

PMod(F) == IF F = "fq" THEN PALLAS.n ELSE PALLAS.p
TF(b) == IF b THEN "true" ELSE "false"
Elem(x) == BytesBE(x, 32)

---------------------------------------------------------------------------
(* Numbers.                                                                *)

\* The bytes of a text of hexadecimal digits: <<bytes>>, or <<>> for other text.
Digit(c) == CASE c \in 48 .. 57 -> c - 48 [] c \in 65 .. 70 -> c - 55 [] c \in 97 .. 102 -> c - 87 [] OTHER -> 16
OfHexText(t) ==
  IF Len(t) % 2 = 0 /\ \A i \in 1 .. Len(t) : Digit(t[i]) < 16
  THEN <<[i \in 1 .. (Len(t) \div 2) |-> (16 * Digit(t[2 * i - 1])) + Digit(t[2 * i])]>>
  ELSE <<>>
\* A text names a number when it is 32 bytes, little endian, of at most 254 bits.
OfText(F, t) ==
  LET b == OfHexText(t)
  IN IF b # <<>> /\ Len(b[1]) = 32 /\ b[1][32] < 64 THEN <<NatLE(b[1]) %% PMod(F)>> ELSE <<>>
\* Four words, of which the two highest bits do not count.
OfWords(F, b) == NatLE([b EXCEPT ![32] = @ % 64]) %% PMod(F)
Power(x, n, p) == Fold(LAMBDA acc, i : MulM(acc, x, p), 1 %% p, [i \in 1 .. n |-> i])

FResult(F, at(_), ev) ==
  LET p == PMod(F)
  IN CASE ev.op = "add" -> <<AddM(at(ev.a), at(ev.b), p)>>
       [] ev.op = "sub" -> <<SubM(at(ev.a), at(ev.b), p)>>
       [] ev.op = "mul" -> <<MulM(at(ev.a), at(ev.b), p)>>
       [] ev.op = "sq" -> <<MulM(at(ev.a), at(ev.a), p)>>
       [] ev.op = "neg" -> <<SubM(0, at(ev.a), p)>>
       [] ev.op = "inv" -> <<IF at(ev.a) \doteq 0 THEN 0 ELSE InvM(at(ev.a), p)>>
       [] ev.op = "pow" -> <<Power(at(ev.a), ev.n, p)>>
       [] ev.op = "copy" -> <<at(ev.a)>>
       [] ev.op = "text" -> OfText(F, B(ev.x))
       [] ev.op = "words" -> <<OfWords(F, B(ev.x))>>
       [] ev.op = "bytes" -> <<NatBE(B(ev.x)) %% p>>
FAssigns == {"add", "sub", "mul", "sq", "neg", "inv", "pow", "copy", "text", "words", "bytes"}
FOut(F, at(_), ev) ==
  CASE ev.op = "eq" -> TF(at(ev.a) \doteq at(ev.b))
    [] ev.op = "odd" -> TF(Bit(at(ev.a), 0) = 1)
    [] ev.op = "show" -> ToHex(Elem(at(ev.a)))
FStep(F, regs, ev) ==
  LET at(i) == NatBE(B(regs[i]))
  IN IF ev.op \in FAssigns
     THEN \E r \in {FResult(F, at, ev)} :
            /\ ev.ok = (r # <<>>)
            /\ \A i \in 1 .. Len(regs) : ev.after[i] = (IF i = ev.d /\ r # <<>> THEN ToHex(Elem(r[1])) ELSE regs[i])
     ELSE ev.out = FOut(F, at, ev) /\ ev.after = regs

---------------------------------------------------------------------------
(* Sponges.                                                                *)

SSeen(r) == LET b == B(r) IN [s |-> Strict([i \in 1 .. 3 |-> NatBE(SubSeq(b, 32 * i - 31, 32 * i))]), n |-> b[97]]
SShow(S) == ToHex(Elem(S.s[1]) \o Elem(S.s[2]) \o Elem(S.s[3]) \o <<S.n>>)
Elems(b) == Strict([i \in 1 .. (Len(b) \div 32) |-> NatBE(SubSeq(b, 32 * i - 31, 32 * i)) %% PALLAS.p])
Blank == <<0, 0, 0>>
MdsOf(H, s) == Strict([i \in 1 .. 3 |-> SRow(H.c.p, H.mds[i], s)])

\* What the context d becomes.
SResult(at(_), ev) ==
  CASE ev.op = "new" -> SpongeNew(Blank)
    [] ev.op = "init" -> SpongeNew(IF Len(B(ev.x)) = 96 THEN Elems(B(ev.x)) ELSE Blank)
    [] ev.op = "main" -> SpongeNew(MainnetIV)
    [] ev.op = "test" -> SpongeNew(TestnetIV)
    [] ev.op = "copy" -> at(ev.a)
    [] ev.op = "absorb" -> Fold(LAMBDA S, x : SpongeAbsorb(MINA, S, x), at(ev.d), Elems(B(ev.x)))
    [] ev.op \in {"digest", "permute"} -> [at(ev.d) EXCEPT !.s = Permute(MINA, @)]
    [] ev.op = "mds" -> [at(ev.d) EXCEPT !.s = MdsOf(MINA, @)]
SAssigns == {"new", "init", "main", "test", "copy", "absorb", "digest", "permute", "mds"}
\* A whole message, and a message written and read back.
SOut(ev) ==
  CASE ev.op = "message" ->
         LET xs == Elems(B(ev.x)) IN ToHex(Elem(Poseidon(MINA, SubSeq(xs, 1, 3), SubSeq(xs, 4, Len(xs)))))
    [] ev.op = "json" -> ev.x
SStep(regs, ev) ==
  IF ev.op \in SAssigns
  THEN \E S \in {SResult(LAMBDA i : SSeen(regs[i]), ev)} :
         /\ \A i \in 1 .. Len(regs) : ev.after[i] = (IF i = ev.d THEN SShow(S) ELSE regs[i])
         /\ ev.op = "digest" => ev.out = ToHex(Elem(S.s[1]))
  ELSE ev.out = SOut(ev) /\ ev.after = regs

PStep(F, regs, ev) ==
  /\ ev.st = "OK"
  /\ Len(ev.after) = Len(regs)
  /\ IF F = "sp" THEN SStep(regs, ev) ELSE FStep(F, regs, ev)
===============================================================================
