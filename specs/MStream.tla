--------------------------------- MODULE MStream ---------------------------------
(***************************************************************************)
(* Design model: hash objects that compress block by block and keep the    *)
(* partial block in a buffer, as the library's do, refine HashStream: for  *)
(* every history of writes cut anywhere, sums, resets and reads, what they *)
(* return is what HashStream says, and the buffer never leaves its bounds. *)
(* Two disciplines: "eager" empties a full buffer at once (Keccak, SM3,    *)
(* BLAKE), "late" keeps a full last block (BLAKE2, which needs to know     *)
(* which block is the last).                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS MaxLen, MaxEv
Blk == 3
\* Compression is symbolic: the chaining value is the list of blocks absorbed.
PadTo(s) == s \o [i \in 1 .. Blk - (Len(s) % Blk) |-> IF i = 1 THEN 9 ELSE 0]
ChunksOf(s) == [i \in 1 .. Len(s) \div Blk |-> SubSeq(s, (i - 1) * Blk + 1, i * Blk)]
\* eager: padding always added; late: the last block flagged with its length.
LateBlocks(s) ==
  LET n == IF s = <<>> THEN 1 ELSE (Len(s) + Blk - 1) \div Blk
      z == s \o [i \in 1 .. n * Blk - Len(s) |-> 0]
  IN ChunksOf(z) \o << <<Len(s)>> >>
DigestOf(kind, s) == IF kind.late THEN LateBlocks(kind.key \o s) ELSE ChunksOf(PadTo(s))
SqueezeOf(kind, s, n) == [i \in 1 .. n |-> <<ChunksOf(PadTo(s)), (i - 1) \div Blk, (i - 1) % Blk>>]

VARIABLES obj,                         \* the abstract object
          h, buf, dir, sq, out,        \* the implementation: chain, buffer, direction, unread output, blocks squeezed
          ret, want, n
vars == <<obj, h, buf, dir, sq, out, ret, want, n>>
A == INSTANCE HashStream WITH Digest <- DigestOf, Squeeze <- SqueezeOf, SizeOf <- LAMBDA k : 1, BlockOf <- LAMBDA k : Blk

Kinds == {[late |-> FALSE, key |-> <<>>], [late |-> TRUE, key |-> <<>>], [late |-> TRUE, key |-> <<7, 7, 7>>]}
Late == obj.kind.late
Key == obj.kind.key

Start(k) == h' = <<>> /\ buf' = k.key /\ dir' = "absorb" /\ sq' = <<>> /\ out' = 0
Init == /\ \E k \in Kinds : obj = A!ObjNew(k) /\ buf = k.key
        /\ h = <<>> /\ dir = "absorb" /\ sq = <<>> /\ out = 0 /\ ret = 0 /\ want = 0 /\ n = 0

\* Feeding p: how many full blocks leave the buffer.
Keeps(s) == IF Late THEN (IF s = <<>> THEN 0 ELSE Len(s) - ((Len(s) - 1) \div Blk) * Blk) ELSE Len(s) % Blk
ImplWrite(p) ==
  LET s == buf \o p  k == Keeps(s)
  IN /\ h' = h \o ChunksOf(SubSeq(s, 1, Len(s) - k)) /\ buf' = SubSeq(s, Len(s) - k + 1, Len(s))
     /\ ret' = Len(p) /\ UNCHANGED <<dir, sq, out>>
Finish == IF Late THEN h \o <<buf \o [i \in 1 .. Blk - Len(buf) |-> 0]>> \o << <<Len(h) * Blk + Len(buf)>> >>
          ELSE h \o ChunksOf(PadTo(buf))
Block(i) == [j \in 1 .. Blk |-> <<Finish, i, j - 1>>]
\* Reading m values: take from sq, refill when empty.
RECURSIVE Take(_, _, _)
Take(m, have, blocks) ==     \* <<result, left, blocks squeezed>>
  IF have = <<>> THEN Take(m, Block(blocks), blocks + 1)
  ELSE IF m <= Len(have) THEN <<SubSeq(have, 1, m), SubSeq(have, m + 1, Len(have)), blocks>>
  ELSE LET r == Take(m - Len(have), <<>>, blocks) IN <<have \o r[1], r[2], r[3]>>
ImplRead(m) ==
  LET r == Take(m, sq, out)
  IN ret' = r[1] /\ sq' = r[2] /\ out' = r[3] /\ dir' = "squeeze" /\ UNCHANGED <<h, buf>>

Ev(ev) == A!ObjMay(obj, ev) /\ obj' = A!ObjAfter(obj, ev) /\ want' = A!ObjReturns(obj, ev) /\ n' = n + 1
Next ==
  /\ n < MaxEv
  /\ \/ \E k \in 0 .. 2 * Blk + 1 : LET p == [i \in 1 .. k |-> (Len(obj.msg) + i) % 2] IN
          Len(obj.msg) + k <= MaxLen /\ Ev([op |-> "Write", p |-> p]) /\ ImplWrite(p)
     \/ dir = "absorb" /\ Ev([op |-> "Sum", p |-> <<>>]) /\ ret' = Finish /\ UNCHANGED <<h, buf, dir, sq, out>>
     \/ Ev([op |-> "Reset"]) /\ Start(obj.kind) /\ ret' = 0
     \/ ~Late /\ \E m \in 0 .. Blk + 1 : Ev([op |-> "Read", n |-> m]) /\ ImplRead(m)
Spec == Init /\ [][Next]_vars

Refines == ret = want
Bounds == IF Late THEN Len(buf) <= Blk /\ (buf = <<>> => h = <<>>) ELSE Len(buf) < Blk
===============================================================================
