------------------------------ MODULE TraceStream ------------------------------
(***************************************************************************)
(* Validation of histories of real hash objects.  A record History is a    *)
(* sequence of events on any number of objects; each must be a step of     *)
(* HashStream with the concrete hash functions, and return what the model  *)
(* object returns.  A record OneShot is a call of a function that hashes   *)
(* a whole message; a record Refused is a creation the library refused.    *)
(***************************************************************************)
EXTENDS Hashes, Bytes, TLC, IOUtils, Json

Log == ndJsonDeserialize(IOEnv.TRACE)
Lanes == 32

RevBytes(s) == Strict([i \in 1 .. Len(s) |-> s[Len(s) + 1 - i]])
PadBytes(s, n) == s \o Zeros(n - Len(s))
SaltOf(k, n) == IF k.salt = "" THEN Zeros(n) ELSE B(k.salt)
\* The BLAKE2s parameter block (RFC 7693 section 2.8 and the BLAKE2 paper, table 2).
B2Size(k) == IF k.size = 0 THEN 32 ELSE k.size
B2Param(k) ==
  <<B2Size(k), Len(B(k.key))>>
  \o (IF k.tree = "" THEN <<1, 1>> \o Zeros(12)
      ELSE <<k.fanout, k.depth>> \o RevBytes(B(k.leaf)) \o RevBytes(B(k.offset)) \o <<k.nodedepth, k.inner>>)
  \o PadBytes(B(k.salt), 8) \o PadBytes(B(k.person), 8)

\* A message may begin with -n, which stands for n blocks of 64 zeros.
LongDigest(k, n, s) ==
  CASE k.alg = "SM3" -> SM3long(n, s)
    [] k.alg = "BLAKE256" -> BLAKE256long(SaltOf(k, 16), n, s)
    [] k.alg = "BLAKE224" -> BLAKE224long(SaltOf(k, 16), n, s)
    [] k.alg = "BLAKE2S" /\ k.key = "" /\ s # <<>> -> BLAKE2Slong(B2Param(k), k.tree = "last", B2Size(k), n, s)
StreamDigest(k, s) ==
  IF s # <<>> /\ s[1] < 0 THEN LongDigest(k, -s[1], Tail(s)) ELSE
  CASE k.alg = "SHA3" -> SHA3(k.size, s)
    [] k.alg = "KECCAK" -> KECCAK(k.size, s)
    [] k.alg = "SM3" -> SM3(s)
    [] k.alg = "BLAKE256" -> BLAKE256(SaltOf(k, 16), s)
    [] k.alg = "BLAKE224" -> BLAKE224(SaltOf(k, 16), s)
    [] k.alg = "BLAKE512" -> BLAKE512(SaltOf(k, 32), s)
    [] k.alg = "BLAKE384" -> BLAKE384(SaltOf(k, 32), s)
    [] k.alg = "BLAKE2S" -> BLAKE2Sraw(B2Param(k), B(k.key), k.tree = "last", B2Size(k), s)
StreamSqueeze(k, s, m) == SHAKE(k.size, m, s)
StreamSize(k) ==
  CASE k.alg \in {"SHA3", "KECCAK"} -> k.size
    [] k.alg \in {"SM3", "BLAKE256"} -> 32
    [] k.alg = "BLAKE224" -> 28
    [] k.alg = "BLAKE512" -> 64
    [] k.alg = "BLAKE384" -> 48
    [] k.alg = "BLAKE2S" -> B2Size(k)
StreamBlock(k) ==
  CASE k.alg \in {"SHA3", "KECCAK", "SHAKE"} -> 200 - 2 * k.size
    [] k.alg \in {"SM3", "BLAKE256", "BLAKE224", "BLAKE2S"} -> 64
    [] OTHER -> 128
\* Which parameters an object may have.
Creatable(k) ==
  CASE k.alg \in {"BLAKE256", "BLAKE224"} -> Len(B(k.salt)) \in {0, 16}
    [] k.alg \in {"BLAKE512", "BLAKE384"} -> Len(B(k.salt)) \in {0, 32}
    [] k.alg = "BLAKE2S" -> /\ k.size <= 32 /\ Len(B(k.key)) <= 32 /\ Len(B(k.salt)) <= 8 /\ Len(B(k.person)) <= 8
                            /\ k.tree # "" => k.inner <= 32 /\ Len(B(k.offset)) = 6
    [] OTHER -> TRUE

H == INSTANCE HashStream WITH Digest <- StreamDigest, Squeeze <- StreamSqueeze, SizeOf <- StreamSize, BlockOf <- StreamBlock

VARIABLES l, e, objs          \* record, event within it, the model objects
vars == <<l, e, objs>>

Init == l \in 1 .. Lanes /\ e = 1 /\ objs = <<>>

\* The event as HashStream has it, and whether the real code returned what the model returns.
Concrete(ev) ==
  CASE ev.op = "Write" -> [op |-> "Write", p |-> B(ev.p)]
    [] ev.op = "Zeros" -> [op |-> "Write", p |-> <<-ev.n>>]
    [] ev.op = "Sum" -> [op |-> "Sum", p |-> B(ev.p)]
    [] ev.op = "Read" -> [op |-> "Read", n |-> ev.n]
    [] OTHER -> [op |-> ev.op]
Agrees(ev, ret) ==
  /\ ev.st = "OK"
  /\ CASE ev.op \in {"Sum", "Read"} -> ev.out = ToHex(ret)
       [] ev.op \in {"Write", "Size", "BlockSize"} -> ev.out = ret
       [] OTHER -> TRUE
Reject == PrintT(<<"REJECT", l, e>>)

EventStep(ev) ==
  CASE ev.op = "New" -> /\ IF Creatable(ev.kind) /\ ev.st = "OK" THEN TRUE ELSE Reject
                        /\ objs' = Append(objs, H!ObjNew(ev.kind))
    [] ev.op = "Clone" -> /\ IF ev.st = "OK" THEN TRUE ELSE Reject
                          /\ objs' = Append(objs, objs[ev.obj])
    [] OTHER -> LET o == objs[ev.obj]
                    c == Concrete(ev)
                IN /\ IF H!ObjMay(o, c) /\ Agrees(ev, H!ObjReturns(o, c)) THEN TRUE ELSE Reject
                   /\ objs' = [objs EXCEPT ![ev.obj] = H!ObjAfter(o, c)]

Single(rec) ==
  CASE rec.op = "OneShot" -> /\ rec.st = "OK"
                             /\ rec.out = ToHex(IF rec.kind.alg = "SHAKE" THEN StreamSqueeze(rec.kind, B(rec.p), rec.n)
                                                ELSE StreamDigest(rec.kind, B(rec.p)))
    [] rec.op = "Refused" -> ~Creatable(rec.kind)
    [] OTHER -> FALSE

Next ==
  /\ l <= Len(Log)
  /\ LET rec == Log[l] IN
     IF rec.op # "History"
     THEN (IF Single(rec) THEN TRUE ELSE Reject) /\ l' = l + Lanes /\ e' = 1 /\ objs' = <<>>
     ELSE IF e > Len(rec.ev) THEN l' = l + Lanes /\ e' = 1 /\ objs' = <<>>
     ELSE EventStep(rec.ev[e]) /\ l' = l /\ e' = e + 1
Spec == Init /\ [][Next]_vars
===============================================================================
