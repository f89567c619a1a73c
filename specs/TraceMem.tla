-------------------------------- MODULE TraceMem --------------------------------
(***************************************************************************)
(* Validation of recorded histories of the caller's memory.  The contents  *)
(* of the buffers are the specification's: it follows the caller's         *)
(* allocations and overwrites, and from them it knows what every argument  *)
(* was.  The record says, of each call, where its arguments were, which    *)
(* buffers looked different afterwards, and where its results are.         *)
(***************************************************************************)
EXTENDS Memory, TLC, IOUtils, Json

Log == ndJsonDeserialize(IOEnv.TRACE)
Lanes == 32

\* Functions whose answer contains a choice.
Random(q) ==
  \/ q.op = "Signature" /\ q.alg \in {"K1", "R1", "SM2", "PASTA", "ED", "X25519"}
  \/ q.op \in {"Encryption", "KaInit1", "KaResp1"}
  \/ q.op = "KaRespE1" /\ q.args.rnd = "nil"
Part(q, a) == IF Random(q) THEN [st |-> a.st, lens |-> [i \in DOMAIN a.rets |-> Len(a.rets[i])]] ELSE a

VARIABLES l, e, mem, memo
vars == <<l, e, mem, memo>>
Init == l \in 1 .. Lanes /\ e = 1 /\ mem = <<>> /\ memo = <<>>

\* Contents are hexadecimal, a view is <<buffer, offset, length>>, no slice is <<>>.
Content(v) == IF v = <<>> THEN "nil" ELSE SubSeq(mem[v[1]], 2 * v[2] + 1, 2 * (v[2] + v[3]))
Question(ev) == [op |-> ev.op, alg |-> ev.alg, num |-> ev.num, args |-> [n \in DOMAIN ev.args |-> Content(ev.args[n])]]
Reject == PrintT(<<"REJECT", l, e>>)

Step(ev) ==
  CASE ev.do = "Alloc" -> mem' = Append(mem, ev.hex) /\ UNCHANGED memo
    [] ev.do = "Poke" -> mem' = [mem EXCEPT ![ev.buf] = ev.hex] /\ UNCHANGED memo
    [] ev.do = "Call" ->
         LET q == Question(ev)
             a == [st |-> ev.st, val |-> ev.val, rets |-> ev.rets]
             did == [changed |-> {ev.changed[i] : i \in DOMAIN ev.changed}, rets |-> ev.at]
         IN \E ok \in {CallOk(Len(mem), memo, q, a, did, Part)} :
              /\ IF ok THEN TRUE ELSE Reject
              /\ mem' = mem \o ev.new
              /\ memo' = Append(memo, <<q, a>>)

Next ==
  /\ l <= Len(Log)
  /\ LET rec == Log[l] IN
     IF e > Len(rec.ev) THEN l' = l + Lanes /\ e' = 1 /\ mem' = <<>> /\ memo' = <<>>
     ELSE Step(rec.ev[e]) /\ l' = l /\ e' = e + 1
Spec == Init /\ [][Next]_vars
===============================================================================
