------------------------------ MODULE TracePField ------------------------------
(* Validation of programs of the real code over package pasta's numbers and    *)
(* sponges.  A record holds one program: the kind, the encodings of the         *)
(* registers it starts from and its events, each with the registers after it.  *)
EXTENDS PField, TLC, IOUtils, Json

Log == ndJsonDeserialize(IOEnv.TRACE)
Lanes == 32

VARIABLES l, e, regs
StartOf(k) == IF k <= Len(Log) THEN Log[k].start ELSE <<>>
Init == l \in 1 .. Lanes /\ e = 1 /\ regs = StartOf(l)
Next ==
  /\ l <= Len(Log)
  /\ LET rec == Log[l] IN
     IF e > Len(rec.ev)
     THEN l' = l + Lanes /\ e' = 1 /\ regs' = StartOf(l + Lanes)
     ELSE /\ IF PStep(rec.f, regs, rec.ev[e]) THEN TRUE ELSE PrintT(<<"REJECT", l, e>>)
          /\ l' = l /\ e' = e + 1
          /\ regs' = (IF Len(rec.ev[e].after) = Len(regs) THEN rec.ev[e].after ELSE regs)
Spec == Init /\ [][Next]_<<l, e, regs>>
===============================================================================
