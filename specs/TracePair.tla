-------------------------------- MODULE TracePair -------------------------------
(* Validation of programs of the real code over pairings.  A record holds one  *)
(* program: the points it starts from with their logarithms, and its events,   *)
(* each with the registers seen after it.                                      *)
EXTENDS Pairing, TLC, IOUtils, Json

Log == ndJsonDeserialize(IOEnv.TRACE)
Lanes == 32

VARIABLES l, e, s
StartOf(k) == IF k <= Len(Log) THEN Log[k].start ELSE [p |-> <<>>, q |-> <<>>, t |-> <<>>, lp |-> <<>>, lq |-> <<>>, acc |-> ""]
Init == l \in 1 .. Lanes /\ e = 0 /\ s = StartOf(l)
\* The points are those the logarithms say (of some programs).
Started(x) ==
  /\ \A i \in 1 .. 3 : x.t[i] = ToHex(TEnc(TOne)) /\ x.acc = Hx(0)
  /\ l % 16 = 0 => \A i \in 1 .. 3 : /\ x.p[i] = ToHex(G1XY(Mul(G1C, Ln(x.lp[i]), BLS381.g)))
                                     /\ x.q[i] = ToHex(G2XY(G2Mul(BlsP, Ln(x.lq[i]), BLS381G2)))
Next ==
  /\ l <= Len(Log)
  /\ LET rec == Log[l] IN
     IF e = 0 THEN (IF Started(s) THEN TRUE ELSE PrintT(<<"REJECT", l, e>>)) /\ e' = 1 /\ UNCHANGED <<l, s>>
     ELSE IF e > Len(rec.ev)
     THEN l' = l + Lanes /\ e' = 0 /\ s' = StartOf(l + Lanes)
     ELSE /\ l' = l
          /\ \E x \in {PairResult(s, rec.ev[e])} :
               IF PairOk(x, rec.ev[e]) THEN e' = e + 1 /\ s' = x.s
               ELSE PrintT(<<"REJECT", l, e>>) /\ e' = Len(rec.ev) + 1 /\ s' = s
Spec == Init /\ [][Next]_<<l, e, s>>
===============================================================================
