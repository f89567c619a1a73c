-------------------------------- MODULE KaScen --------------------------------
(* Writes the runs of KaProtocol that the driver is to perform: every set of   *)
(* up to two replaced values (three in the thorough tier), and every set of up *)
(* to six that the protocol cannot tell from an honest run.                    *)
EXTENDS KaProtocol, TLC, IOUtils, Json, SequencesExt

Thorough == IOEnv.TIER = "thorough"
\* The state in which everything is over has the verdict; TLC visits it for
\* every initial state, and Emit writes it down.
Wanted == Cardinality(subst) <= (IF Thorough THEN 3 ELSE 2) \/ initOut # Refusal
Emit == (phase = "done" /\ Wanted) =>
          \A m \in {"plain", "elgamal"} :
            TLCSet(1, Append(TLCGet(1), [mode |-> m, subst |-> SetToSeq(subst), keylen |-> 16 + (Cardinality(subst) * 9)]))
ASSUME TLCSet(1, <<>>)
Post == ndJsonSerialize(IOEnv.OUT, TLCGet(1))
===============================================================================
