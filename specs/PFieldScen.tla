------------------------------ MODULE PFieldScen -------------------------------
(***************************************************************************)
(* Writes the programs over package pasta's numbers and sponges that the   *)
(* driver is to run.  Numbers are classes: ends and middle of the range,   *)
(* single bits, numbers whose Montgomery form is one of those (a leading   *)
(* "m"), random ones.  Every operation is run on every pair of classes and *)
(* with every pattern of equal registers, every exponent on some numbers,  *)
(* every form of text; sponges run every short sequence of operations on   *)
(* two contexts.  Longer programs are drawn from a hash of the seed.       *)
(***************************************************************************)
EXTENDS Hashes, TLC, IOUtils, Json, SequencesExt

Thorough == IOEnv.TIER = "thorough"
Ev(op, d, a, b, n, x) == [op |-> op, d |-> d, a |-> a, b |-> b, n |-> n, x |-> x]
Prog(F, init, ev) == [f |-> F, init |-> init, ev |-> ev]

Classes == {"0", "1", "2", "p-1", "p-2", "half", "half+1", "m0", "m1", "mp-1", "mlow", "mhigh", "mones", "low", "high", "rnd"}
Nums == {"fp", "fq"}
Binary == {"add", "sub", "mul", "eq"}
Unary(F) == {"sq", "neg", "copy", "show"} \cup (IF F = "fp" THEN {"inv", "odd"} ELSE {})
Texts == {"0", "1", "p-1", "p", "p+1", "254bits", "255bits", "256bits", "rnd", "upper", "mixed", "0x", "31", "33", "odd", "empty", "letter", "spaces"} \cup {"near" \o ToString(i) : i \in 0 .. 63}

BinaryProgs(F) ==
  {Prog(F, <<c1, c2, "rnd">>, <<Ev(o, d, 1, 2, 0, "")>>) : o \in Binary, c1 \in Classes, c2 \in Classes, d \in {1, 3}}
  \cup {Prog(F, <<c1, "rnd", "rnd">>, <<Ev(o, d, 1, 1, 0, "")>>) : o \in Binary, c1 \in Classes, d \in {1, 2}}
UnaryProgs(F) == {Prog(F, <<c1, "rnd", "rnd">>, <<Ev(o, d, 1, 0, 0, "")>>) : o \in Unary(F), c1 \in Classes, d \in {1, 2}}
\* Equal numbers that were reached in two ways are equal.
SameProgs(F) ==
  {Prog(F, <<c1, c2, "rnd">>, <<Ev("add", 3, 1, 2, 0, ""), Ev("sub", 3, 3, 2, 0, ""), Ev("eq", 0, 3, 1, 0, ""),
                                Ev("sub", 3, 1, 2, 0, ""), Ev("neg", 2, 2, 0, 0, ""), Ev("add", 2, 1, 2, 0, ""), Ev("eq", 0, 2, 3, 0, "")>>) :
     c1 \in Classes, c2 \in Classes}
PowProgs ==
  {Prog("fp", <<c1, "rnd", "rnd">>, <<Ev("pow", d, 1, 0, n, "")>>) : c1 \in {"2", "rnd"}, d \in {1}, n \in 0 .. 255}
  \cup {Prog("fp", <<c1, "rnd", "rnd">>, <<Ev("pow", d, 1, 0, n, "")>>) : c1 \in Classes, d \in {1, 2}, n \in {0, 1, 2, 3, 5, 128, 255}}
TextProgs(F) == {Prog(F, <<"rnd", "1", "rnd">>, <<Ev(o, 1, 0, 0, 0, x), Ev("add", 2, 1, 2, 0, "")>>) : o \in {"text", "bytes"}, x \in Texts}
                \cup (IF F = "fp" THEN {} ELSE {Prog(F, <<"rnd", "1", "rnd">>, <<Ev("words", 1, 0, 0, 0, x), Ev("add", 2, 1, 2, 0, "")>>) : x \in Texts})

Chosen(S, byte) == SetToSeq(S)[1 + (byte % Cardinality(S))]
Seeded(tag, n, i) == SHA256(BytesBE(atoi(IOEnv.SEED) % 65536, 4) \o BytesBE(n, 4) \o <<tag, i>>)
DrawNum(F, n) ==
  LET s(i) == Seeded(IF F = "fp" THEN 1 ELSE 2, n, i)
      Ops == Binary \cup Unary(F) \cup (IF F = "fp" THEN {"pow"} ELSE {})
      event(b) == Ev(Chosen(Ops, b[1]), 1 + (b[2] % 3), 1 + (b[3] % 3), 1 + (b[4] % 3), b[5], "")
      start == s(0)
  IN Prog(F, <<Chosen(Classes, start[1]), Chosen(Classes, start[2]), Chosen(Classes, start[3])>>,
          [i \in 1 .. (IF Thorough THEN 60 ELSE 25) |-> event(s(i))])

---------------------------------------------------------------------------
\* Sponges: "absorb" takes n elements of a class.
SAct ==
  {Ev("absorb", 1, 0, 0, n, "rnd") : n \in {0, 1, 2, 3}} \cup {Ev("digest", 1, 0, 0, 0, ""), Ev("copy", 2, 1, 0, 0, ""), Ev("copy", 1, 2, 0, 0, "")}
  \cup {Ev("absorb", 2, 0, 0, n, "rnd") : n \in {1, 2}} \cup {Ev("digest", 2, 0, 0, 0, "")}
SpongeSeqs(k) == [1 .. k -> SAct]
SpongeProgs ==
  {Prog("sp", <<"test", "main", "new">>, e) : e \in SpongeSeqs(1) \cup SpongeSeqs(2)}
  \cup {Prog("sp", <<"rnd", "rnd", "new">>, e) : e \in SpongeSeqs(3)}
  \cup {Prog("sp", <<"rnd", "new", "new">>, <<Ev(o, 1, 0, 0, n, x), Ev(o2, 1, 0, 0, 2, "rnd"), Ev("digest", 1, 0, 0, 0, "")>>) :
          o \in {"absorb", "init", "json"}, n \in {0, 1, 2, 3, 4, 7, 8}, x \in Classes, o2 \in {"absorb", "permute", "mds"}}
  \cup {Prog("sp", <<c, "new", "new">>, <<Ev(o, 2, 0, 0, 0, ""), Ev("absorb", 2, 0, 0, n, "rnd"), Ev("digest", 2, 0, 0, 0, ""), Ev("digest", 2, 0, 0, 0, "")>>) :
          c \in {"main", "test", "new", "rnd"}, o \in {"new", "main", "test", "permute", "mds"}, n \in {0, 1, 2, 5}}
  \cup {Prog("sp", <<"new", "new", "new">>, <<Ev("message", 0, i, 0, n, x)>>) : i \in {0, 1, 2, 3, 5}, n \in {0, 1, 2, 3, 4}, x \in {"0", "1", "p-1", "rnd"}}
DrawSponge(n) ==
  LET s(i) == Seeded(3, n, i)
      event(b) ==
        LET o == Chosen({"absorb", "absorb2", "absorb3", "digest", "copy", "init", "permute", "mds", "new"}, b[1])
        IN IF o \in {"absorb", "absorb2", "absorb3"} THEN Ev("absorb", 1 + (b[2] % 3), 0, 0, b[5] % 6, Chosen(Classes, b[6]))
           ELSE Ev(o, 1 + (b[2] % 3), 1 + (b[3] % 3), 0, 3, Chosen(Classes, b[6]))
      start == s(0)
      Starts == {"main", "test", "new", "rnd"}
  IN Prog("sp", <<Chosen(Starts, start[1]), Chosen(Starts, start[2]), Chosen(Starts, start[3])>>,
          [i \in 1 .. (IF Thorough THEN 40 ELSE 15) |-> event(s(i))])

All ==
  UNION {BinaryProgs(F) \cup UnaryProgs(F) \cup SameProgs(F) \cup TextProgs(F) \cup {DrawNum(F, n) : n \in 1 .. (IF Thorough THEN 2000 ELSE 200)} : F \in Nums}
  \cup PowProgs \cup SpongeProgs \cup {DrawSponge(n) : n \in 1 .. (IF Thorough THEN 600 ELSE 60)}

VARIABLE done
Init == done = FALSE
Next == done = FALSE /\ done' = TRUE
Spec == Init /\ [][Next]_done
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(All))
===============================================================================
