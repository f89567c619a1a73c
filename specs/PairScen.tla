-------------------------------- MODULE PairScen --------------------------------
(***************************************************************************)
(* Writes the programs over points, pairing engines and elements of the    *)
(* target group that the driver is to run.  Points start as a class: O     *)
(* neutral, G generator, P some point, N = -P, D = 2P, Q another point, I  *)
(* (in G2) the point whose logarithm is the inverse of that of P in G1.    *)
(***************************************************************************)
EXTENDS Hashes, TLC, IOUtils, Json, SequencesExt

Thorough == IOEnv.TIER = "thorough"
Ev(op, d, a, b) == [op |-> op, d |-> d, a |-> a, b |-> b, k |-> "", x |-> "", as |-> <<>>]
Prog(F, ps, qs, ev) == [f |-> F, p |-> ps, q |-> qs, ev |-> ev]
SeqsOf(S, n) == UNION {[1 .. m -> S] : m \in 0 .. n}

\* Engines: pairs in any order, doubled, opposite, inverted.
Adds == {Ev(o, 0, i, j) : o \in {"add", "inv"}, i \in {1, 2}, j \in {1, 2}}
Endings == {<<Ev("check", 0, 0, 0), Ev("check", 0, 0, 0), Ev("result", 1, 0, 0), Ev("tisone", 0, 1, 0)>>}
Sums == {Prog("eng", <<"P", "N", "Q">>, <<"P", "D", "Q">>, s \o e) : s \in SeqsOf(Adds, IF Thorough THEN 4 ELSE 2), e \in Endings}
        \cup {Prog("eng", <<"G", "N", "Q">>, <<"I", "D", "Q">>, <<Ev("pagain", 0, 1, 0), Ev("qagain", 0, 1, 0)>> \o s \o <<Ev("result", 2, 0, 0)>>) : s \in SeqsOf(Adds, 1)}
\* The same with any of the points represented otherwise.
Again == {Ev(o, 0, i, j) : o \in {"add"}, i \in {1, 2}, j \in {1, 2}}
Otherwise == {Prog("eng", <<"P", "N", "Q">>, <<"P", "D", "Q">>, SetToSeq(A) \o s \o <<Ev("check", 0, 0, 0), Ev("result", 1, 0, 0)>>) :
                A \in SUBSET {Ev("pagain", 0, 1, 0), Ev("pagain", 0, 2, 0), Ev("qagain", 0, 1, 0), Ev("qagain", 0, 2, 0)}, s \in [1 .. 2 -> Again]}
             \cup {Prog("eng", <<"P", "N", "Q">>, <<"P", "D", "Q">>, SetToSeq(A) \o s \o <<Ev("result", 1, 0, 0)>>) :
                A \in {{Ev("pagain", 0, 1, 0), Ev("pagain", 0, 2, 0), Ev("qagain", 0, 1, 0), Ev("qagain", 0, 2, 0)}}, s \in [1 .. 2 -> Adds]}
\* Histories of one engine.
Steps == {Ev("add", 0, 1, 1), Ev("inv", 0, 1, 1), Ev("reset", 0, 0, 0), Ev("check", 0, 0, 0), Ev("result", 1, 0, 0)}
Histories == {Prog("eng", <<"P", "Q", "Q">>, <<"I", "Q", "Q">>, s) : s \in [1 .. IF Thorough THEN 5 ELSE 4 -> Steps]}
             \cup {Prog("eng", <<"P", "Q", "Q">>, <<"I", "Q", "Q">>, <<Ev("add", 0, 1, 1), Ev("result", 1, 0, 0)>> \o s) : s \in [1 .. 3 -> Steps]}
\* Every pair of classes, decoded or computed.
C1 == {"O", "G", "P", "N", "D", "Q"}
C2 == C1 \cup {"I"}
Classes == {Prog("eng", <<c, "P", "Q">>, <<d, "P", "Q">>, pre \o <<Ev(o, 0, 1, 1), Ev("check", 0, 0, 0), Ev("result", 2, 0, 0)>>) :
              c \in C1, d \in C2, o \in {"add", "inv"}, pre \in {<<>>, <<Ev("pagain", 0, 1, 0)>>, <<Ev("qagain", 0, 1, 0)>>}}
Validate(i, j, k, l) == [Ev("validate", 0, 0, 0) EXCEPT !.as = <<i, j, k, l>>]
Suites == {Prog("suite", <<c, e[1], "Q">>, <<d, e[2], "Q">>, pre \o <<Validate(1, 1, 2, 2), Validate(1, 1, 2, 2), Validate(2, 2, 1, 1), Ev("pair", 1, 1, 1), Ev("pair", 2, 2, 2), Ev("teq", 0, 1, 2)>>) :
             c \in {"O", "P", "N", "G"}, d \in {"O", "P", "D", "I"}, e \in {<<"P", "P">>, <<"D", "P">>, <<"P", "D">>, <<"N", "N">>, <<"O", "P">>, <<"P", "O">>},
             pre \in {<<>>, <<Ev("pagain", 0, 1, 0), Ev("qagain", 0, 2, 0)>>, <<Ev("pagain", 0, 2, 0), Ev("qagain", 0, 1, 0), Ev("qagain", 0, 2, 0)>>}}
          \cup {Prog("suite", <<"P", "N", "Q">>, <<"P", "D", "Q">>, <<Validate(i, j, k, l)>>) : i \in 1 .. 3, j \in 1 .. 3, k \in 1 .. 3, l \in 1 .. 3}

\* The target group: t1 = e(P, I), t2 = e(P, P) or its square, t3 = 1.
Two(F) == IF F = "eng" THEN <<Ev("add", 0, 1, 1), Ev("result", 1, 0, 0), Ev("add", 0, 1, 2), Ev("result", 2, 0, 0)>> ELSE <<Ev("pair", 1, 1, 1), Ev("pair", 2, 1, 2)>>
TOps(F) == IF F = "eng" THEN {"tmul", "teq", "tsq", "tinv", "tset", "tone", "tisone", "tvalid", "tto"}
           ELSE {"tmul", "tdiv", "teq", "tset", "tclone", "tone", "tto"}
Scalars == {"0", "1", "2", "3", "n-1", "n", "n+1", "half", "rnd", "top", "sparse", "dense", "wide"}
Forms == {"good", "one", "zero", "minus", "field", "field2", "cyc", "random", "unred", "flip", "short", "longer", "nil", "swap"}
Group(F) ==
  {Prog(F, <<"P", "Q", "Q">>, <<"I", x, "Q">>, Two(F) \o <<Ev(o, d, a, b), Ev("teq", 0, 1, 2)>>) : o \in TOps(F), d \in 1 .. 3, a \in 1 .. 2, b \in 1 .. 2, x \in {"P"}}
  \cup {Prog(F, <<"P", "Q", "Q">>, <<"I", "Q", "Q">>, Two(F) \o <<Ev(o1, 1, 1, 2), Ev(o2, 3, 2, 1), Ev("teq", 0, 1, 3)>>) : o1 \in TOps(F), o2 \in TOps(F)}
  \cup {Prog(F, <<"P", "Q", "Q">>, <<"I", "Q", "Q">>, Two(F) \o <<Ev("tto", 0, 1, 0), [Ev("tfrom", d, 0, 0) EXCEPT !.x = x], Ev("tmul", 3, 1, 2), Ev("teq", 0, 1, 2)>>) : x \in Forms, d \in {1, 3}}
  \* what was copied, and then one of the two changed
  \cup {Prog(F, <<"P", "Q", "Q">>, <<"I", "Q", "Q">>, Two(F) \o <<Ev(o1, 3, a, 2), Ev(o2, w, w, 2), Ev("teq", 0, 3, a), Ev(o2, 4 - w, 2, w), Ev("teq", 0, 1, 3)>>) :
          o1 \in {"tset", "tclone", "tone"} \cap TOps(F), o2 \in TOps(F) \cap {"tmul", "tdiv", "tsq", "tinv"}, a \in {1, 2}, w \in {1, 3}}
  \cup (IF F # "eng" THEN {} ELSE
        {Prog(F, <<"P", "Q", "Q">>, <<"I", x, "Q">>, Two(F) \o <<[Ev("texp", d, a, 0) EXCEPT !.k = k]>>) : k \in Scalars, d \in {1, 3}, a \in {1, 3}, x \in {"P"}}
        \cup {Prog(F, <<"P", "Q", "Q">>, <<"I", "Q", "Q">>, Two(F) \o <<Ev(o, d, a, b), Ev("tvalid", 0, d, 0), Ev("tinv", d, d, 0)>>) : o \in {"tadd", "tsub"}, d \in 1 .. 3, a \in 1 .. 2, b \in {3}})

\* Drawn programs.
Chosen(S, byte) == SetToSeq(S)[1 + (byte % Cardinality(S))]
Draw(n) ==
  LET s(i) == SHA256(BytesBE(atoi(IOEnv.SEED) % 65536, 4) \o BytesBE(n, 4) \o <<77, i>>)
      h == s(0)
      op(b) == Chosen({"add", "inv", "check", "result", "reset", "pagain", "qagain", "tmul", "tsq", "texp", "tinv", "tset", "teq", "tvalid"}, b)
      \* registers that the engine holds stay as they are
      event(b) == [Ev(op(b[1]), 1 + (b[2] % 3), 1 + (b[3] % 3), 1 + (b[4] % 3)) EXCEPT !.k = Chosen(Scalars, b[5])]
  IN Prog("eng", <<Chosen(C1, h[1]), Chosen(C1, h[2]), "Q">>, <<Chosen(C2, h[3]), Chosen(C2, h[4]), "Q">>, [i \in 1 .. (IF Thorough THEN 20 ELSE 10) |-> event(s(i))])
DrawSuite(n) ==
  LET s(i) == SHA256(BytesBE(atoi(IOEnv.SEED) % 65536, 4) \o BytesBE(n, 4) \o <<78, i>>)
      h == s(0)
      event(b) == Ev(Chosen({"tmul", "tdiv", "tset", "tclone", "teq", "tone"}, b[1]), 1 + (b[2] % 3), 1 + (b[3] % 3), 1 + (b[4] % 3))
  IN Prog("suite", <<Chosen(C1 \ {"O"}, h[1]), "P", "Q">>, <<Chosen(C2 \ {"O"}, h[2]), "Q", "Q">>,
          Two("suite") \o <<Ev("pair", 3, 2, 1)>> \o [i \in 1 .. (IF Thorough THEN 20 ELSE 10) |-> event(s(i))])
Drawn == {Draw(n) : n \in 1 .. (IF Thorough THEN 400 ELSE 60)} \cup {DrawSuite(n) : n \in 1 .. (IF Thorough THEN 200 ELSE 40)}

All == Sums \cup Otherwise \cup Histories \cup Classes \cup Suites \cup Group("eng") \cup Group("suite") \cup Drawn
VARIABLE done
Init == done = FALSE
Next == done = FALSE /\ done' = TRUE
Spec == Init /\ [][Next]_done
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(All)) /\ PrintT(Cardinality(All))
===============================================================================
