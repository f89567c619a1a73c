------------------------------- MODULE GroupScen -------------------------------
(***************************************************************************)
(* Writes the programs over points that the driver is to run.  A register  *)
(* starts as a class: O neutral, G generator, P some point, N = -P, D = 2P,*)
(* Q another point, T a point outside the subgroup, S of small order.      *)
(* Every operation is run with every pattern of equal registers, on every  *)
(* pair of classes, in registers as they were decoded and in registers     *)
(* that hold the same point in another representation (X added to it and   *)
(* subtracted again); scalars are classes too.  Longer programs are drawn  *)
(* from a hash of the seed.                                                *)
(***************************************************************************)
EXTENDS Hashes, TLC, IOUtils, Json, SequencesExt

Thorough == IOEnv.TIER = "thorough"
Kinds == {"g1", "g2", "k1", "k2", "pa", "ed"}
Classes(F) == CASE F \in {"g1", "ed"} -> {"O", "G", "P", "N", "D", "Q", "T", "S"}
                [] F = "g2" -> {"O", "G", "P", "N", "D", "Q", "T"}
                [] OTHER -> {"O", "G", "P", "N", "D", "Q"}
Sub2(F) == F \notin {"pa", "ed"}
Binary(F) == CASE F = "pa" -> {"add", "aadd"} [] F = "ed" -> {} [] OTHER -> {"add", "sub"}
Unary(F) == CASE F \in {"g1", "g2"} -> {"dbl", "neg", "affine", "copy", "clear"} \cup (IF F = "g1" THEN {"mulcof"} ELSE {})
              [] F \in {"k1", "k2"} -> {"neg", "set", "clone"}
              [] F = "pa" -> {"dbl", "neg", "aneg", "affine"}
              [] F = "ed" -> {"dbl", "pdbl", "copy"}
Scaled(F) == CASE F \in {"g1", "g2"} -> {"mul"} [] F \in {"k1", "k2"} -> {"mul", "mulbase"} [] F = "pa" -> {"mul", "amul"}
               [] F = "ed" -> {"mulbase", "mulbaseadd"}
Tests1(F) == CASE F \in {"g1", "g2"} -> {"iszero", "isin", "ison", "comp", "unc", "xy"}
               [] F \in {"k1", "k2"} -> {"isin", "comp"}
               [] F = "pa" -> {"iszero", "ison", "comp", "xy"}
               [] F = "ed" -> {"xy"}
Tests2(F) == IF F = "ed" THEN {} ELSE {"equal"}
Scalars(F) == {"0", "1", "2", "3", "n-1", "n", "n+1", "half", "rnd", "top", "sparse", "dense"} \cup (IF F \in {"g1", "g2"} THEN {"wide"} ELSE {})

Ev(op, d, a, b, k, m) == [op |-> op, d |-> d, a |-> a, b |-> b, k |-> k, m |-> m, x |-> "", as |-> <<>>, ks |-> <<>>]
\* The same point of register i in another representation, with the help of register 3.
Again(F, i) ==
  IF Sub2(F) THEN <<Ev("sub", i, i, 3, "", ""), Ev("add", i, i, 3, "", "")>>
  ELSE IF F = "pa" THEN <<Ev("add", i, i, 3, "", ""), Ev("neg", 3, 3, 0, "", ""), Ev("add", i, i, 3, "", ""), Ev("neg", 3, 3, 0, "", "")>>
  ELSE <<Ev("mulbaseadd", i, i, 0, "1", "0")>>
Prep(F, p1, p2) == (IF p1 THEN Again(F, 1) ELSE <<>>) \o (IF p2 THEN Again(F, 2) ELSE <<>>)
Prog(F, c1, c2, c3, ev) == [f |-> F, init |-> <<c1, c2, c3>>, ev |-> ev]

BinaryProgs(F) ==
  {Prog(F, c1, c2, "Q", Prep(F, p1, p2) \o <<Ev(o, d, 1, 2, "", "")>>) : o \in Binary(F) \cup Tests2(F), c1 \in Classes(F), c2 \in Classes(F),
     d \in {1, 2, 3}, p1 \in BOOLEAN, p2 \in BOOLEAN}
  \cup {Prog(F, c1, "P", "Q", Prep(F, p1, FALSE) \o <<Ev(o, d, 1, 1, "", "")>>) : o \in Binary(F) \cup Tests2(F), c1 \in Classes(F), d \in {1, 2}, p1 \in BOOLEAN}
UnaryProgs(F) ==
  {Prog(F, c1, "P", "Q", Prep(F, p1, FALSE) \o <<Ev(o, d, 1, 0, "", "")>>) : o \in Unary(F) \cup Tests1(F), c1 \in Classes(F), d \in {1, 2}, p1 \in BOOLEAN}
  \cup {Prog(F, c1, "P", "Q", Prep(F, p1, FALSE) \o <<Ev(o, 1, 1, 0, "", ""), Ev(o2, 2, 1, 0, "", "")>>) :
          o \in Unary(F) \cup Tests1(F), o2 \in Unary(F) \cup Tests1(F), c1 \in Classes(F), p1 \in BOOLEAN}
ScalarProgs(F) ==
  {Prog(F, c1, "P", "Q", Prep(F, p1, FALSE) \o <<Ev(o, d, 1, 0, k, k2)>>) :
     o \in Scaled(F) \ {"mulbase"}, c1 \in Classes(F), d \in (IF F = "ed" THEN {1} ELSE {1, 2}), p1 \in BOOLEAN, k \in Scalars(F), k2 \in (IF F = "ed" THEN {"0", "rnd"} ELSE {"0"})}
  \cup {Prog(F, "P", "P", "Q", <<Ev(o, 1, 1, 0, k, "0")>>) : o \in Scaled(F) \cap {"mulbase"}, k \in Scalars(F)}
  \cup (IF F # "ed" THEN {} ELSE
        {Prog(F, c1, c2, "Q", <<Ev("muladd", 3, 1, 2, k, m)>>) : c1 \in Classes(F), c2 \in Classes(F), k \in {"1", "rnd"}, m \in {"0", "1", "rnd"}}
        \cup {Prog(F, "P", "Q", "Q", <<Ev("muladd", 3, 1, 2, k, m)>>) : k \in Scalars(F), m \in Scalars(F)})
ZeroProgs(F) == {Prog(F, "P", "P", "Q", <<Ev(o, 1, 0, 0, "", ""), Ev(o2, 1, 1, 2, "1", "1")>>) :
                   o \in (IF F = "ed" THEN {"zero"} ELSE IF F = "pa" THEN {"one"} ELSE {"zero", "one"}), o2 \in Binary(F) \cup Unary(F) \cup Tests1(F) \cup Tests2(F) \cup Scaled(F)}

\* Multi-exponentiation: lengths around the change of its window, vectors of
\* different length, repeated and opposite points.
MexpLens == {0, 1, 2, 3, 7, 31, 32, 33}
MexpEv(n, m, pat, k) ==
  [Ev("mexp", 3, 0, 0, "", "") EXCEPT
     !.as = [i \in 1 .. n |-> CASE pat = "same" -> 1 [] pat = "two" -> 1 + (i % 2) [] OTHER -> 1 + (i % 3)], !.ks = [i \in 1 .. m |-> k]]
MexpProgs(F) ==
  IF F \notin {"g1", "g2"} THEN {}
  ELSE {Prog(F, c[1], c[2], "Q", <<MexpEv(nk[1], nk[1], pat, nk[2]), Ev("equal", 0, 3, 1, "", "")>>) :
          c \in {<<"P", "N">>, <<"G", "O">>, <<"P", "D">>, <<"T", "P">>}, pat \in {"same", "two", "three"},
          nk \in MexpLens \X {"1"} \cup {0, 1, 2, 3} \X {"rnd", "n-1", "wide"}}
       \cup {Prog(F, "P", c, "Q", <<MexpEv(n, n, "three", k)>>) : c \in {"N", "O", "Q"}, n \in {7, 31, 32, 33}, k \in {"rnd", "small"}}
       \cup {Prog(F, "P", "Q", "Q", <<MexpEv(n, n, "three", "small")>>) : n \in {100, 101, 255, 256, 257}}
       \cup {Prog(F, "P", "G", "Q", <<MexpEv(n, m, "three", "rnd")>>) : n \in {0, 1, 3}, m \in {0, 2, 4}}

\* Encodings and hashed inputs; x names what the driver puts there.
Decoded(F) == CASE F \in {"g1", "g2"} -> {"ofcomp", "ofunc", "ofxy"} [] F \in {"k1", "k2"} -> {"ofcomp"} [] F = "pa" -> {"ofcomp", "ofxy"} [] F = "ed" -> {"ofxy"}
Forms(F) == {"good", "inf", "sign", "sub", "off", "unred", "infx", "flags", "notcomp", "random", "short", "longer", "nil"}
DecodeProgs(F) ==
  {Prog(F, "P", "Q", "Q", <<[Ev(o, d, 0, 0, "", "") EXCEPT !.x = x], Ev(t, 1, 1, 2, "", "")>>) :
     o \in Decoded(F), x \in Forms(F), d \in {1, 2}, t \in Binary(F) \cup Tests1(F)}
Messages == {"empty", "short", "long", "tagN", "tagA", "tagNonly", "tagpart"}
Domains == {"std", "short", "255", "256", "300"}
HashProgs(F) ==
  CASE F \in {"g1", "g2"} ->
         {Prog(F, "P", "Q", "Q", <<[Ev(o, 1, 0, 0, "", m) EXCEPT !.x = x], Ev("add", 1, 1, 2, "", "")>>) : o \in {"hash", "encode"}, x \in {"empty", "short", "long"}, m \in Domains}
         \cup (IF F = "g2" THEN {} ELSE
               {Prog(F, "P", "Q", "Q", <<[Ev("map", 1, 0, 0, "", "") EXCEPT !.x = x], Ev("add", 1, 1, 2, "", "")>>) : x \in {"0", "1", "p-1", "p", "ones", "rnd", "exc", "len47"}})
    [] F \in {"k1", "k2"} -> {Prog(F, "P", "Q", "Q", <<Ev("kpick", d, 0, 0, "", ""), Ev("add", 3, 1, 2, "", "")>>) : d \in {1, 2}} \cup {Prog(F, "P", "Q", "Q", <<[Ev("khash", d, 0, 0, "", "") EXCEPT !.x = x], Ev("add", 3, 1, 2, "", "")>>) : x \in Messages, d \in {1, 2}}
    [] OTHER -> {}

\* A point in a representation of the driver's choice: its coordinates are
\* multiplied by a number that is small, a power of two, next to p or to p/2, in
\* ordinary or in Montgomery form ("m"), or whose norm is such ("n").
Rescalable == {"g1", "g2", "pa", "ed"}
Rescale(i, z) == [Ev("rescale", i, i, 0, "", "") EXCEPT !.x = z]
Powers(F) == {"2^63", "2^64", "2^65", "2^127", "2^128", "2^192", "2^253", "2^254"} \cup (IF Sub2(F) THEN {"2^255", "2^256", "2^319", "2^320", "2^379", "2^380"} ELSE {})
Plain(F) == {"1", "2", "3", "-1", "-2", "-2^64", "h0", "h1", "h2"} \cup Powers(F)
Factors(F) == {"rnd", "2", "-1", "h1"} \cup (IF F = "ed" THEN Plain(F) ELSE {"m" \o e : e \in Plain(F)}) \cup (IF F = "g2" THEN {"n" \o e : e \in Plain(F)} ELSE {})
Some(F) == {"rnd", "h1"} \cup (IF F = "ed" THEN {"1", "-1"} ELSE {"m1", "m-1"}) \cup (IF F = "g2" THEN {"n1", "n2^380"} ELSE {}) \cup (IF Sub2(F) THEN {"m2^380"} ELSE {})
RescaleProgs(F) ==
  IF F \notin Rescalable THEN {}
  ELSE {Prog(F, c1, "P", "Q", <<Rescale(1, z), Ev(o, 2, 1, 0, "2", "1")>>) : c1 \in Classes(F), z \in Factors(F), o \in Unary(F) \cup Tests1(F)}
       \cup {Prog(F, c1, "P", "Q", <<Rescale(1, z), Ev(o, 2, 1, 0, k, "1")>>) : c1 \in {"P", "O"}, z \in Some(F), o \in Scaled(F), k \in {"2", "rnd"}}
       \cup {Prog(F, c1, c2, "Q", <<Rescale(1, z), Rescale(2, z2), Ev(o, d, 1, 2, "2", "1")>>) :
               c1 \in {"P", "O", "T"} \cap Classes(F), c2 \in Classes(F), z \in Some(F), z2 \in Some(F), d \in {1, 3},
               o \in Binary(F) \cup Tests2(F) \cup (IF F = "ed" THEN {"muladd"} ELSE {})}

\* Drawn programs: the bytes of a hash make the choices.
Chosen(S, byte) == SetToSeq(S)[1 + (byte % Cardinality(S))]
Draw(F, n) ==
  LET s(i) == SHA256(BytesBE(atoi(IOEnv.SEED) % 65536, 4) \o BytesBE(n, 4) \o <<i>>)
      start == s(0)
      Ops == Binary(F) \cup Unary(F) \cup Tests2(F) \cup Scaled(F) \cup Tests1(F) \cup (IF F = "ed" THEN {"muladd"} ELSE {}) \cup (IF F \in {"g1", "g2"} THEN {"mexp"} ELSE {}) \cup (IF F \in Rescalable THEN {"rescale"} ELSE {})
      event(b) ==
        LET o == IF b[7] % 4 # 0 /\ Binary(F) # {} THEN Chosen(Binary(F) \cup (Unary(F) \ {"clear", "mulcof"}), b[1]) ELSE Chosen(Ops, b[1])
        IN [Ev(o, 1 + (b[2] % 3), 1 + (b[3] % 3), 1 + (b[4] % 3), Chosen(Scalars(F), b[5]), Chosen(Scalars(F), b[6]))
            EXCEPT !.x = (IF o = "rescale" THEN Chosen(Factors(F), b[5]) ELSE ""),
                   !.as = (IF o = "mexp" THEN [i \in 1 .. 1 + (b[8] % 5) |-> 1 + (b[8 + i] % 3)] ELSE <<>>),
                   !.ks = (IF o = "mexp" THEN [i \in 1 .. 1 + (b[8] % 5) |-> Chosen(Scalars(F), b[15 + i])] ELSE <<>>)]
  IN Prog(F, Chosen(Classes(F), start[1]), Chosen(Classes(F), start[2]), Chosen(Classes(F), start[3]),
          [i \in 1 .. (IF Thorough THEN 20 ELSE 12) |-> event(s(i))])
Drawn(F) == {Draw(F, n) : n \in 1 .. (IF Thorough THEN 400 ELSE 60)}

All == UNION {BinaryProgs(F) \cup UnaryProgs(F) \cup ScalarProgs(F) \cup ZeroProgs(F) \cup MexpProgs(F) \cup RescaleProgs(F) \cup DecodeProgs(F) \cup HashProgs(F) \cup Drawn(F) : F \in Kinds}

VARIABLE done
Init == done = FALSE
Next == done = FALSE /\ done' = TRUE
Spec == Init /\ [][Next]_done
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(All))
===============================================================================
