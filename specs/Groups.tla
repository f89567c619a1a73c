--------------------------------- MODULE Groups --------------------------------
(***************************************************************************)
(* Register machines over the library's groups.  The state of a machine is *)
(* a sequence of points; an event of it names an operation, the registers  *)
(* it reads (a, b, and the sequences as, ks of a multi-exponentiation) and  *)
(* the register d it assigns.  What a register means is a point; how the   *)
(* code represents it (affine, projective with any Z, which Z infinity has) *)
(* does not exist here.                                                    *)
(*   g1, g2  package bls12_381/bls     k1, k2  kyber points on top of it   *)
(*   pa      package pasta             ed      package edwards25519        *)
(***************************************************************************)
EXTENDS BlsG1, Curves, Ed25519

Fam(F) == CASE F \in {"g1", "k1"} -> "g1" [] F \in {"g2", "k2"} -> "g2" [] OTHER -> F
GZero(F) == IF F = "ed" THEN EId ELSE Inf
GGen(F) == CASE Fam(F) = "g1" -> BLS381.g [] Fam(F) = "g2" -> BLS381G2 [] F = "pa" -> PALLAS.g [] F = "ed" -> C25519.b
GOrder(F) == CASE F = "pa" -> PALLAS.n [] F = "ed" -> C25519.n [] OTHER -> BLS381.r
GEq(F, P, Q) == CASE Fam(F) = "g2" -> G2Eq(P, Q) [] F = "ed" -> EEq(P, Q) [] OTHER -> PtEq(P, Q)
GNeg(F, P) == CASE Fam(F) = "g1" -> Neg(G1C, P) [] Fam(F) = "g2" -> G2Neg(BlsP, P) [] F = "pa" -> Neg(PALLAS, P) [] F = "ed" -> ENeg(C25519, P)
GAdd(F, P, Q) ==
  CASE Fam(F) = "g1" -> Add(G1C, P, Q) [] Fam(F) = "g2" -> G2Add(BlsP, P, Q) [] F = "pa" -> Add(PALLAS, P, Q) [] F = "ed" -> EAdd(C25519, P, Q)
GMul(F, k, P) ==
  CASE Fam(F) = "g1" -> Mul(G1C, k, P) [] Fam(F) = "g2" -> G2Mul(BlsP, k, P) [] F = "pa" -> Mul(PALLAS, k, P) [] F = "ed" -> EMul(C25519, k, P)

\* The plain encoding in which registers are observed.
GXY(F, P) ==
  CASE Fam(F) = "g1" -> G1XY(P) [] Fam(F) = "g2" -> G2XY(P)
    [] F = "pa" -> (IF P = Inf THEN Zeros(64) ELSE XY(P)) [] F = "ed" -> EEnc(P)
GOfXY(F, s) ==
  CASE Fam(F) = "g1" -> G1OfXY(s) [] Fam(F) = "g2" -> G2OfXY(s)
    [] F = "pa" -> FromXY(PALLAS, s) [] F = "ed" -> EDec(C25519, s)
\* The point of an observed register.
GSeen(F, s) ==
  CASE Fam(F) = "g1" -> (IF AllZero(s) THEN Inf ELSE <<Num48(s, 0), Num48(s, 1)>>)
    [] Fam(F) = "g2" -> (IF AllZero(s) THEN Inf ELSE << <<Num48(s, 1), Num48(s, 0)>>, <<Num48(s, 3), Num48(s, 2)>> >>)
    [] F = "pa" -> (IF AllZero(s) THEN Inf ELSE <<NatBE(SubSeq(s, 1, 32)), NatBE(SubSeq(s, 33, 64))>>)
    [] F = "ed" -> EDec(C25519, s)[1]
GComp(F, P) == CASE Fam(F) = "g1" -> G1Enc(BLS381, P) [] Fam(F) = "g2" -> G2Enc(BLS381, P) [] F = "pa" -> Comp(P)
GOfComp(F, s) == CASE Fam(F) = "g1" -> G1Dec(BLS381, s) [] Fam(F) = "g2" -> G2Dec(BLS381, s) [] F = "pa" -> FromComp(PALLAS, s)
GUnc(F, P) == IF Fam(F) = "g1" THEN G1Unc(P) ELSE G2Unc(P)
GOfUnc(F, s) == IF Fam(F) = "g1" THEN G1OfUnc(s) ELSE G2OfUnc(s)
GIn(F, P) == CASE Fam(F) = "g1" -> InG1(P) [] Fam(F) = "g2" -> InG2(P)
GClear(F, P) == IF Fam(F) = "g1" THEN ClearG1(P) ELSE ClearG2(P)
GHash(F, msg, dst) == IF Fam(F) = "g1" THEN HashToG1(msg, dst) ELSE HashToG2(msg, dst)
GEncode(F, msg, dst) == IF Fam(F) = "g1" THEN EncodeToG1(msg, dst) ELSE EncodeToG2(msg, dst)
\* How a kyber point hashes: in G2 a message that starts with the tag of a scheme
\* is hashed under that tag, without it.
Starts(m, t) == Len(m) >= Len(t) /\ SubSeq(m, 1, Len(t)) = t
GKHash(F, m) ==
  IF F = "k2" /\ Starts(m, NulDst) THEN HashToG2(SubSeq(m, 44, Len(m)), NulDst)
  ELSE IF F = "k2" /\ Starts(m, AugDst) THEN HashToG2(SubSeq(m, 44, Len(m)), AugDst)
  ELSE GHash(F, m, AugDst)

Opt(P) == <<P>>
\* The scalar of an event: kyber's and Pallas' are residues.
GScalar(F, k) == IF F \in {"k1", "k2", "pa"} THEN NatBE(k) %% GOrder(F) ELSE IF F = "ed" THEN NatLE(k) ELSE NatBE(k)

\* What register d becomes: <<P>>, or <<>> when the call fails or assigns nothing.
\* at(i) is the point of register i.
GResult(F, at(_), ev) ==
  CASE ev.op \in {"add", "aadd"} -> Opt(GAdd(F, at(ev.a), at(ev.b)))
    [] ev.op = "sub" -> Opt(GAdd(F, at(ev.a), GNeg(F, at(ev.b))))
    [] ev.op \in {"dbl", "pdbl"} -> Opt(GAdd(F, at(ev.a), at(ev.a)))
    [] ev.op \in {"neg", "aneg"} -> Opt(GNeg(F, at(ev.a)))
    [] ev.op \in {"copy", "affine", "set", "clone", "rescale"} -> Opt(at(ev.a))
    [] ev.op \in {"mul", "amul"} -> Opt(GMul(F, GScalar(F, B(ev.k)), at(ev.a)))
    [] ev.op = "mulbase" -> Opt(GMul(F, GScalar(F, B(ev.k)), GGen(F)))
    [] ev.op = "mulbaseadd" -> Opt(GAdd(F, GMul(F, GScalar(F, B(ev.k)), at(ev.a)), GMul(F, GScalar(F, B(ev.m)), GGen(F))))
    [] ev.op = "muladd" -> Opt(GAdd(F, GMul(F, GScalar(F, B(ev.k)), at(ev.a)), GMul(F, GScalar(F, B(ev.m)), at(ev.b))))
    [] ev.op = "zero" -> Opt(GZero(F))
    [] ev.op = "one" -> Opt(GGen(F))
    [] ev.op = "clear" -> Opt(GClear(F, at(ev.a)))
    [] ev.op = "mulcof" -> Opt(GMul(F, G1Cofactor, at(ev.a)))
    [] ev.op = "mexp" ->
         IF Len(ev.as) # Len(ev.ks) THEN <<>>
         ELSE Opt(Fold(LAMBDA acc, i : GAdd(F, acc, GMul(F, NatBE(B(ev.ks[i])), at(ev.as[i]))), GZero(F), [i \in 1 .. Len(ev.as) |-> i]))
    [] ev.op = "hash" -> IF Len(B(ev.m)) > 255 THEN <<>> ELSE Opt(GHash(F, B(ev.x), B(ev.m)))
    [] ev.op = "encode" -> IF Len(B(ev.m)) > 255 THEN <<>> ELSE Opt(GEncode(F, B(ev.x), B(ev.m)))
    [] ev.op = "map" -> LET s == B(ev.x) IN IF Len(s) = 48 /\ NatBE(s) \prec BlsP THEN Opt(MapToG1(NatBE(s))) ELSE <<>>
    [] ev.op \in {"khash", "kpick"} -> Opt(GKHash(F, B(ev.x)))
    [] ev.op = "ofcomp" -> GOfComp(F, B(ev.x))
    [] ev.op = "ofunc" -> GOfUnc(F, B(ev.x))
    [] ev.op = "ofxy" -> GOfXY(F, B(ev.x))
    [] OTHER -> <<>>
\* Decoders may look at no more than the bytes they need.
GSize(F, op) == (CASE Fam(F) = "g1" -> 48 [] Fam(F) = "g2" -> 96) * (IF op = "ofcomp" THEN 1 ELSE 2)
GResults(F, at(_), ev) ==
  {GResult(F, at, ev)}
  \cup (IF Fam(F) \in {"g1", "g2"} /\ ev.op \in {"ofcomp", "ofunc", "ofxy"} /\ Len(B(ev.x)) > GSize(F, ev.op)
         THEN {GResult(F, at, [ev EXCEPT !.x = SubSeq(@, 1, 2 * GSize(F, ev.op))])} ELSE {})
GAssigns == {"add", "aadd", "sub", "dbl", "pdbl", "neg", "aneg", "copy", "affine", "set", "clone", "rescale", "mul", "amul", "mulbase", "mulbaseadd", "muladd", "zero", "one", "clear", "mulcof", "mexp",
             "hash", "encode", "map", "khash", "kpick", "ofcomp", "ofunc", "ofxy"}
\* What the call answers.
TF(b) == IF b THEN "true" ELSE "false"
GOut(F, at(_), ev) ==
  CASE ev.op = "equal" -> TF(GEq(F, at(ev.a), at(ev.b)))
    [] ev.op = "iszero" -> TF(GEq(F, at(ev.a), GZero(F)))
    [] ev.op = "isin" -> TF(GIn(F, at(ev.a)))
    [] ev.op = "ison" -> "true"
    [] ev.op = "comp" -> ToHex(GComp(F, at(ev.a)))
    [] ev.op = "unc" -> ToHex(GUnc(F, at(ev.a)))
    [] ev.op = "xy" -> ToHex(GXY(F, at(ev.a)))

\* The event ev takes the registers observed as regs (plain encodings, in
\* hexadecimal) to ev.after.
GStep(F, regs, ev) ==
  /\ ev.st = "OK"
  /\ Len(ev.after) = Len(regs)
  /\ LET at(i) == GSeen(F, B(regs[i]))
     IN IF ev.op \in GAssigns
        THEN \E P \in GResults(F, at, ev) :
                /\ ev.ok = (P # <<>>)
                /\ \A i \in 1 .. Len(regs) : ev.after[i] = (IF i = ev.d /\ P # <<>> THEN ToHex(GXY(F, P[1])) ELSE regs[i])
        ELSE \* the encoding of Pallas' neutral element is not specified
             /\ (F = "pa" /\ ev.op = "comp" /\ at(ev.a) = Inf) \/ ev.out = GOut(F, at, ev)
             /\ ev.after = regs
===============================================================================
