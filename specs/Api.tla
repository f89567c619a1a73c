---------------------------------- MODULE Api ----------------------------------
(***************************************************************************)
(* The library's exported interface: for every call, the results it may    *)
(* have.  A call is a record [op, arguments..., results...]; Step(rec)     *)
(* says whether the results are among those the specification allows.      *)
(* st is the status ("RETURNED" for functions that have none), out the     *)
(* main result ("nil" when there is none).                                 *)
(***************************************************************************)
EXTENDS Bytes, Hashes, Curves, Ecdsa, Sm2, Ed25519, Mont, Bls12381, Mina, TLC

Refusals == {"FAILURE", "ECC_PRIKEY_ILLEGAL", "ECC_PUBKEY_ILLEGAL", "ECC_WRONG_TYPE", "ECC_MISS_ID",
             "RAND_IS_NULL", "LENGTH_ERROR", "POINT_AT_INFINITY", "MESSAGE_ILLEGAL"}

\* The result is exactly the bytes s (or none, when s is empty).
OptIs(h, s) == IF s = <<>> THEN NoOut(h) ELSE h = ToHex(s)

\* With a status: success with the bytes opt[1], or refusal without a result when opt = <<>>.
Outcome(rec, opt) ==
  IF opt = <<>> THEN rec.st \in Refusals /\ NoOut(rec.out)
  ELSE rec.st = "SUCCESS" /\ rec.out = ToHex(opt[1])
Refused(rec) == Outcome(rec, <<>>)
Succeeds(rec) == rec.st = "SUCCESS" /\ ~NoOut(rec.out)
\* Without a status.
Returned(rec, opt) == rec.st = "RETURNED" /\ OptIs(rec.out, IF opt = <<>> THEN <<>> ELSE opt[1])
Decided(rec, ok) == rec.st = IF ok THEN "SUCCESS" ELSE "FAILURE"

Some(P) == IF P = Inf THEN <<>> ELSE <<XY(P)>>
Scalar(k) == NatBE(B(k))

---------------------------------------------------------------------------
(* Weierstrass curves. *)

WGenPubkey(C, rec) ==
  LET d == Key(C, B(rec.key)) IN Outcome(rec, IF d = <<>> THEN <<>> ELSE <<XY(MulG(C, d[1]))>>)
WMulBaseG(C, rec) ==
  LET d == Key(C, B(rec.k)) IN Returned(rec, IF d = <<>> THEN <<>> ELSE <<Comp(MulG(C, d[1]))>>)
WCompress(C, rec) ==
  LET p == B(rec.p)
      s == IF Len(p) = 65 /\ p[1] = 4 THEN Tail(p) ELSE p
      P == FromXY(C, s)
  IN IF Len(s) # 64 THEN Returned(rec, <<>>)
     ELSE IF P = <<>> THEN rec.st = "RETURNED"      \* not a point: unspecified
     ELSE Returned(rec, <<Comp(P[1])>>)
WDecompress(C, rec) ==
  LET P == FromComp(C, B(rec.p)) IN Returned(rec, IF P = <<>> THEN <<>> ELSE <<Full(P[1])>>)
WPAdd(C, rec) ==
  LET P == FromAny(C, B(rec.p)) Q == FromAny(C, B(rec.q))
  IN Outcome(rec, IF P = <<>> \/ Q = <<>> THEN <<>> ELSE Some(Add(C, P[1], Q[1])))
WMul(C, rec) ==
  LET P == FromAny(C, B(rec.p)) k == B(rec.k)
  IN Outcome(rec, IF P = <<>> \/ Len(k) # 32 THEN <<>> ELSE Some(Mul(C, NatBE(k), P[1])))
\* Results that come with an infinity flag.
Flagged(rec, opt) ==     \* opt: <<>> for refused, <<P>> for the point P
  IF opt = <<>> THEN rec.st = "RETURNED" /\ NoOut(rec.out) /\ rec.inf = 0
  ELSE IF opt[1] = Inf THEN rec.st = "RETURNED" /\ NoOut(rec.out) /\ rec.inf = 1
  ELSE rec.st = "RETURNED" /\ rec.out = ToHex(XY(opt[1])) /\ rec.inf = 0
WMulBaseGAdd(C, rec) ==
  LET P == FromAny(C, B(rec.p)) k == B(rec.k)
  IN Flagged(rec, IF P = <<>> \/ Len(k) # 32 THEN <<>> ELSE <<Add(C, MulG(C, NatBE(k)), P[1])>>)

Named(name) == CASE name = "secp256k1" -> <<K1>> [] name = "secp256r1" -> <<R1>> [] name = "sm2_std" -> <<SM2C>> [] OTHER -> <<>>
NAdd(rec) ==
  LET C == Named(rec.name) IN
  IF C = <<>> THEN Flagged(rec, <<>>)
  ELSE LET P == FromXY(C[1], B(rec.p)) Q == FromXY(C[1], B(rec.q))
       IN Flagged(rec, IF P = <<>> \/ Q = <<>> THEN <<>> ELSE <<Add(C[1], P[1], Q[1])>>)
NMul(rec) ==
  LET C == Named(rec.name) IN
  IF C = <<>> THEN Flagged(rec, <<>>)
  ELSE LET P == FromXY(C[1], B(rec.p))
       IN Flagged(rec, IF P = <<>> THEN <<>> ELSE <<Mul(C[1], Scalar(rec.k), P[1])>>)
NMulBaseGAdd(rec) ==
  LET C == Named(rec.name) IN
  IF C = <<>> THEN Flagged(rec, <<>>)
  ELSE LET P == FromXY(C[1], B(rec.p))
       IN Flagged(rec, IF P = <<>> THEN <<>> ELSE <<Add(C[1], MulG(C[1], Scalar(rec.k)), P[1])>>)

OrderBytes(alg) ==
  CASE alg \in {"K1", "R1", "SM2", "PASTA"} -> <<BytesBE(Params(alg).n, 32)>>
    [] alg = "ED" -> <<HexBytes("1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed")>>
    [] OTHER -> <<>>

---------------------------------------------------------------------------
(* Signatures over Weierstrass curves. *)

EcdsaSign(C, rec) ==
  LET d == Key(C, B(rec.key)) h == B(rec.msg)
  IN IF d = <<>> \/ Len(h) # 32 THEN Refused(rec)
     ELSE Succeeds(rec) /\ SignedBytes(C, d[1], h, B(rec.out), rec.v)
EcdsaVerify(C, rec) == Decided(rec, VerifyBytes(C, B(rec.pub), B(rec.msg), B(rec.sig)))

Sm2Sign(rec) ==
  LET d == Sm2Key(SM2C, B(rec.key)) m == B(rec.msg) id == B(rec.id)
  IN IF d = <<>> \/ Len(m) # 32 \/ ~IdOk(id) THEN Refused(rec)
     ELSE Succeeds(rec) /\ Sm2SignedBytes(SM2C, d[1], ~IsNil(rec.id), id, m, B(rec.out), rec.v)
Sm2Verify(rec) ==
  Decided(rec, Sm2VerifyBytes(SM2C, B(rec.pub), ~IsNil(rec.id), B(rec.id), B(rec.msg), B(rec.sig)))

\* signer, when present, is the private key that made this signature.
Recover(rec) ==
  LET C == Params(rec.alg) sig == B(rec.sig) m == B(rec.msg)
  IN IF "signer" \in DOMAIN rec
     THEN Outcome(rec, <<XY(MulG(C, Scalar(rec.signer)))>>)
     ELSE \/ rec.st = "FAILURE" /\ NoOut(rec.out)
          \/ rec.st = "SUCCESS" /\ IF rec.alg = "SM2" THEN Sm2RecoveredBytes(C, sig, m, B(rec.out))
                                   ELSE RecoveredBytes(C, sig, m, B(rec.out))

---------------------------------------------------------------------------
(* SM2 encryption and key agreement. *)

\* d, noted by the driver, is the private key of pub.
Sm2Encrypt(rec) ==
  LET Q == FromXY(SM2C, B(rec.pub)) m == B(rec.plain) c == B(rec.out)
  IN IF Q = <<>> \/ m = <<>> THEN Refused(rec)
     ELSE Succeeds(rec) /\ Len(c) = 97 + Len(m) /\ DecryptBytes(SM2C, Scalar(rec.d), c) = <<m>>
Sm2Decrypt(rec) ==
  LET d == Key(SM2C, B(rec.key))
  IN Outcome(rec, IF d = <<>> THEN <<>> ELSE DecryptBytes(SM2C, d[1], B(rec.cipher)))

\* A plaintext of n zeros: its ciphertext is the key stream, of which some blocks are shown.
Sm2LongCipher(rec) ==
  LET d == Key(SM2C, B(rec.key))
      C1 == FromXY(SM2C, Tail(B(rec.c1)))
  IN /\ rec.st = "SUCCESS" /\ rec.inverse /\ rec.refused
     /\ B(rec.c1)[1] = 4 /\ C1 # <<>>
     /\ LET z == XY(Mul(SM2C, d[1], C1[1]))
        IN \A i \in 1 .. Len(rec.at) : rec.stream[i] = ToHex(SM3(z \o BytesBE(rec.at[i], 4)))

KaId(h) == B(h) # <<>> /\ IdOk(B(h))
KaInit1(rec) ==
  LET r == Key(SM2C, B(rec.tmpkey))
  IN rec.st = "RETURNED" /\ r # <<>> /\ rec.tmppub = ToHex(XY(MulG(SM2C, r[1])))

KaNothing(rec) == rec.st \in Refusals /\ NoOut(rec.out)
KaInit2(rec) ==
  LET C == SM2C
      dA == Key(C, B(rec.dA)) rA == Key(C, B(rec.rA))
      PA == FromXY(C, B(rec.pubA)) PB == FromXY(C, B(rec.pubB))
      RA == FromXY(C, B(rec.RA)) RB == FromXY(C, B(rec.RB))
      no == KaNothing(rec) /\ NoOut(rec.S)
  IN IF dA = <<>> \/ rA = <<>> \/ PA = <<>> \/ PB = <<>> \/ RA = <<>> \/ RB = <<>> \/ ~KaId(rec.idA) \/ ~KaId(rec.idB) THEN no
     ELSE LET U == KaShared(C, dA[1], rA[1], RA[1], PB[1], RB[1])
          IN IF U = Inf THEN no
             ELSE LET zA == ZA(C, PA[1], B(rec.idA)) zB == ZA(C, PB[1], B(rec.idB))
                  IN IF rec.SB # ToHex(KaConfirm(2, U, zA, zB, RA[1], RB[1])) THEN no
                     ELSE /\ rec.st = "SUCCESS"
                          /\ OptIs(rec.out, KaKey(U, zA, zB, rec.keylen))
                          /\ rec.S = ToHex(KaConfirm(3, U, zA, zB, RA[1], RB[1]))

\* rnd is the responder's ephemeral scalar where the caller chooses it.  Where
\* the library chooses it, la and lr, noted by the driver, are the logarithms
\* of pubA and RA, from which the shared point follows as well.
KaResp1(rec) ==
  LET C == SM2C
      chosen == rec.op = "KaRespE1" /\ ~IsNil(rec.rnd)
      dB == Key(C, B(rec.dB))
      rB == IF chosen THEN Key(C, B(rec.rnd)) ELSE <<1>>
      PA == FromXY(C, B(rec.pubA)) PB == FromXY(C, B(rec.pubB))
      RA == FromXY(C, B(rec.RA)) RB == FromXY(C, B(rec.RB))
      no == KaNothing(rec) /\ NoOut(rec.S1) /\ NoOut(rec.S2) /\ NoOut(rec.RB)
  IN IF dB = <<>> \/ rB = <<>> \/ PA = <<>> \/ PB = <<>> \/ RA = <<>> \/ ~KaId(rec.idA) \/ ~KaId(rec.idB) THEN no
     ELSE LET R == IF chosen THEN <<MulG(C, rB[1])>> ELSE RB
              la == Scalar(rec.la) lr == Scalar(rec.lr)
              U == IF R = <<>> THEN Inf
                   ELSE IF chosen THEN KaShared(C, dB[1], rB[1], R[1], PA[1], RA[1])
                   ELSE KaShared(C, la, lr, RA[1], MulG(C, dB[1]), R[1])
              hint == chosen \/ (PtEq(MulG(C, la), PA[1]) /\ PtEq(MulG(C, lr), RA[1]))
          IN IF U = Inf THEN no
             ELSE LET zA == ZA(C, PA[1], B(rec.idA)) zB == ZA(C, PB[1], B(rec.idB))
                  IN /\ hint
                     /\ rec.st = "SUCCESS"
                     /\ rec.RB = ToHex(XY(R[1]))
                     /\ OptIs(rec.out, KaKey(U, zA, zB, rec.keylen))
                     /\ rec.S1 = ToHex(KaConfirm(3, U, zA, zB, RA[1], R[1]))
                     /\ rec.S2 = ToHex(KaConfirm(2, U, zA, zB, RA[1], R[1]))
KaResp2(rec) == Decided(rec, Len(B(rec.SA)) = 32 /\ rec.SA = rec.SB)

---------------------------------------------------------------------------
(* The Curve25519 family. *)

EdFamily == {"EDN", "ED", "X25519", "KCDSA"}
EdGenPubkey(rec) ==
  LET k == B(rec.key) E == C25519
  IN Outcome(rec, IF Len(k) # 32 THEN <<>>
                  ELSE << CASE rec.alg = "EDN" -> EdSeedPub(E, k) [] rec.alg = "ED" -> RawPub(E, k)
                            [] rec.alg = "X25519" -> XPub(E, k) [] rec.alg = "KCDSA" -> KPub(E, k) >>)
EdSignature(rec) ==
  LET k == B(rec.key) m == B(rec.msg) E == C25519
  IN IF Len(k) # 32 THEN Refused(rec)
     ELSE CASE rec.alg = "EDN" -> Outcome(rec, <<EdSeedSign(E, k, m)>>)
            [] rec.alg = "KCDSA" -> Outcome(rec, <<KSign(E, k, m)>>)
            [] rec.alg = "ED" -> Succeeds(rec) /\ RawSigned(E, k, m, B(rec.out))
            [] rec.alg = "X25519" -> Succeeds(rec) /\ XSigned(E, k, m, B(rec.out))
EdVerifies(rec) ==
  LET E == C25519 IN
  Decided(rec, CASE rec.alg \in {"EDN", "ED"} -> EdVerify(E, B(rec.pub), B(rec.msg), B(rec.sig))
                 [] rec.alg = "X25519" -> XVerify(E, B(rec.pub), B(rec.msg), B(rec.sig))
                 [] rec.alg = "KCDSA" -> KVerify(E, B(rec.pub), B(rec.msg), B(rec.sig)))
XtoEd(rec) ==
  LET x == B(rec.p) E == C25519
  IN Outcome(rec, IF Len(x) # 32 \/ ~(NatLE(x) \prec E.p) THEN <<>> ELSE <<BytesLE(UtoY(E, NatLE(x)), 32)>>)
EdtoX(rec) ==
  LET y == B(rec.p) E == C25519
  IN Outcome(rec, IF Len(y) # 32 THEN <<>> ELSE <<BytesLE(YtoU(E, NatLE(Low255(y)) %% E.p), 32)>>)
EdMulBaseG(rec) ==
  LET k == B(rec.k) IN Returned(rec, IF Len(k) # 32 THEN <<>> ELSE <<RawPub(C25519, k)>>)
EdFlagged(rec, opt) ==
  IF opt = <<>> THEN rec.st = "RETURNED" /\ NoOut(rec.out) /\ rec.inf = 0
  ELSE IF EEq(opt[1], EId) THEN rec.st = "RETURNED" /\ NoOut(rec.out) /\ rec.inf = 1
  ELSE rec.st = "RETURNED" /\ rec.out = ToHex(EEnc(opt[1])) /\ rec.inf = 0
EdMulBaseGAdd(rec) ==
  LET P == EDec(C25519, B(rec.p)) k == B(rec.k)
  IN EdFlagged(rec, IF P = <<>> \/ Len(k) # 32 THEN <<>> ELSE <<EAdd(C25519, EMulB(C25519, NatLE(k) %% C25519.n), P[1])>>)
EdAdd(rec) ==
  LET P == EDec(C25519, B(rec.p)) Q == EDec(C25519, B(rec.q))
  IN Outcome(rec, IF P = <<>> \/ Q = <<>> THEN <<>>
                  ELSE LET R == EAdd(C25519, P[1], Q[1]) IN IF EEq(R, EId) THEN <<>> ELSE <<EEnc(R)>>)

---------------------------------------------------------------------------
(* BLS12-381. *)

BlsFamily == {"BLSN", "BLSA"}
BlsKey(s) == IF Len(s) = 32 /\ ~(NatBE(s) \doteq 0) /\ NatBE(s) \prec BLS381.r THEN <<NatBE(s)>> ELSE <<>>
BlsGenPubkey(rec) ==
  LET sk == BlsKey(B(rec.key)) IN Outcome(rec, IF sk = <<>> THEN <<>> ELSE <<BlsPub(BLS381, sk[1])>>)
BlsSignature(rec) ==
  LET sk == BlsKey(B(rec.key))
  IN Outcome(rec, IF sk = <<>> THEN <<>>
                  ELSE <<G2Enc(BLS381, BlsSig(BLS381, sk[1], BlsHash(rec.alg, BlsPub(BLS381, sk[1]), B(rec.msg))))>>)
\* sk, noted by the driver, is the private key of pub (when pub is a public key).
BlsVerify(rec) ==
  LET P == G1Dec(BLS381, B(rec.pub)) S == G2Dec(BLS381, B(rec.sig)) sk == Scalar(rec.sk)
  IN IF P = <<>> \/ P[1] = Inf \/ S = <<>> THEN Decided(rec, FALSE)
     ELSE /\ PtEq(MulG(G1Curve(BLS381), sk), P[1])
          /\ Decided(rec, G2Eq(S[1], BlsSig(BLS381, sk, BlsHash(rec.alg, B(rec.pub), B(rec.msg)))))
BlsAggregate(rec) ==
  IF rec.alg \notin BlsFamily THEN Refused(rec)
  ELSE LET S == BlsSum(BLS381, [i \in 1 .. Len(rec.sigs) |-> B(rec.sigs[i])])
       IN Outcome(rec, IF S = <<>> THEN <<>> ELSE <<G2Enc(BLS381, S[1])>>)
BlsMulBaseG(rec) ==
  LET k == BlsKey(B(rec.k)) IN Returned(rec, IF k = <<>> THEN <<>> ELSE <<BlsPub(BLS381, k[1])>>)
BlsMulBaseGAdd(rec) ==
  LET P == G1Dec(BLS381, B(rec.p)) k == B(rec.k)
  IN IF P = <<>> \/ Len(k) # 32 THEN rec.st = "RETURNED" /\ NoOut(rec.out) /\ rec.inf = 0
     ELSE LET R == Add(G1Curve(BLS381), MulG(G1Curve(BLS381), NatBE(k)), P[1])
          IN /\ rec.st = "RETURNED"
             /\ IF R = Inf THEN NoOut(rec.out) /\ rec.inf = 1 ELSE rec.out = ToHex(G1Enc(BLS381, R)) /\ rec.inf = 0

---------------------------------------------------------------------------
(* Pasta.  mina, noted by the driver, is what a well-formed message carries. *)

NatsOf(l) == [i \in 1 .. Len(l) |-> NatBE(B(l[i]))]
MinaMsg(rec) ==       \* <<m>>, or <<>> for what is no message
  IF "mina" \notin DOMAIN rec THEN <<>>
  ELSE LET m == rec.mina IN
       IF Packed(MINA, NatsOf(m.pre)) /\ Packed(MINA, NatsOf(m.suf)) /\ Packed(MINA, NatsOf(m.iv))
       THEN << [pre |-> Unpack(MINA, NatsOf(m.pre)), suf |-> Unpack(MINA, NatsOf(m.suf)), iv |-> Unpack(MINA, NatsOf(m.iv))] >>
       ELSE <<>>
PSponge(rec) ==
  rec.st = "RETURNED" /\ rec.out = ToHex(BytesBE(Poseidon(MINA, Unpack(MINA, NatsOf(rec.iv)), Unpack(MINA, NatsOf(rec.xs))), 32))
PastaVerdict(P, m, sig) ==
  P # <<>> /\ m # <<>> /\ Len(sig) = 64
  /\ MinaAccepts(MINA, P[1], m[1], NatBE(SubSeq(sig, 1, 32)), NatBE(SubSeq(sig, 33, 64)))
PastaSign(rec) ==
  LET d == Key(PALLAS, B(rec.key)) m == MinaMsg(rec)
  IN IF d = <<>> \/ m = <<>> THEN Refused(rec)
     ELSE Succeeds(rec) /\ PastaVerdict(<<MulG(PALLAS, d[1])>>, m, B(rec.out))
PastaVerify(rec) == Decided(rec, PastaVerdict(FromAny(PALLAS, B(rec.pub)), MinaMsg(rec), B(rec.sig)))
\* The package's operations on Jacobian coordinates: X, Y, Z of 32 bytes each.
Jacobian(s) ==
  LET X == NatBE(SubSeq(s, 1, 32)) Y == NatBE(SubSeq(s, 33, 64)) Z == NatBE(SubSeq(s, 65, 96)) p == PALLAS.p
      zi == InvM(Z, p) zz == MulM(zi, zi, p)
  IN IF Z \doteq 0 THEN Inf ELSE <<MulM(X, zz, p), MulM(Y, MulM(zz, zi, p), p)>>
PIs(rec, P) ==
  rec.st = "RETURNED" /\ (\A i \in {1, 33, 65} : NatBE(SubSeq(B(rec.out), i, i + 31)) \prec PALLAS.p) /\ PtEq(Jacobian(B(rec.out)), P)
PGroup(rec) ==
  LET P == Jacobian(B(rec.p)) IN
  CASE rec.op = "PGroupAdd" -> PIs(rec, Add(PALLAS, P, Jacobian(B(rec.q))))
    [] rec.op = "PGroupDbl" -> PIs(rec, Dbl(PALLAS, P))
    [] rec.op = "PGroupNegate" -> PIs(rec, Neg(PALLAS, P))
    [] rec.op = "PGroupScalarMul" -> PIs(rec, Mul(PALLAS, NatBE(B(rec.k)), P))
    [] rec.op = "PGroupIsOnCurve" -> rec.st = "RETURNED" /\ rec.v = IF OnCurve(PALLAS, P) THEN 1 ELSE 0

---------------------------------------------------------------------------
(* Package eddsa: x-only arithmetic, canonical encodings, sums of points.   *)

N32(s) == NatLE(B(s))
AllZero32(v) == v = BytesLE(0, 32)
EddsaSum(rec, R) ==
  /\ rec.st = "RETURNED" /\ rec.kept
  /\ IF EEq(R, EId) THEN rec.inf /\ rec.same ELSE ~rec.inf /\ rec.out = ToHex(EEnc(R))
EddsaPrim(rec) ==
  LET E == C25519 IN
  CASE rec.op = "XKeygen" -> /\ rec.st = "RETURNED" /\ rec.out = ToHex(KPub(E, B(rec.k)))
                             /\ rec.wants = 1 => rec.s = ToHex(BytesLE(KInverse(E, NatLE(KClamp(B(rec.k)))), 32))
    [] rec.op = "XCurve" -> rec.st = "RETURNED" /\ rec.out = ToHex(BytesLE(UMul(E, N32(rec.k), N32(rec.u) %% E.p), 32))
    [] rec.op = "XSign" ->
         LET v == BytesLE(MulM(SubM(N32(rec.x) %% E.n, N32(rec.h) %% E.n, E.n), N32(rec.s) %% E.n, E.n), 32)
         IN rec.st = "RETURNED" /\ rec.out = ToHex(v) /\ rec.ok = ~AllZero32(v)
    [] rec.op = "XVerify" ->
         LET P == MAbs(E, N32(rec.u))
         IN /\ rec.st = "RETURNED"
            /\ rec.out = ToHex(BytesLE(UOf(MAdd(E, MMul(E, N32(rec.v), P[1]), MMul(E, N32(rec.h), MBase(E)))), 32))
    [] rec.op = "XCanonSig" -> rec.st = "RETURNED" /\ rec.ok = (NatLE(SubSeq(B(rec.v), 1, 32)) \prec E.n)
    [] rec.op = "XCanonKey" -> rec.st = "RETURNED" /\ rec.ok = (Len(B(rec.u)) = 32 /\ N32(rec.u) \prec E.p)
    [] rec.op = "EIsPoint" -> rec.st = "RETURNED" /\ rec.ok = (EDec(E, B(rec.p)) # <<>>)
    [] rec.op = "EPointAdd" -> EddsaSum(rec, EAdd(E, EDec(E, B(rec.p))[1], EDec(E, B(IF rec.share = 3 THEN rec.p ELSE rec.q))[1]))
    [] rec.op = "EMulBaseAdd" -> EddsaSum(rec, EAdd(E, EDec(E, B(rec.p))[1], EMulB(E, N32(rec.k) %% E.n)))

---------------------------------------------------------------------------
Step(rec) ==
  CASE rec.op = "Hash" -> rec.st = "RETURNED" /\ OptIs(rec.out, HashOf(rec.alg, rec.len, B(rec.data)))
    [] rec.op = "HashZeros" -> rec.st = "RETURNED" /\ rec.out = ToHex(LongHashOf(rec.alg, rec.n, B(rec.tail)))
    [] rec.op = "LongCipher" -> Sm2LongCipher(rec)
    [] rec.op = "Hmac" -> rec.st = "RETURNED" /\ OptIs(rec.out, HmacOf(rec.alg, B(rec.key), B(rec.data)))
    [] rec.op = "GenPubkey" /\ rec.alg \in {"K1", "R1", "SM2", "PASTA"} -> WGenPubkey(Params(rec.alg), rec)
    [] rec.op = "Point_mulBaseG" /\ rec.alg \in {"K1", "R1", "SM2", "PASTA"} -> WMulBaseG(Params(rec.alg), rec)
    [] rec.op = "PointCompress" /\ rec.alg \in {"K1", "R1", "SM2", "PASTA"} -> WCompress(Params(rec.alg), rec)
    [] rec.op = "PointDecompress" /\ rec.alg \in {"K1", "R1", "SM2", "PASTA"} -> WDecompress(Params(rec.alg), rec)
    [] rec.op = "Point_add" /\ rec.alg \in Weierstrass \cup {"PASTA"} -> WPAdd(Params(rec.alg), rec)
    [] rec.op = "Point_mul" /\ rec.alg \in Weierstrass \cup {"PASTA"} -> WMul(Params(rec.alg), rec)
    [] rec.op = "Point_mulBaseG_add" /\ rec.alg \in Weierstrass \cup {"PASTA"} -> WMulBaseGAdd(Params(rec.alg), rec)
    [] rec.op = "Add" -> NAdd(rec)
    [] rec.op = "Mul" -> NMul(rec)
    [] rec.op = "MulBaseG_Add" -> NMulBaseGAdd(rec)
    [] rec.op = "GetCurveOrder" -> Returned(rec, OrderBytes(rec.alg))
    [] rec.op = "Signature" /\ rec.alg \in {"K1", "R1"} -> EcdsaSign(Params(rec.alg), rec)
    [] rec.op = "Verify" /\ rec.alg \in {"K1", "R1"} -> EcdsaVerify(Params(rec.alg), rec)
    [] rec.op = "Signature" /\ rec.alg = "SM2" -> Sm2Sign(rec)
    [] rec.op = "Verify" /\ rec.alg = "SM2" -> Sm2Verify(rec)
    [] rec.op = "RecoverPubkey" -> Recover(rec)
    [] rec.op = "GenPubkey" /\ rec.alg \in EdFamily -> EdGenPubkey(rec)
    [] rec.op = "Signature" /\ rec.alg \in EdFamily -> EdSignature(rec)
    [] rec.op = "Verify" /\ rec.alg \in EdFamily -> EdVerifies(rec)
    [] rec.op = "X_to_Ed" -> XtoEd(rec)
    [] rec.op = "Ed_to_X" -> EdtoX(rec)
    [] rec.op = "Point_mulBaseG" /\ rec.alg = "ED" -> EdMulBaseG(rec)
    [] rec.op = "Point_mulBaseG_add" /\ rec.alg = "ED" -> EdMulBaseGAdd(rec)
    [] rec.op = "Point_add" /\ rec.alg = "ED" -> EdAdd(rec)
    [] rec.op = "Encryption" /\ rec.alg = "SM2" -> Sm2Encrypt(rec)
    [] rec.op = "Decryption" /\ rec.alg = "SM2" -> Sm2Decrypt(rec)
    [] rec.op = "GenPubkey" /\ rec.alg \in BlsFamily -> BlsGenPubkey(rec)
    [] rec.op = "Signature" /\ rec.alg \in BlsFamily -> BlsSignature(rec)
    [] rec.op = "Verify" /\ rec.alg \in BlsFamily -> BlsVerify(rec)
    [] rec.op = "AggregateSignatures" -> BlsAggregate(rec)
    [] rec.op = "Point_mulBaseG" /\ rec.alg \in BlsFamily -> BlsMulBaseG(rec)
    [] rec.op = "Point_mulBaseG_add" /\ rec.alg \in BlsFamily -> BlsMulBaseGAdd(rec)
    [] rec.op = "Signature" /\ rec.alg = "PASTA" -> PastaSign(rec)
    [] rec.op = "Verify" /\ rec.alg = "PASTA" -> PastaVerify(rec)
    [] rec.op = "PSponge" -> PSponge(rec)
    [] rec.op \in {"PGroupAdd", "PGroupDbl", "PGroupNegate", "PGroupScalarMul", "PGroupIsOnCurve"} -> PGroup(rec)
    [] rec.op \in {"XKeygen", "XCurve", "XSign", "XVerify", "XCanonSig", "XCanonKey", "EIsPoint", "EPointAdd", "EMulBaseAdd"} -> EddsaPrim(rec)
    [] rec.op = "KaInit1" -> KaInit1(rec)
    [] rec.op = "KaInit2" -> KaInit2(rec)
    [] rec.op \in {"KaResp1", "KaRespE1"} -> KaResp1(rec)
    [] rec.op = "KaResp2" -> KaResp2(rec)
===============================================================================
