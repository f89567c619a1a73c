------------------------------- MODULE TraceShape -------------------------------
(***************************************************************************)
(* How calls may answer arguments of any shape: they return; with a status *)
(* that is documented; never with SUCCESS when the selector is not theirs  *)
(* or an argument is not what it has to be; and with a result only when    *)
(* the status is SUCCESS.  (What the result is, is the business of Api.)   *)
(***************************************************************************)
EXTENDS Api, IOUtils, Json

Log == ndJsonDeserialize(IOEnv.TRACE)
Lanes == 32

WithStatus == {"GenPubkey", "Signature", "Verify", "AggregateSignatures", "Encryption", "Decryption", "KaInit2", "KaResp1", "KaRespE1", "KaResp2",
               "Point_add", "Point_mul", "RecoverPubkey", "X_to_Ed", "Ed_to_X"}
Hashing == {"SHA1", "SHA3_256", "SHA256", "SHA512", "MD4", "MD5", "RIPEMD160", "BLAKE2B", "BLAKE2S", "SM3", "DOUBLE_SHA256", "HASH160", "BLAKE256",
            "BLAKE512", "KECCAK256", "KECCAK256_RIPEMD160", "SHA3_256_RIPEMD160", "KECCAK512", "SHA3_512"}
Wei == {"K1", "R1", "SM2", "PASTA"}
Own(f) ==
  CASE f \in {"GenPubkey", "Signature", "Verify"} -> Wei \cup EdFamily \cup BlsFamily
    [] f = "AggregateSignatures" -> BlsFamily
    [] f \in {"Encryption", "Decryption", "KaInit1", "KaInit2", "KaResp1", "KaRespE1", "KaResp2"} -> {"SM2"}
    [] f \in {"Point_mulBaseG", "Point_mulBaseG_add"} -> Wei \cup {"ED"} \cup BlsFamily
    [] f \in {"Point_add", "GetCurveOrder"} -> Wei \cup {"ED"}
    [] f \in {"Point_mul", "PointCompress", "PointDecompress"} -> Wei
    [] f = "RecoverPubkey" -> {"K1", "R1", "SM2"}
    [] f = "Hash" -> Hashing
    [] f = "Hmac" -> {"HMAC_SHA256", "HMAC_SHA512", "HMAC_SM3"}
    [] OTHER -> {}
Supported(rec) == IF rec.op \in {"Add", "Mul", "MulBaseG_Add"} THEN Named(rec.name) # <<>>
                  ELSE IF rec.op \in {"X_to_Ed", "Ed_to_X"} THEN TRUE ELSE rec.alg \in Own(rec.op)

\* What the arguments have to be.
KeyOk(alg, k) ==
  CASE alg \in Wei -> Key(Params(alg), k) # <<>>
    [] alg \in EdFamily -> Len(k) = 32
    [] alg \in BlsFamily -> BlsKey(k) # <<>>
PubOk(alg, p) ==
  CASE alg \in {"K1", "R1", "SM2"} -> FromXY(Params(alg), p) # <<>>
    [] alg = "PASTA" -> FromAny(PALLAS, p) # <<>>
    [] alg \in {"EDN", "ED"} -> Len(p) = 32 /\ EDec(C25519, p) # <<>>
    [] alg = "X25519" -> Len(p) = 32
    [] alg = "KCDSA" -> Len(p) = 32 /\ NatLE(p) \prec C25519.p
    [] alg \in BlsFamily -> Len(p) = 48 /\ G1Dec(BLS381, p) \notin {<<>>, <<Inf>>}
PointOk(alg, p) ==
  CASE alg \in Wei -> FromAny(Params(alg), p) # <<>>
    [] alg = "ED" -> Len(p) = 32 /\ EDec(C25519, p) # <<>>
    [] alg \in BlsFamily -> Len(p) = 48 /\ G1Dec(BLS381, p) # <<>>
MsgOk(rec) == CASE rec.alg \in {"K1", "R1", "SM2"} -> Len(B(rec.msg)) = 32
                [] rec.alg = "PASTA" -> {"mina", "maybe"} \cap DOMAIN rec # {}
                [] OTHER -> TRUE
ScalarOk(alg, k) == Len(k) = 32
Range(C, s) == InRange(C, NatBE(SubSeq(s, 1, 32))) /\ InRange(C, NatBE(SubSeq(s, 33, 64)))
SigOk(alg, s) ==
  CASE alg \in {"K1", "R1", "SM2"} -> Len(s) = 64 /\ Range(Params(alg), s)
    [] alg \in {"PASTA"} \cup EdFamily -> Len(s) = 64
    [] alg \in BlsFamily -> Len(s) = 96 /\ G2Dec(BLS381, s) # <<>>
Proper(rec) ==
  CASE rec.op = "GenPubkey" -> KeyOk(rec.alg, B(rec.key))
    [] rec.op = "Signature" -> /\ KeyOk(rec.alg, B(rec.key)) /\ MsgOk(rec)
                               /\ rec.alg = "SM2" => Sm2Key(SM2C, B(rec.key)) # <<>> /\ IdOk(B(rec.id))
    [] rec.op = "Verify" -> SigOk(rec.alg, B(rec.sig)) /\ MsgOk(rec) /\ PubOk(rec.alg, B(rec.pub)) /\ (rec.alg = "SM2" => IdOk(B(rec.id)))
    [] rec.op = "AggregateSignatures" -> rec.sigs # <<>> /\ \A i \in 1 .. Len(rec.sigs) : SigOk(rec.alg, B(rec.sigs[i]))
    [] rec.op = "Encryption" -> PubOk("SM2", B(rec.pub)) /\ B(rec.plain) # <<>>
    [] rec.op = "Decryption" -> KeyOk("SM2", B(rec.key)) /\ Len(B(rec.cipher)) > 97
    [] rec.op = "KaInit2" -> /\ KaId(rec.idA) /\ KaId(rec.idB) /\ KeyOk("SM2", B(rec.dA)) /\ KeyOk("SM2", B(rec.rA))
                             /\ PubOk("SM2", B(rec.pubA)) /\ PubOk("SM2", B(rec.pubB)) /\ PubOk("SM2", B(rec.RA)) /\ PubOk("SM2", B(rec.RB)) /\ Len(B(rec.SB)) = 32
    [] rec.op \in {"KaResp1", "KaRespE1"} ->
         /\ KaId(rec.idA) /\ KaId(rec.idB) /\ KeyOk("SM2", B(rec.dB)) /\ (rec.op = "KaRespE1" /\ ~IsNil(rec.rnd) => KeyOk("SM2", B(rec.rnd)))
         /\ PubOk("SM2", B(rec.pubA)) /\ PubOk("SM2", B(rec.pubB)) /\ PubOk("SM2", B(rec.RA))
    [] rec.op = "KaResp2" -> Len(B(rec.SA)) = 32 /\ Len(B(rec.SB)) = 32
    [] rec.op = "Point_mulBaseG" -> KeyOk(rec.alg, B(rec.k)) \/ (rec.alg = "ED" /\ Len(B(rec.k)) = 32)
    [] rec.op \in {"Point_mulBaseG_add", "Point_mul"} -> PointOk(rec.alg, B(rec.p)) /\ ScalarOk(rec.alg, B(rec.k))
    [] rec.op = "Point_add" -> PointOk(rec.alg, B(rec.p)) /\ PointOk(rec.alg, B(rec.q))
    [] rec.op = "PointDecompress" -> FromComp(Params(rec.alg), B(rec.p)) # <<>>
    [] rec.op = "PointCompress" -> Len(B(rec.p)) = 64 \/ (Len(B(rec.p)) = 65 /\ B(rec.p)[1] = 4)
    [] rec.op = "RecoverPubkey" -> Len(B(rec.sig)) = 65 /\ Len(B(rec.msg)) = 32 /\ Range(Params(rec.alg), B(rec.sig)) /\ B(rec.sig)[65] \in {0, 1}
    [] rec.op \in {"X_to_Ed", "Ed_to_X"} -> Len(B(rec.p)) = 32
    [] rec.op = "Add" -> FromXY(Named(rec.name)[1], B(rec.p)) # <<>> /\ FromXY(Named(rec.name)[1], B(rec.q)) # <<>>
    [] rec.op \in {"Mul", "MulBaseG_Add"} -> FromXY(Named(rec.name)[1], B(rec.p)) # <<>>
    [] OTHER -> TRUE

Outputs == {"out", "S", "S1", "S2", "RB_", "tmpkey", "tmppub"}
Nothing(rec) ==
  /\ \A o \in Outputs \cap DOMAIN rec : NoOut(rec[o])
  /\ rec.op \in {"KaResp1", "KaRespE1"} => NoOut(rec.RB)
  /\ "inf" \in DOMAIN rec /\ ~(rec.st = "RETURNED" /\ Supported(rec) /\ Proper(rec)) => rec.inf = 0

\* The status of a call with a selector the function does not support.  An
\* empty list of signatures is refused whatever the selector.
Unsupported(rec) ==
  \/ rec.st = "ECC_WRONG_TYPE"
  \/ rec.op \in {"Point_add", "Point_mul"} /\ rec.st = "FAILURE"
  \/ rec.op = "AggregateSignatures" /\ rec.sigs = <<>> /\ rec.st = "FAILURE"

Sound(rec) ==
  IF rec.op \in WithStatus
  THEN /\ rec.st \in Refusals \cup {"SUCCESS"}
       /\ ~Supported(rec) => Unsupported(rec)
       /\ rec.st = "SUCCESS" => Supported(rec) /\ Proper(rec)
       /\ rec.st # "SUCCESS" => Nothing(rec)
  ELSE /\ rec.st = "RETURNED"
       /\ ~(Supported(rec) /\ Proper(rec)) => Nothing(rec)

VARIABLE l
Init == l \in 1 .. Lanes
Next == /\ l <= Len(Log)
        /\ IF Sound(Log[l]) THEN TRUE ELSE PrintT(<<"REJECT", l>>)
        /\ l' = l + Lanes
Spec == Init /\ [][Next]_l
===============================================================================
