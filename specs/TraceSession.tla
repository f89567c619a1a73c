----------------------------- MODULE TraceSession ------------------------------
(***************************************************************************)
(* Validation of what many callers in several processes did: every lane    *)
(* follows one scheme through the whole trace, keeping the state of        *)
(* Session and, where the one-time scalar can be computed from the result  *)
(* and the private key, which values every bit of it has taken and in      *)
(* which eighths of the range it has been.                                 *)
(***************************************************************************)
EXTENDS Api, Session, FiniteSets, IOUtils, Json

Log == ndJsonDeserialize(IOEnv.TRACE)

Schemes == {"K1", "R1", "SM2", "ED", "X25519", "PASTA", "Encryption", "KaInit1", "KaResp1", "EDN", "KCDSA", "BLSN", "BLSA", "Influence"}
Scheme(rec) ==
  CASE rec.op = "Signature" -> rec.alg
    [] rec.op = "KaRespE1" -> "KaResp1"
    [] OTHER -> rec.op
Random == {"K1", "R1", "SM2", "ED", "X25519", "PASTA"}
Exchanges == {"Encryption", "KaInit1", "KaResp1"}
Deterministic == {"EDN", "KCDSA", "BLSN", "BLSA"}

VARIABLES l, scheme, S, ones, zeros, eighths, n
vars == <<l, scheme, S, ones, zeros, eighths, n>>

\* The nonce point, as far as the result shows it.
Half(h, i) == SubSeq(B(h), 32 * i + 1, 32 * i + 32)
Seen(rec) ==
  CASE scheme \in {"K1", "R1", "ED", "X25519", "PASTA"} -> ToHex(Half(rec.out, 0))
    [] scheme = "SM2" -> \* r = e + x
         LET Q == MulG(SM2C, Scalar(rec.key)) e == Sm2E(SM2C, Q, ~IsNil(rec.id), B(rec.id), B(rec.msg))
         IN ToHex(BytesBE(SubM(NatBE(Half(rec.out, 0)), e, SM2C.n), 32))
    [] scheme = "Encryption" -> ToHex(SubSeq(B(rec.out), 2, 65))
    [] scheme = "KaInit1" -> rec.tmpkey
    [] scheme = "KaResp1" -> rec.RB
WellFormed(rec) ==
  CASE scheme \in Random \cup Deterministic -> rec.st = "SUCCESS" /\ Len(B(rec.out)) \in {64, 96}
    [] scheme = "Encryption" -> rec.st = "SUCCESS" /\ Len(B(rec.out)) > 97
    [] scheme = "KaInit1" -> Len(B(rec.tmpkey)) = 32
    [] scheme = "KaResp1" -> rec.st = "SUCCESS" /\ Len(B(rec.RB)) = 64

\* The scalar, its upper bound (exclusive) and the number of bits that can take
\* both values; <<>> where the result does not give it away.
Fold2(k, m) == IF k \preceq (m -- k) THEN k ELSE m -- k
Scalars == Random \cup {"KaInit1"}
Order == CASE scheme = "PASTA" -> PALLAS.n [] scheme \in {"ED", "X25519"} -> C25519.n [] scheme = "KaInit1" -> SM2C.n [] OTHER -> Params(scheme).n
OneTime(rec) ==
  CASE scheme \in {"K1", "R1"} ->
         LET C == Params(scheme) k == NonceOf(C, Scalar(rec.key), B(rec.msg), B(rec.out))
         IN IF SignedBytes(C, Scalar(rec.key), B(rec.msg), B(rec.out), rec.v) THEN <<Fold2(k, C.n), C.n // 2, BitLen(C.n) - 1>> ELSE <<>>
    [] scheme = "SM2" ->
         LET d == Scalar(rec.key)
         IN IF Sm2SignedBytes(SM2C, d, ~IsNil(rec.id), B(rec.id), B(rec.msg), B(rec.out), rec.v)
            THEN <<Sm2NonceOf(SM2C, d, B(rec.out)), SM2C.n, 256>> ELSE <<>>
    [] scheme = "PASTA" ->
         LET d == Scalar(rec.key) m == MinaMsg(rec) P == MulG(PALLAS, d)
         IN IF PastaVerdict(<<P>>, m, B(rec.out))
            THEN <<Fold2(MinaNonce(MINA, d, P, m[1], NatBE(Half(rec.out, 0)), NatBE(Half(rec.out, 1))), PALLAS.n), PALLAS.n // 2, 253>> ELSE <<>>
    [] scheme \in {"ED", "X25519"} ->
         LET k == B(rec.key) A == EMulB(C25519, NatLE(k) %% C25519.n)
             s == IF scheme = "ED" THEN Half(rec.out, 1) ELSE Low255(Half(rec.out, 1))
         IN IF (IF scheme = "ED" THEN RawSigned(C25519, k, B(rec.msg), B(rec.out)) ELSE XSigned(C25519, k, B(rec.msg), B(rec.out)))
            THEN <<RawNonce(C25519, k, EEnc(A), B(rec.msg), Half(rec.out, 0), NatLE(s)), C25519.n, 252>> ELSE <<>>
    [] scheme = "KaInit1" -> <<Scalar(rec.tmpkey), SM2C.n, 256>>
    [] OTHER -> <<>>

\* The nonce of a deterministic signature.
Nonce(rec) ==
  CASE scheme = "EDN" -> ToHex(Half(rec.out, 0))
    [] scheme = "KCDSA" ->
         LET a == NatLE(KClamp(B(rec.key))) IN
         ToHex(BytesLE(AddM(MulM(NatLE(Half(rec.out, 0)), InvM(KInverse(C25519, a), C25519.n), C25519.n),
                            NatLE(Half(rec.out, 1)), C25519.n), 32))
    [] OTHER -> rec.out           \* BLS has no nonce: the signature itself
Question(rec) == <<rec.key, rec.msg>>

\* Flipping bits of crypto/rand's output changes the secret.
Enough(scheme_) == IF scheme_ \in {"K1", "R1", "SM2"} THEN 128 ELSE 240
Influenced(rec) == Cardinality({rec.secrets[i] : i \in 1 .. Len(rec.secrets)}) >= Enough(rec.what)
Independent(rec) == Cardinality({rec.secrets[i] : i \in 1 .. Len(rec.secrets)}) = 1

Allowed(rec) ==
  CASE scheme = "Influence" -> IF rec.what \in Deterministic THEN Independent(rec) ELSE Influenced(rec)
    [] scheme \in Deterministic -> WellFormed(rec) => MayAnswer(S, Question(rec), <<rec.key, Nonce(rec)>>, rec.out)
    [] OTHER -> WellFormed(rec) => MayDraw(S, Seen(rec))
After(rec) ==
  CASE scheme = "Influence" -> S
    [] scheme \in Deterministic -> IF WellFormed(rec) THEN Answered(S, Question(rec), <<rec.key, Nonce(rec)>>, rec.out) ELSE S
    [] OTHER -> IF WellFormed(rec) THEN Drawn(S, Seen(rec)) ELSE S

\* Of the bits, numbered from the least significant, of a 32-byte string.
OrBytes(s, t) == Strict([i \in 1 .. 32 |-> WOr(s[i], t[i])])
Inverted(s) == Strict([i \in 1 .. 32 |-> 255 - s[i]])
Bits32 == [i \in 1 .. 32 |-> 0]
AllBits(s, b) == \A i \in 0 .. b - 1 : Bit(s[32 - (i \div 8)], i % 8) = 1
EnoughDraws == 256
Spread(b) == n < EnoughDraws \/ (AllBits(ones, b) /\ AllBits(zeros, b) /\ eighths = 0 .. 7)
BitsOf == CASE scheme \in {"K1", "R1"} -> 255 [] scheme = "SM2" -> 256 [] scheme = "KaInit1" -> 256 [] scheme = "PASTA" -> 253 [] OTHER -> 252

Eighth(x) == CHOOSE i \in 0 .. 7 : (i ** x[2]) \preceq (8 ** x[1]) /\ (8 ** x[1]) \prec ((i + 1) ** x[2])
\* The next record of this lane's scheme.
NextOf(m) == IF m > Len(Log) THEN m
             ELSE CHOOSE i \in m .. Len(Log) + 1 : (i > Len(Log) \/ Scheme(Log[i]) = scheme)
                                                    /\ \A j \in m .. i - 1 : Scheme(Log[j]) # scheme
Init == /\ l = 0 /\ scheme \in Schemes /\ S = SessionNew
        /\ ones = Bits32 /\ zeros = Bits32 /\ eighths = {} /\ n = 0
Event ==
  /\ l = 0 /\ l' = NextOf(1) /\ UNCHANGED <<scheme, S, ones, zeros, eighths, n>>
  \/ /\ l \in 1 .. Len(Log) /\ l' = NextOf(l + 1) /\ UNCHANGED scheme
     /\ LET rec == Log[l] IN
        /\ IF Allowed(rec) THEN TRUE ELSE PrintT(<<"REJECT", l>>)
        /\ S' = After(rec)
        /\ IF "scalar" \notin DOMAIN rec \/ scheme \notin Scalars \/ ~WellFormed(rec) THEN UNCHANGED <<ones, zeros, eighths, n>>
           ELSE \E x \in {OneTime(rec)} :
                  IF x = <<>> THEN UNCHANGED <<ones, zeros, eighths, n>>
                  ELSE /\ ones' = OrBytes(ones, BytesBE(x[1], 32)) /\ zeros' = OrBytes(zeros, Inverted(BytesBE(x[1], 32)))
                       /\ eighths' = eighths \cup (IF x[1] \prec x[2] THEN {Eighth(x)} ELSE {7})
                       /\ n' = n + 1
\* At the end of the trace.
Judge == /\ l = Len(Log) + 1 /\ l' = l + 1
         /\ IF Spread(BitsOf) THEN PrintT(<<"SPREAD", scheme, n>>)
            ELSE PrintT(<<"REJECT", CHOOSE i \in 1 .. Len(Log) : Scheme(Log[i]) = scheme>>)
         /\ UNCHANGED <<scheme, S, ones, zeros, eighths, n>>
Next == Event \/ Judge
Spec == Init /\ [][Next]_vars
===============================================================================
