--------------------------------- MODULE Calls ---------------------------------
(***************************************************************************)
(* The exported functions: their arguments, the kind of each, the shapes   *)
(* arguments of a kind are given in scenarios, and the selectors.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

S(n) == <<n, "scalar">>
P(n) == <<n, "point">>
M(n) == <<n, "bytes">>
Functions == [
  GenPubkey |-> <<S("key")>>,
  Signature |-> <<S("key"), M("id"), <<"msg", "message">> >>,
  Verify |-> <<P("pub"), M("id"), <<"msg", "message">>, <<"sig", "signature">> >>,
  AggregateSignatures |-> << <<"sigs", "list">> >>,
  Encryption |-> <<P("pub"), M("plain")>>,
  Decryption |-> <<S("key"), <<"cipher", "cipher">> >>,
  KaInit1 |-> <<>>,
  KaInit2 |-> <<M("idA"), M("idB"), S("dA"), P("pubA"), P("pubB"), S("rA"), P("RA"), P("RB"), M("SB"), <<"keylen", "length">> >>,
  KaResp1 |-> <<M("idA"), M("idB"), S("dB"), P("pubB"), P("pubA"), P("RA"), <<"keylen", "length">> >>,
  KaRespE1 |-> <<M("idA"), M("idB"), S("dB"), P("pubB"), P("pubA"), P("RA"), <<"keylen", "length">>, S("rnd")>>,
  KaResp2 |-> <<M("SA"), M("SB")>>,
  Point_mulBaseG |-> <<S("k")>>,
  Point_mulBaseG_add |-> <<P("p"), S("k")>>,
  Point_add |-> <<P("p"), P("q")>>,
  Point_mul |-> <<P("p"), S("k")>>,
  GetCurveOrder |-> <<>>,
  PointCompress |-> <<P("p")>>,
  PointDecompress |-> << <<"p", "compressed">> >>,
  RecoverPubkey |-> << <<"sig", "signature65">>, <<"msg", "message">> >>,
  X_to_Ed |-> <<P("p")>>,
  Ed_to_X |-> <<P("p")>>,
  Add |-> <<P("p"), P("q")>>,
  Mul |-> <<P("p"), S("k")>>,
  MulBaseG_Add |-> <<P("p"), S("k")>>,
  Hash |-> <<M("data"), <<"len", "length">> >>,
  Hmac |-> <<M("key"), M("data")>> ]

\* Functions of the packages below the root that are given memory.
Parts == [
  PartMinaHash |-> <<M("pub"), M("r"), M("pre"), M("suf")>>,
  PartPoseidon |-> <<M("iv"), M("xs")>>,
  PartMinaMessage |-> <<M("json")>>,
  PartAffine |-> <<M("p")>>,
  PartNumber |-> <<M("x")>>,
  PartG1 |-> <<M("p")>>,
  PartG2 |-> <<M("p")>>,
  PartGT |-> <<M("p")>>,
  PartHash |-> <<M("msg"), M("dom")>>,
  PartMap |-> <<M("u")>>,
  PartMultiExp |-> <<M("k1"), M("k2"), M("k3")>>,
  PartKyber |-> <<M("p"), M("k")>>,
  PartKyberHash |-> <<M("msg")>>,
  PartXKeygen |-> <<M("k")>>,
  PartXCurve |-> <<M("k"), M("u")>>,
  PartXSign |-> <<M("h"), M("x"), M("s")>>,
  PartXVerify |-> <<M("v"), M("h"), M("u")>>,
  PartXCanon |-> <<M("v"), M("u")>>,
  PartStream |-> <<M("data"), M("more"), M("salt"), M("person")>>,
  PartSums |-> <<M("data")>> ]
Variants(f) ==
  CASE f \in {"PartG1", "PartG2"} -> {"plain", "uncompressed", "compressed"}
    [] f = "PartHash" -> {"G1", "E1", "G2", "E2"}
    [] f \in {"PartKyber", "PartKyberHash"} -> {"G1", "G2"}
    [] f = "PartStream" -> {"SHA3", "KECCAK", "SM3", "BLAKE256", "BLAKE512", "BLAKE2S", "MAC"}
    [] OTHER -> {""}

Basic == {"nil", "empty", "byte", "short", "long", "double", "zero", "ones", "random"}
Shapes(kind) ==
  CASE kind = "bytes" -> Basic \cup {"huge", "spare"}
    [] kind = "message" -> Basic \cup {"huge", "order", "flip"}
    [] kind = "scalar" -> Basic \cup {"order", "order-1", "order+1", "one", "flip", "huge"}
    [] kind \in {"point", "compressed"} -> Basic \cup {"off", "unreduced", "full", "compressed", "hybrid", "prefix", "other", "negated", "infinity", "torsion", "huge"}
    [] kind = "signature" -> Basic \cup {"order", "flip", "twin", "swapped", "r0", "s0"}
    [] kind = "signature65" -> Basic \cup {"order", "flip", "twin", "swapped", "r0", "s0", "v2", "vff"}
    [] kind = "cipher" -> Basic \cup {"flip", "c1", "c3", "head", "tail", "prefix", "offcurve"}
    [] kind = "list" -> {"none", "nilmember", "emptymember", "shortmember", "longmember", "badlast", "infinity", "one", "many", "offcurve", "subgroup"}
    [] kind = "length" -> {"0", "1", "16", "31", "32", "33", "64", "65", "255", "8192", "65535"}

Ecc == {"K1", "R1", "SM2", "EDN", "ED", "X25519", "KCDSA", "BLSN", "BLSA", "PASTA"}
Names == {"secp256k1", "secp256r1", "sm2_std"}
HashNames == {"SHA1", "SHA3_256", "SHA256", "SHA512", "MD4", "MD5", "RIPEMD160", "BLAKE2B", "BLAKE2S", "SM3", "DOUBLE_SHA256", "HASH160", "BLAKE256",
              "BLAKE512", "KECCAK256", "KECCAK256_RIPEMD160", "SHA3_256_RIPEMD160", "KECCAK512", "SHA3_512"}
Hmacs == {"HMAC_SHA256", "HMAC_SHA512", "HMAC_SM3"}
\* Numbers that are no selector of any function.
Odd == {"#0", "#1", "#0xECC0000A", "#0xECC00100", "#0xECC00200", "#0xECC00302", "#0xECCFFFFF", "#0xECBFFFFF", "#0xA0000013", "#0x9FFFFFFF", "#0x50505053", "#0x5050504F",
        "#0xFFFFFFFF", "#0x80000000", "#2", "#0xEC000002", "#0x0CC00002"}
OddNames == {"", "secp256k", "SECP256K1", "secp256k1 ", "sm2", "p256", "ed25519"}
Selectors(f) ==
  CASE f \in {"X_to_Ed", "Ed_to_X"} -> {"ED"}
    [] f \in {"Add", "Mul", "MulBaseG_Add"} -> Names \cup OddNames
    [] OTHER -> Ecc \cup HashNames \cup Hmacs \cup Odd
Own(f) ==
  CASE f \in {"GenPubkey", "Signature", "Verify"} -> Ecc
    [] f = "AggregateSignatures" -> {"BLSN", "BLSA"}
    [] f \in {"Encryption", "Decryption", "KaInit1", "KaInit2", "KaResp1", "KaRespE1", "KaResp2"} -> {"SM2"}
    [] f = "Point_mulBaseG" -> {"K1", "R1", "SM2", "ED", "PASTA", "BLSN", "BLSA"}
    [] f = "Point_mulBaseG_add" -> {"K1", "R1", "SM2", "ED", "PASTA", "BLSN", "BLSA"}
    [] f = "Point_add" -> {"K1", "R1", "SM2", "ED", "PASTA"}
    [] f = "Point_mul" -> {"K1", "R1", "SM2", "PASTA"}
    [] f = "GetCurveOrder" -> {"K1", "R1", "SM2", "ED", "PASTA"}
    [] f \in {"PointCompress", "PointDecompress"} -> {"K1", "R1", "SM2", "PASTA"}
    [] f = "RecoverPubkey" -> {"K1", "R1", "SM2"}
    [] f \in {"X_to_Ed", "Ed_to_X"} -> {"ED"}
    [] f \in {"Add", "Mul", "MulBaseG_Add"} -> Names
    [] f = "Hash" -> HashNames
    [] f = "Hmac" -> Hmacs
===============================================================================
