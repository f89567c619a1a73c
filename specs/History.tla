-------------------------------- MODULE History --------------------------------
(***************************************************************************)
(* What a call is about, and histories of calls.                           *)
(*                                                                         *)
(* The arguments of a call are made of components: private keys and        *)
(* points, identities, messages, ephemeral keys, lengths, the selector.    *)
(* A variant of a call has some components replaced: by the opposite one   *)
(* (the key n - d, the point with the other y), by one that agrees with it *)
(* in its beginning, its end or its length, by an unrelated one, or by     *)
(* one that is not valid but looks much like it; and                       *)
(* what is derived from components (a signature, a ciphertext) is either   *)
(* derived from the replaced ones, left as it was, or derived from others. *)
(***************************************************************************)
EXTENDS Calls

Keyed == {"neg", "oth", "bad"}
Text == {"oth", "head", "tail", "ext"}
Values(dim) == CASE dim \in {"key", "key2", "eph", "eph2"} -> Keyed
                 [] dim = "msg" -> Text
                 [] dim \in {"id", "id2"} -> Text \cup {"nil"}
                 [] dim = "sig" -> {"base", "oth"}
                 [] dim = "len" -> {"oth"}
Dims(f, s) ==
  CASE f \in {"GenPubkey", "Point_mulBaseG", "PointCompress", "PointDecompress", "X_to_Ed", "Ed_to_X"} -> {"key"}
    [] f = "Signature" -> {"key", "msg"} \cup (IF s = "SM2" THEN {"id"} ELSE {})
    [] f = "Verify" -> {"key", "msg", "sig"} \cup (IF s = "SM2" THEN {"id"} ELSE {})
    [] f = "AggregateSignatures" -> {"key", "key2", "msg"}
    [] f = "Encryption" -> {"key", "msg"}
    [] f \in {"Decryption", "RecoverPubkey"} -> {"key", "msg", "sig"}
    [] f = "KaInit2" -> {"key", "key2", "eph", "eph2", "id", "id2", "len", "sig"}
    [] f = "KaRespE1" -> {"key", "key2", "eph", "eph2", "id", "id2", "len"}
    [] f = "KaResp1" -> {"key", "key2", "eph", "id", "id2", "len"}
    [] f \in {"Point_mulBaseG_add", "Point_add", "Point_mul", "Add", "Mul", "MulBaseG_Add"} -> {"key", "key2"}
    [] f = "Hash" -> {"msg", "len"}
    [] f = "Hmac" -> {"id", "msg"}
    [] OTHER -> {}

\* The property a call belongs to.
Owner(f, s) ==
  CASE f \in {"Add", "Mul", "MulBaseG_Add"} -> "C06"
    [] f \in {"X_to_Ed", "Ed_to_X"} -> "C14"
    [] f = "Hash" -> "C20"
    [] f = "Hmac" -> "C22"
    [] f = "RecoverPubkey" -> "C03"
    [] f \in {"Encryption", "Decryption"} -> "C09"
    [] f \in {"KaInit1", "KaInit2", "KaResp1", "KaRespE1", "KaResp2"} -> "C10"
    [] f = "AggregateSignatures" -> "C17"
    [] s \in {"K1", "R1", "SM2"} /\ f = "GenPubkey" -> "C05"
    [] s \in {"K1", "R1"} /\ f = "Signature" -> "C02"
    [] s \in {"K1", "R1"} /\ f = "Verify" -> "C01"
    [] s = "SM2" /\ f \in {"Signature", "Verify"} -> "C08"
    [] s \in {"K1", "R1", "SM2"} /\ f \in {"PointCompress", "PointDecompress"} -> "C07"
    [] s \in {"K1", "R1", "SM2"} -> "C06"
    [] s = "EDN" -> "C11"
    [] s = "X25519" \/ (s = "ED" /\ f \in {"GenPubkey", "Signature", "Verify"}) -> "C12"
    [] s = "KCDSA" -> "C13"
    [] s = "ED" -> "C15"
    [] s \in {"BLSN", "BLSA"} /\ f \in {"GenPubkey", "Signature", "Verify"} -> "C16"
    [] s \in {"BLSN", "BLSA"} -> "C17"
    [] s = "PASTA" /\ f \in {"GenPubkey", "Signature", "Verify"} -> "C18"
    [] s = "PASTA" -> "C19"

\* A change: at most two components replaced.
Changes(f, s) == {c \in UNION {[D -> Keyed \cup Text \cup {"nil", "base"}] : D \in {E \in SUBSET Dims(f, s) : Cardinality(E) \in 1 .. 2}} :
                    \A d \in DOMAIN c : c[d] \in Values(d)}
Good == UNION {{<<f, s>> : s \in Own(f)} : f \in DOMAIN Functions}
===============================================================================
