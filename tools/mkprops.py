#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the prose stays readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(text.split())), why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=None)))

p("C01", "ECDSA verification accepts exactly the valid signatures",
  """For secp256k1 and secp256r1, Verify returns SUCCESS exactly when the public key is 64 bytes encoding
  (as reduced coordinates) a point on the curve, the hash is 32 bytes, the signature is 64 bytes r||s with
  r and s in [1, n-1], and x(e/s*G + r/s*Q) mod n = r; in every other case it returns FAILURE and never
  crashes. The ID argument plays no part.""",
  ["inputs"], """every public key, hash and 64-byte signature, honest or forged: r or s at 0, n, n-r, n-s, r+n;
  hashes 0, n-1, n, 2^256-1; keys off the curve, with coordinates >= p, with x = 0; u1*G = +-u2*Q""",
  """The suite verifies one freshly made signature per curve; it never shows Verify a signature that must be refused.""",
  ["eccset.go", "ecdsa.go", "secp256k1.go", "secp256r1.go"],
  [("range checks and the verification equation", "ecdsa.go: verify, verifyesdsa, verifyGeneric"),
   ("curve arithmetic", "secp256k1.go: addJacobian/doubleJacobian/ScalarMult")], ["Verify"])

p("C02", "ECDSA signatures are valid, canonical and of fixed width",
  """For secp256k1 and secp256r1, every private key in [1, n-1] and every 32-byte hash, Signature returns
  SUCCESS with 64 bytes r||s (both big-endian, zero-padded to 32 bytes) that satisfy the ECDSA equation for
  the key's public point. s is at most n/2, both r and s are encoded so that the leading byte is below 0x80
  and the first nine bits are not all zero (their DER integers are exactly 32 bytes), and v is 0 or 1: the
  parity of the y coordinate of the curve point with x = r that recovery must use.""",
  ["inputs", "histories"], """every private key (including 1, 2, n-1, n-2, keys with leading zero bytes), every hash
  (including 0, 1, n-1, n, 2^256-1) and every nonce the generator can draw""",
  """The tests sign one message with one key; the retry conditions on r and s and the value of v depend on the
  random nonce, and an error in them shows on a fraction of signatures only.""",
  ["ecdsa.go", "eccset.go"],
  [("nonce loop with canonical-form retries, low-s flip of s and v", "ecdsa.go: signGeneric"),
   ("left padding of r and s", "ecdsa.go: sign")], ["Signature"])

p("C03", "Public key recovery returns the signer's key or FAILURE",
  """For secp256k1, secp256r1 and SM2, RecoverPubkey applied to a signature made by Signature followed by
  its v, and to the hash that was signed, returns SUCCESS and exactly the 64-byte public key of the signer
  (for SM2 the hash is the digest e of ZA and message). For any other input it returns either FAILURE or a
  public key that satisfies the verification equation for that signature and hash and whose nonce point has
  the parity v names; it never crashes.""",
  ["inputs"], """every key, hash, nonce and both values of v; and every 65-byte string and 32-byte hash, including r that is
  no x coordinate, r or s equal to 0 or at least n, v not in {0,1}, a zero hash, and inputs of any other length""",
  """The tests recover from one signature per curve; recovery from crafted r, s or v, and SM2 recovery, are not reached.""",
  ["eccset.go", "secp256k1.go", "secp256r1.go", "sm2_std.go"],
  [("recovery", "secp256k1_recover_public, secp256r1_recover_public, sm2_std_recover_public")], ["RecoverPubkey"])

p("C04", "Every signature, ciphertext and key exchange draws a fresh secret",
  """No two calls of Signature (ECDSA, SM2, Pasta, raw Ed25519 and X25519 types), Encryption,
  KeyAgreement_initiator_step1 or KeyAgreement_responder_step1 use the same one-time scalar, even for
  identical arguments and across goroutines; the scalar is spread over the whole group order rather than
  confined to a subrange, and depends on at least 128 bits read from crypto/rand. The deterministic schemes (Ed25519 NORMAL, CURVE25519_SHA256, BLS) are functions of
  key and message: equal arguments give equal signatures, and for Ed25519 NORMAL and CURVE25519_SHA256
  different messages under one key never share a nonce.""",
  ["histories", "inputs", "schedules"], """every sequence of calls within a process, with repeated and related arguments""",
  """One signature per test cannot repeat a nonce; a reused or short nonce reveals the private key although every
  single signature verifies.""",
  ["ecdsa.go", "sm2_std.go", "pasta/crypto.go", "eddsa/ed25519.go", "eddsa/x25519.go", "eddsa/curve25519.go", "eddsa/curve25519_sha256.go"],
  [("nonce from crypto/rand, key and hash", "ecdsa.go: signecdsa, randFieldElement"),
   ("SM2 nonce and ephemeral keys", "sm2_std.go"), ("Pasta nonce", "pasta/crypto.go: Sign")],
  ["Signature", "Encryption", "KeyAgreement_*"],
  [dict(name="used one-time points", meaning="the nonce points of all earlier calls", where="crypto/rand, per call")])

p("C05", "Key generation is exact and refuses illegal private keys",
  """For secp256k1, secp256r1, SM2, Pasta and BLS, GenPubkey of a 32-byte key d in [1, n-1] (big-endian) returns SUCCESS and the encoding of exactly
  d*G, and any other key - absent, wrong length, zero, at least the group order - is refused with a status
  other than SUCCESS and no key. Signature and Point_mulBaseG accept the same set of keys
  and use the same public point.""",
  ["inputs"], """every private key, in particular 1, 2, n-1, n, n+1, 2^256-1, sparse and dense bit patterns, leading zero bytes,
  and scalars whose partial sums meet equal or opposite points""",
  """A fixed example key per curve exercises one path through the window and ladder code and no boundary.""",
  ["ecdsa.go", "eccset.go", "sm2_std.go", "secp256k1.go", "bls12_381/bls12-381.go", "pasta/crypto.go", "pasta/mina.go"],
  [("range checks", "ecdsa.go: genPublicKey; pasta.GenPublicKey; bls12_381.GenPublicKey"),
   ("fixed-base multiplication tables", "sm2_std.go: precomputed table")], ["GenPubkey", "Point_mulBaseG"])

p("C06", "Point operations of the Weierstrass curves form the curve group",
  """For secp256k1, secp256r1 and SM2, Point_add, Point_mul, Point_mulBaseG and Point_mulBaseG_add return exactly
  P+Q, k*P, k*G and k*G+P for all points on the curve (given as 64, 65 or 33 bytes) and 32-byte scalars,
  including doubling, inverse points, x = 0, scalars that are 0 or at least n (which Point_mulBaseG, like
  GenPubkey, refuses with nil) and results with leading zero bytes. A result at infinity is reported as such (FAILURE, or the infinity flag) and only then; an argument
  that does not encode a point on the curve is refused. GetCurveOrder is the order n.""",
  ["inputs", "histories"], """all pairs of points and all scalars, and every chain of operations; exceptional cases of the addition
  formulas (P = Q, P = -Q, x(P) = 0) and extreme limb values in the field arithmetic""",
  """The tests compute a few products of random points and never meet an exceptional case or a rare carry.""",
  ["eccset.go", "ecdsa.go", "secp256k1.go", "secp256r1.go", "sm2_std.go"],
  [("addition and doubling formulas", "secp256k1.go, sm2_std.go"), ("encoding of results", "ecdsa.go: Add, Mul, MulBaseG_Add")],
  ["Point_add", "Point_mul", "Point_mulBaseG", "Point_mulBaseG_add", "GetCurveOrder"])

p("C07", "Compression and decompression are inverse and reject non-points",
  """For secp256k1, secp256r1, SM2 and Pasta, PointDecompress(PointCompress(P)) = 0x04||P for every point P on the
  curve, PointCompress keeps x and encodes the parity of y, and PointCompress(PointDecompress(c)) = c for every c
  that decompresses. PointDecompress returns a point exactly when its input is 33 bytes, starts with 2 or 3, and
  carries a reduced x for which the curve equation has a solution with that parity (otherwise nil), and the
  point it returns always satisfies the curve equation.""",
  ["inputs"], """every x in [0, 2^256) with either prefix, and every curve point""",
  """Tests decompress the compressed form of one valid point; half of all x values have no point, and they are never tried.""",
  ["eccset.go", "secp256k1.go", "secp256r1.go", "sm2_std.go", "pasta/mina.go", "pasta/crypto.go"],
  [("square root and parity choice", "*_decompress; pasta.PointDecompress")], ["PointCompress", "PointDecompress"])

p("C08", "SM2 signatures follow GB/T 32918.2 and are bound to the identity",
  """For SM2, Signature with a key in [1, n-2], an identity and a 32-byte message returns a signature (r, s) with
  x((s)*G + (r+s)*P) + e = r mod n, r and s in [1, n-1], r+s != n, where e = SM3(ZA||message) and ZA binds the identity (up to 8191 bytes, possibly empty), its 16-bit length in
  bits, the curve parameters and the public key; with a nil identity the message is e itself. Verify accepts exactly such signatures
  for an on-curve key and returns FAILURE otherwise. A signature is not accepted for another identity, message
  or key, and a key n-1 or an unusable identity yields a non-SUCCESS status.""",
  ["inputs"], """every key, identity (empty, 1..8191 bytes, longer), message and candidate signature, including r+s = n, r or s out of
  range, keys off the curve, leading-zero coordinates""",
  """The tests verify one signature they have just produced with the same code, so a consistent deviation from the
  standard on both sides, and all refusals, are invisible to them.""",
  ["sm2_std.go", "ecdsa.go", "eccset.go", "sm3/sm3.go"],
  [("ZA and e", "sm2_std.go"), ("signing loop", "sm2_std.go: sm2_std_sign"), ("verification", "sm2_std.go: sm2_std_verify")],
  ["Signature", "Verify"])

p("C09", "SM2 decryption inverts encryption and rejects altered ciphertexts",
  """For every SM2 key pair and every non-empty plaintext, Decryption(d, Encryption(P, m)) returns SUCCESS and m,
  where the ciphertext is 0x04||C1 and the C3, C2 parts of GB/T 32918.4 in this library's order, with the SM3-based
  key stream and check value. Decryption of anything else - truncated, altered in any bit, C1 not on the curve,
  wrong key - never returns SUCCESS, and Encryption refuses a public key that is not a point on the curve.""",
  ["inputs"], """every plaintext length (1 byte to many KDF blocks) and content, every nonce (including those whose key stream is
  all zero for short plaintexts), and every alteration of a ciphertext""",
  """Tests decrypt one untouched ciphertext; integrity is only visible on altered ones, and the all-zero key stream
  case needs particular nonces.""",
  ["sm2_std.go", "ecdsa.go", "eccset.go"],
  [("KDF and check value", "sm2_std.go: sm2_std_encrypt, sm2_std_decrypt")], ["Encryption", "Decryption"])

p("C10", "SM2 key agreement gives equal keys, confirms them, and detects tampering",
  """When initiator and responder run the SM2 key agreement with matching identities, keys and ephemeral points,
  both obtain the same key, of exactly the requested length, equal to the GB/T 32918.3 derivation, and both
  confirmation steps return SUCCESS (in the plain and in the ElGamal variant with a caller-supplied ephemeral
  key). If any value either side uses differs (identity, static or ephemeral key, confirmation hash) the
  confirmation fails with a status other than SUCCESS and the initiator is given no key; points not on the
  curve and malformed arguments are refused.""",
  ["histories", "inputs", "fault_sequences"], """every interleaving of honest steps and message substitutions by an attacker, every key length from 1 to
  65535 bytes, identity lengths, and all key material""",
  """One honest run of fixed length is tested; no message is ever substituted and long keys are not requested.""",
  ["sm2_std.go", "eccset.go"],
  [("shared point and KDF", "sm2_std.go: sm2_std_ka_*"), ("confirmation hashes S1/SA, S2/SB", "sm2_std.go")],
  ["KeyAgreement_initiator_step1", "KeyAgreement_initiator_step2", "KeyAgreement_responder_step1",
   "KeyAgreement_responder_ElGamal_step1", "KeyAgreement_responder_step2"],
  [dict(name="protocol state", meaning="who knows which ephemeral points and confirmation hashes", where="returned to the caller between steps")])

p("C11", "Ed25519 keys, signatures and verification follow RFC 8032",
  """For the NORMAL Ed25519 type, GenPubkey and Signature return for every 32-byte seed and every message
  (including the empty one) exactly the RFC 8032 public key and signature bytes. Verify returns SUCCESS exactly
  when the key decodes to a curve point, S < L and encode(S*B - H(R,A,M)*A) = R; in particular S+L, a changed bit
  anywhere, wrong lengths and non-points are refused.""",
  ["inputs"], """all seeds, messages of every length, and all 64-byte candidate signatures, including malleated S and
  low-order or non-canonical keys""",
  """A single sign-and-verify cannot distinguish the standard from a self-consistent variant, nor show malleability.""",
  ["eddsa/curve25519.go", "eddsa/edwards25519/edwards25519.go", "eccset.go"],
  [("clamping, hashing, scalar arithmetic", "eddsa/curve25519.go; edwards25519 ScReduce, ScMulAdd, Ge*")],
  ["GenPubkey", "Signature", "Verify"])

p("C12", "Raw-scalar Ed25519 and X25519 signatures verify under the matching key",
  """For the raw-scalar ED25519 type GenPubkey(k) encodes k*B and for the X25519 type the Montgomery u coordinate
  of k*B, for every 32-byte little-endian k. Every signature Signature returns for such a key and any message
  (empty included) satisfies S*B = R + H(R,A,M)*A with S < L, and Verify accepts exactly the signatures that
  satisfy this for the given key (for X25519: with A the point of the given u and the sign bit carried in the
  signature's top bit), refusing altered signatures, messages, keys and lengths. (X25519 keys that are multiples of L have no u coordinate and are outside the claim about Verify.)""",
  ["inputs"], """all 32-byte scalars, clamped or not, below or above L and 2^255, all messages and candidate signatures""",
  """Tests use one (clamped) key; unclamped or large scalars, empty messages and refusals are not tried.""",
  ["eddsa/ed25519.go", "eddsa/x25519.go", "eddsa/edwards25519/edwards25519.go", "eccset.go"],
  [("raw scalar signing", "eddsa/ed25519.go"), ("XEdDSA with sign bit", "eddsa/x25519.go")],
  ["GenPubkey", "Signature", "Verify"])

p("C13", "CURVE25519_SHA256 signatures follow EC-KCDSA and are unforgeable by alteration",
  """For the CURVE25519_SHA256 type, GenPubkey is the X25519 function of the clamped key applied to the base point,
  and Signature(k, m) is the deterministic EC-KCDSA signature v||h used by that scheme with SHA-256, for every
  32-byte key and every message. Verify accepts it and refuses every signature whose v is not reduced, whose key
  is not reduced, or for which SHA256(SHA256(m) || u(v*P + h*G)) differs from h.""",
  ["inputs"], """all keys and messages (every length, including empty), all candidate signatures""",
  """The scheme's own signer and verifier share their arithmetic (sign choice, modular inverse, ladder); tests run one key.""",
  ["eddsa/curve25519_sha256.go", "eccset.go"],
  [("Montgomery ladder, inverse mod L, double-ladder verification", "eddsa/curve25519_sha256.go")],
  ["GenPubkey", "Signature", "Verify"])

p("C14", "Curve25519 point conversions are the birational map",
  """CURVE25519_convert_X_to_Ed maps every canonical u to the encoding (sign bit 0) of y = (u-1)/(u+1), with 1/0 = 0, and
  CURVE25519_convert_Ed_to_X maps every encoded y, whatever its sign bit, to u = (1+y)/(1-y), so the two are inverse
  up to the sign bit and commute with key generation: converting the raw Ed25519 key of k gives the X25519 key of k.
  Non-canonical u and wrong lengths are refused with an error.""",
  ["inputs"], """all 2^256 inputs, including u = 0, 1, -1, p-1, p..2^255-1, y = 1, -1 and set top bits""",
  """The test converts one point.""",
  ["eddsa/convert.go", "eccset.go"],
  [("montToEdy / montFromEdy", "eddsa/convert.go")], ["CURVE25519_convert_X_to_Ed", "CURVE25519_convert_Ed_to_X"])

p("C15", "Ed25519 point operations form the curve group",
  """For the ED25519 type Point_mulBaseG, Point_mulBaseG_add and Point_add return the canonical encoding of k*B,
  k*B+P and P+Q for all encodings of curve points (including those with a torsion component) and all 32-byte
  little-endian scalars. The identity result is reported as infinity (flag or FAILURE) by the adding operations and
  only then, and encodings that are not points of the curve are refused.""",
  ["inputs", "histories"], """all pairs of points, all scalars, chains of operations, torsion points, scalars >= L and >= 2^255""",
  """Tests add points from one computation; identity, torsion, invalid encodings and large scalars are not tried.""",
  ["eddsa/ed25519.go", "eddsa/edwards25519/edwards25519.go", "eccset.go"],
  [("double-scalar multiplication in sliding windows", "edwards25519: GeDoubleScalarMultVartime, GePointAddVarTime"),
   ("fixed-base multiplication", "edwards25519: GeScalarMultBase")], ["Point_mulBaseG", "Point_mulBaseG_add", "Point_add", "GetCurveOrder"])

p("C16", "BLS12-381 signatures are sk*H(m) under the scheme's own domain",
  """For both BLS types, Signature(sk, m) returns the compressed G2 point sk*H(m') for every sk in [1, r-1] and every
  message, where H is the library's deterministic map to the order-r subgroup and m' is the scheme prefix followed
  by the message (preceded by the public key in the AUG type). Verify returns SUCCESS for exactly the public key
  sk*G1 and that signature: another message, key, type, an altered or non-subgroup or malformed encoding, or the
  identity as public key yields FAILURE, never a crash.""",
  ["inputs"], """all secret keys, messages, public keys and 96-byte strings""",
  """Tests verify what was just signed; a constant hash, an ignored prefix or an unchecked subgroup would pass.""",
  ["bls12_381/bls12-381.go", "bls12_381/g1.go", "bls12_381/g2.go", "bls12_381/bls", "eccset.go"],
  [("hash to curve, pairing check, subgroup checks", "bls12_381"), ("scheme prefixes", "eccset.go: Signature, Verify")],
  ["GenPubkey", "Signature", "Verify"])

p("C17", "BLS aggregation and point operations are the group sums",
  """AggregateSignatures returns, for any non-empty list of valid signatures in any order, the compressed encoding of
  exactly the sum of all of them (each counted once, duplicates included), and refuses an empty list, any malformed
  or non-subgroup member and non-BLS types. Point_mulBaseG and Point_mulBaseG_add of the BLS types return k*G1 (k in
  [1, r-1]) and k*G1+P (any 32-byte k) for valid compressed P, the identity's encoding included, report infinity exactly
  when the sum is infinity, and refuse malformed P.""",
  ["inputs"], """all lists of signatures (length, order, repetition, a cancelling pair, a bad member at any position), all points and scalars""",
  """The aggregate test sums one fixed list; dropped members, order, duplicates and bad members are not examined.""",
  ["bls12_381/bls12-381.go", "eccset.go"], [("AggregateSignatures, ScalarMultBaseAdd", "bls12_381/bls12-381.go")],
  ["AggregateSignatures", "Point_mulBaseG", "Point_mulBaseG_add"])

p("C18", "Pasta signatures follow the Mina Schnorr scheme exactly",
  """For the Pasta type, every signature that Signature returns for a private key in [1, n-1] and a packed message
  input satisfies s*G = R + e*P with r = x(R), y(R) even and e the Poseidon hash of the message, the public key
  and r, both values being canonical 32-byte encodings; Verify returns SUCCESS exactly for an on-curve key (64 or 65 bytes, or 33 bytes compressed) and such
  a signature. Altered signatures, messages, keys, values out of range (among them message
  field elements that are not reduced) and malformed inputs give FAILURE and no crash.""",
  ["inputs"], """all keys, messages of every field-element and bit-string shape, nonces (both parities of y(R)), and candidate signatures""",
  """The suite signs one transaction with the library's own Poseidon and field code and checks it with the same code.""",
  ["pasta/crypto.go", "pasta/mina.go", "pasta/poseidon.go", "pasta/poseidon_3w.go", "pasta/pasta_fp.go", "pasta/pasta_fq.go", "eccset.go"],
  [("Schnorr signing, nonce, even-y rule", "pasta/crypto.go"), ("Poseidon permutation and message packing", "pasta/poseidon*.go, pasta/mina.go")],
  ["Signature", "Verify", "GenPubkey"])

p("C19", "Pasta point operations form the curve group",
  """For the Pasta type, Point_add, Point_mul, Point_mulBaseG, Point_mulBaseG_add, PointCompress and PointDecompress
  agree with the Pallas curve y^2 = x^3 + 5 for all points and scalars in the library's encodings, including P+P,
  P+(-P) and scalars 0, 1, n-1, n. A result at infinity or an argument that is not a canonical point of the curve
  yields a status other than SUCCESS (or a nil point), never the encoding of some other point.""",
  ["inputs", "histories"], """all pairs of points, all scalars, chains of operations that reach equal points in different projective representations""",
  """Tests exercise one sum and one product; equal points with different projective coordinates never meet.""",
  ["pasta/pasta.go", "pasta/crypto.go", "pasta/mina.go", "pasta/pasta_fp.go", "pasta/pasta_fq.go", "eccset.go"],
  [("GroupAdd, GroupDbl, GroupScale", "pasta/pasta.go")], ["Point_add", "Point_mul", "Point_mulBaseG", "Point_mulBaseG_add"])

p("C20", "Hash returns the standard digest of the whole input",
  """Hash(data, len, alg) equals the published definition of the algorithm for every supported alg and every data of
  any length: SHA-1, SHA-256, SHA-512, double SHA-256, SHA3-256/512, Keccak-256/512, MD4, MD5, RIPEMD-160, HASH160,
  Keccak-256/SHA3-256 then RIPEMD-160, SM3, BLAKE-256, BLAKE-512, BLAKE2b and BLAKE2s with the requested digest
  length (0 meaning the full length for BLAKE2s). Digest lengths the algorithm does not have, and unknown algorithms,
  give nil.""",
  ["inputs"], """all inputs: every length modulo the block size around the padding boundaries, lengths over many blocks, all contents""",
  """Tests hash one short string per algorithm, mostly without comparing the result with anything.""",
  ["hashset.go", "sha3", "sm3/sm3.go", "blake256", "blake512", "blake2s"],
  [("padding and compression functions", "sha3, sm3, blake256, blake512, blake2s")], ["Hash"])

p("C21", "Streaming hash objects depend only on the bytes written",
  """For every hash object of the sha3, sm3, blake256, blake512 and blake2s packages, Sum(b) returns b followed by the
  digest of the concatenation of all bytes written since creation or the last Reset, however they were cut into
  Write calls, and leaves the object unchanged, so further Write and Sum calls continue the same message; Reset
  returns to the initial (keyed, salted) state. Size and BlockSize are the algorithm's, and SHAKE reading in pieces
  gives the same stream as reading at once, for clones as well. (Writing to a SHAKE object that has been read from
  is a documented panic.)""",
  ["histories", "inputs"], """every sequence of Write, Sum, Reset, Read calls with chunk sizes straddling block boundaries, keys, salts and digest sizes""",
  """The suite always writes the whole message once and sums once.""",
  ["sha3/sha3.go", "sha3/shake.go", "sm3/sm3.go", "blake256/blake256.go", "blake512/blake512.go", "blake2s/blake2s.go"],
  [("buffering of partial blocks", "Write methods"), ("padding on a copy", "Sum methods")], ["hash.Hash objects"],
  [dict(name="buffered message", meaning="bytes written since Reset", where="unexported digest structs")])

p("C22", "Hmac is the RFC 2104 construction for every key and message",
  """Hmac(key, data, alg) equals HMAC (RFC 2104) over SHA-256, SHA-512 or SM3 for every key - empty, shorter than,
  equal to and longer than the block - and every message; an unknown alg gives nil.""",
  ["inputs"], """all keys and messages, key lengths around the block size of each hash""",
  """One short key and message per algorithm are tried.""",
  ["hashset.go", "sm3/sm3.go"], [("hmac over the local SM3", "hashset.go: Hmac; sm3.Sum/Reset/BlockSize")], ["Hmac"])

p("C23", "No call modifies its arguments or its earlier results",
  """No exported function changes any byte of the slices it is given - within their length or in the spare capacity
  behind it - and no returned slice shares memory with an argument, with another result or with library state, so
  that changing a result never affects later calls. Calling a function again with equal arguments behaves the same,
  whatever was called in between.""",
  ["inputs", "histories"], """every function of the API, every argument, with and without spare capacity, in every sequence of calls""",
  """Tests never look at their arguments after the call or at the memory behind them.""",
  ["eccset.go", "eddsa/curve25519_sha256.go", "ecdsa.go", "sm2_std.go", "hashset.go"],
  [("copying of inputs", "eccset.go: message/point prefixes; eddsa Keygen clamp")], ["all exported functions"])

p("C24", "Concurrent callers get the results of some sequential order",
  """All exported functions may be called concurrently from any number of goroutines: every call returns a result
  it could have returned alone, for every interleaving, and no data race occurs.""",
  ["schedules"], """all interleavings of calls of the same and of different functions, including the first calls in a process""",
  """The suite is sequential; shared scratch state in tables or curve parameters only shows under concurrency.""",
  ["init.go", "sm2_std.go", "secp256k1.go", "pasta", "sha3", "eddsa"],
  [("once-only initialisation, read-only tables", "init.go, sm2_std.go")], ["all exported functions"],
  [dict(name="curve parameters and tables", meaning="written once before any call", where="package variables")])

p("C25", "Every call returns a documented status and never panics",
  """Whatever byte slices (nil, empty, any length, any content) and algorithm numbers are passed to the exported
  functions of the root package, they return. A selector that the function does not support gives
  ECC_WRONG_TYPE (FAILURE from Point_add and Point_mul; nil where there is no status), an illegal private key is never SUCCESS, a malformed argument
  is never SUCCESS, and when the status is not SUCCESS no output is returned.""",
  ["inputs"], """the cross product of argument shapes (absent, empty, short, exact, long; zero, order, random, invalid point) over all
  functions and all algorithm numbers""",
  """Tests only pass well-formed arguments.""",
  ["eccset.go", "hashset.go", "ecdsa.go", "sm2_std.go", "eddsa", "bls12_381", "pasta"],
  [("length and type checks, status mapping", "eccset.go")], ["all exported functions of the root package"])

p("C26", "The exported field and scalar arithmetic is exact for all inputs",
  """The exported field and scalar operations of the edwards25519 and pasta packages (addition, subtraction,
  multiplication, squaring, negation, inversion, reduction, encoding and decoding) compute the corresponding
  operation modulo the field prime or group order for every input in their stated range (edwards25519 field
  elements with limbs up to 1.65*2^26 and 1.65*2^25 for multiplication and 1.1*2^25 and 1.1*2^24 otherwise, Pasta values
  below the modulus), including values whose limbs are at their limits, and their canonical encodings are the fully reduced ones.""",
  ["inputs"], """all operands; carries and final subtractions that occur with probability below 2^-32 on random ones""",
  """Rare carries are reached by no random or example input; every scheme above rests on them.""",
  ["eddsa/edwards25519/edwards25519.go", "pasta/pasta_fp.go", "pasta/pasta_fq.go"],
  [("limb arithmetic and carry chains", "FeMul, FeSquare, FeToBytes, ScReduce, ScMulAdd; Fiat* functions")],
  ["edwards25519.Fe*, Sc*", "pasta.Fiat*"])

p("C27", "A call's result does not depend on the calls made before it",
  """The exported functions of the root package have no memory: what a call may return is determined by its own
  arguments alone, whatever calls were made before it in the process - of the same or of other functions, with
  the same, opposite, similar, unrelated or invalid arguments, successful or refused, in new memory or in buffers that the
  caller has used before for other contents - and however many there were.""",
  ["histories", "inputs"], """histories of calls: every function and selector after every other one; a call before and after its own
  variants, in which one or two of key, point, identity, message, length or signature are replaced by the opposite one, one that
  agrees with it in its beginning or its end, an invalid one or an unrelated one""",
  """Each test makes a few calls with one set of arguments; a remembered value that is taken for another one's
  shows only in a history in which two calls agree in what the memory is keyed by and differ in what it is not.""",
  ["eccset.go", "hashset.go", "ecdsa.go", "sm2_std.go", "secp256k1.go", "secp256r1.go", "eddsa", "bls12_381", "pasta"],
  [("functions of their arguments; package variables are constant after initialisation", "init.go, package variables")],
  ["all exported functions of the root package"],
  [dict(name="package variables", meaning="curve parameters, tables, scratch values", where="package level")])

p("C28", "The exported groups compute the group law for every point in any representation",
  """The points that packages bls12_381/bls (G1, G2), bls12_381 (kyber points), pasta and eddsa/edwards25519 export form the groups
  they are named after: addition, subtraction, doubling, negation, scalar multiplication (with the generator, with two
  points, with many points), cofactor clearing, hashing, encoding and mapping to the curve (RFC 9380), comparison, subgroup membership and the
  compressed and uncompressed encodings give what the group law and those standards give - for the neutral element, equal, opposite and
  small-order points and points outside the subgroup alike, whichever of the many coordinates of the same point a value has, whichever of the
  operands are the same object, and whatever was computed before with the same group object. An operation changes nothing but its result:
  neither another point nor a scalar or byte string it was given; an encoding that is refused leaves the point as it was.""",
  ["inputs", "histories"], """programs of calls over three points: every operation with every sharing of its operands, every pair of classes of points, each decoded
  or computed; classes of scalars; forms of encodings; lengths of multi-exponentiations""",
  """Exceptional cases (equal, opposite, neutral operands) and shared operands have many combinations, and a test with random points meets none of
  them; formulas in Jacobian coordinates have a branch for each.""",
  ["bls12_381/bls", "bls12_381", "pasta/crypto.go", "eddsa/edwards25519/edwards25519.go"],
  [("Jacobian addition and doubling in place", "bls/g1.go, bls/g2.go: Add, Double; pasta/crypto.go: GroupAdd, GroupDbl"), ("hash to curve", "bls/swu.go, bls/isogeny.go, bls/hash_to_field.go"),
   ("windowed multi-exponentiation", "bls/g1.go, bls/g2.go: MultiExp"), ("kyber points", "bls12_381/g1.go, bls12_381/g2.go"), ("signed sliding windows", "eddsa/edwards25519: slide, GeDoubleScalarMultVartime")],
  ["bls.G1, bls.G2 and their methods", "bls12_381.OwcryptG1, OwcryptG2", "pasta.Group*, pasta.Affine*", "edwards25519 group elements"],
  [dict(name="registers", meaning="three points, each a value in some representation", where="PointG1, PointG2, Group, ExtendedGroupElement"),
   dict(name="group object", meaning="temporaries shared by the calls of one object", where="G1.t, G2.t")])

p("C29", "The pairing is the bilinear map of BLS12-381, and GT the group it maps to",
  """For points P and Q of the subgroups G1 and G2 the value that bls.Engine and the kyber pairing suite give is e(P, Q), the optimal ate pairing to
  the power 3 (p^12 - 1) / r: the neutral element exactly if one point is neutral, the product of the pairings of all pairs that were added (inverted,
  where added so) since the engine was last empty, in whatever order, however often and in whichever representation, with Check saying whether that
  product is one, Result emptying the engine and Check not. ValidatePairing(a, b, c, d) is true exactly if e(a, b) = e(c, d). Points that are handed
  over keep their value. The elements of GT multiply, invert, square, exponentiate, compare and encode as the field with p^12 elements has it, with operands shared or
  not, and a decoder accepts exactly the 576-byte encodings, with reduced coordinates, of the elements of order r; what it refuses leaves its receiver as it was.""",
  ["inputs", "histories"], """programs over three points of each group, an engine and three elements of the target group: sequences of additions to the engine, classes of points
  in every pair, each decoded or computed; scalars; forms of encodings""",
  """A test compares a few products of pairings with each other; that does not fix the map, and a fault in the tower of fields or in the handling of neutral points, repeated
  pairs or leftovers of an earlier computation can cancel on both sides.""",
  ["bls12_381/bls/pairing.go", "bls12_381/bls/gt.go", "bls12_381/bls/fp12.go", "bls12_381/bls/fp6.go", "bls12_381/group.go", "bls12_381/gt.go"],
  [("Miller loop over all pairs, final exponentiation", "bls/pairing.go"), ("tower of fields", "bls/fp2.go, fp6.go, fp12.go"), ("membership of decoded elements", "bls/gt.go: FromBytes, IsValid"), ("suite", "bls12_381/group.go: Pair, ValidatePairing")],
  ["bls.NewEngine", "bls.Engine.AddPair, AddPairInv, Check, Result, Reset", "bls.GT", "bls12_381.NewBLS12381Suite", "bls12_381.OwcryptGT"],
  [dict(name="pairs", meaning="pairs of points that were added", where="Engine.pairs"), dict(name="temporaries", meaning="scratch values of the engine", where="Engine.t2, Engine.t12")])

p("C30", "Package eddsa's Curve25519 primitives compute the group functions everywhere",
  """Curve(Z, k, P) is the u coordinate of k times a point with the given u (read as a number of 256 bits modulo p), on the curve or its twist, 0 for the neutral
  element, for every 32-byte k and u; hence exchanges of keys agree in whatever order the parties multiply. Keygen gives the multiple of the base point by the clamped
  key and, if asked, the scalar s with s |P| = G. Sign gives (x - h) s modulo the order and tells whether it is zero. Verify gives the u coordinate of v |P| + h G for every v, h and
  every P of the curve, of whatever order. IsCanonicalSignature, IsCanonicalPublicKey and IsPoint accept exactly the reduced scalars, reduced coordinates and encodings
  of points. Point_add and ScalarMultBaseAdd give the sum, or say that it is neutral and leave the result alone, with any of their arguments being the same object.""",
  ["inputs"], "scalars and coordinates: random, extreme limbs, unreduced, of small order, base point and its translates; exchanges of three parties in every order; shared operands",
  """The exceptional inputs of ladders (differences that are neutral or of order two) form a handful of 2^255 values: none occurs in a test, and at each of them a verifier may accept forgeries.""",
  ["eddsa/curve25519_sha256.go", "eddsa/ed25519.go"],
  [("Montgomery ladder and double ladder", "curve25519_sha256.go: core, Verify"), ("inverse of the key", "curve25519_sha256.go: core, egcd32"), ("arithmetic modulo the order on bytes", "curve25519_sha256.go: mulaSmall, mula32, divmod"),
   ("sums of points", "ed25519.go: Point_add, ScalarMultBaseAdd")],
  ["eddsa.Curve, Keygen, Sign, Verify", "eddsa.IsCanonicalSignature, IsCanonicalPublicKey, IsPoint", "eddsa.Point_add, ScalarMultBaseAdd"])

p("C31", "Package pasta's numbers and Poseidon contexts compute what they name",
  """FieldAdd, Sub, Mul, Sq, Negate, Inv, Pow, Copy and their Scalar counterparts give the residue they name, for every operand and every exponent, and change only their
  destination; FieldEq and ScalarEq say whether two residues are equal, however each was reached; FieldIsOdd is the parity of the residue. FieldFromHex and ScalarFromHex accept
  exactly the texts of 32 bytes, little endian, of at most 254 bits; ScalarFromWords drops the two highest bits. A Poseidon context's digest depends on its initial state and the
  elements it absorbed since, not on how they were cut or on other contexts: a copy is independent, and slices stay the caller's. MessageHash is the hash of prefix, key, r and suffix;
  a message written and read back is the same.""",
  ["inputs", "histories"], "programs over three registers: extreme residues, residues with extreme Montgomery forms, all exponents, texts of all forms; sequences of feeding, copying and reading several contexts",
  """Tests sign fixed messages; a wrong carry at an extreme residue, an exponent above 5, or a context that depends on the cut or shares its state with a copy never shows in them.""",
  ["pasta/crypto.go", "pasta/poseidon.go", "pasta/pasta_fp.go", "pasta/pasta_fq.go", "pasta/utils.go", "pasta/mina.go"],
  [("numbers in Montgomery form", "pasta/crypto.go: Field*, Scalar*"), ("lazy permutation of the sponge", "pasta/poseidon.go: PoseidonUpdate, PoseidonDigest"), ("texts and bytes", "FieldFromHex, ScalarFromHex, ScalarFromWords, pasta/utils.go")],
  ["pasta.Field*, pasta.Scalar*", "pasta.NewPoseidonCtx3W, Poseidon3WInit, PoseidonUpdate, PoseidonDigest, PerMutation3W, MatrixMul", "pasta.MessageHash, NewMinaMessage"],
  [dict(name="State", meaning="elements of a sponge", where="PoseidonCtx.State"), dict(name="Absorbed", meaning="elements since the last permutation", where="PoseidonCtx.Absorbed")])

p("C32", "Every build of the library computes the same",
  """A program that calls the library observes the same results whatever the library is built for: with the assembly of package bls and of Keccak or with their portable
  replacements (tags generic and appengine, processors other than amd64), and with words of 32 or of 64 bits. In particular the portable arithmetic of BLS12-381's base field,
  the portable Keccak permutation and the portable absorbing and copying of its sponge compute the same residues and states, in place or not; and lengths, counters and
  shifts do not depend on the size of int.""",
  ["inputs", "histories"], "builds (portable on amd64; 386) x the scenarios of the schemes, hash streams, groups, pairings and histories",
  """The test suite only ever runs the build of the machine it runs on: code selected by a build tag is never executed by it, and a wrong carry there needs particular limbs.""",
  ["bls12_381/bls/arithmetic_fallback.go", "sha3/keccakf.go", "sha3/xor.go", "sha3/xor_generic.go", "all packages"],
  [("portable field arithmetic", "bls12_381/bls/arithmetic_fallback.go"), ("portable permutation", "sha3/keccakf.go: keccakF1600"), ("portable sponge access", "sha3/xor_generic.go, sha3/xor.go")],
  ["bls12_381.Sign, Verify", "bls.G1, G2, GT, Engine", "sha3.*", "Signature, Verify, Encryption, Hash and the rest of the facade on 386"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
