// Package api binds the exported functions of the root package to the recorder.
package api

import (
	"bytes"
	"fmt"
	"strconv"
	"strings"

	. "aa/core"
	ow "github.com/blocktree/go-owcrypt"
)

var algs = map[string]uint32{
	"SHA1": ow.HASH_ALG_SHA1, "SHA3_256": ow.HASH_ALG_SHA3_256, "SHA256": ow.HASH_ALG_SHA256, "SHA512": ow.HASH_ALG_SHA512,
	"MD4": ow.HASH_ALG_MD4, "MD5": ow.HASH_ALG_MD5, "RIPEMD160": ow.HASH_ALG_RIPEMD160, "BLAKE2B": ow.HASH_ALG_BLAKE2B,
	"BLAKE2S": ow.HASH_ALG_BLAKE2S, "SM3": ow.HASH_ALG_SM3, "DOUBLE_SHA256": ow.HASH_ALG_DOUBLE_SHA256, "HASH160": ow.HASH_ALG_HASH160,
	"BLAKE256": ow.HASH_ALG_BLAKE256, "BLAKE512": ow.HASH_ALG_BLAKE512, "KECCAK256": ow.HASH_ALG_KECCAK256,
	"KECCAK256_RIPEMD160": ow.HASH_ALG_KECCAK256_RIPEMD160, "SHA3_256_RIPEMD160": ow.HASH_ALG_SHA3_256_RIPEMD160,
	"KECCAK512": ow.HASH_ALG_KECCAK512, "SHA3_512": ow.HASH_ALG_SHA3_512,
	"HMAC_SHA256": ow.HMAC_SHA256_ALG, "HMAC_SHA512": ow.HMAC_SHA512_ALG, "HMAC_SM3": ow.HMAC_SM3_ALG,
	"K1": ow.ECC_CURVE_SECP256K1, "R1": ow.ECC_CURVE_SECP256R1, "SM2": ow.ECC_CURVE_SM2_STANDARD,
	"EDN": ow.ECC_CURVE_ED25519_NORMAL, "ED": ow.ECC_CURVE_ED25519, "X25519": ow.ECC_CURVE_X25519,
	"KCDSA": ow.ECC_CURVE_CURVE25519_SHA256, "BLSN": ow.ECC_CURVE_BLS12381_G2_XMD_SHA_256_SSWU_RO_NUL,
	"BLSA": ow.ECC_CURVE_BLS12381_G2_XMD_SHA_256_SSWU_RO_AUG, "PASTA": ow.ECC_CURVE_PASTA,
}

var EccAlgs = []string{"K1", "R1", "SM2", "EDN", "ED", "X25519", "KCDSA", "BLSN", "BLSA", "PASTA"}
var HashAlgs = []string{"SHA1", "SHA3_256", "SHA256", "SHA512", "MD4", "MD5", "RIPEMD160", "BLAKE2B", "BLAKE2S", "SM3", "DOUBLE_SHA256",
	"HASH160", "BLAKE256", "BLAKE512", "KECCAK256", "KECCAK256_RIPEMD160", "SHA3_256_RIPEMD160", "KECCAK512", "SHA3_512"}

// alg maps a name, or "#" followed by a number, to the selector.
func alg(s string) uint32 {
	if strings.HasPrefix(s, "#") {
		n, err := strconv.ParseUint(s[1:], 0, 32)
		if err != nil {
			panic(err)
		}
		return uint32(n)
	}
	v, ok := algs[s]
	if !ok {
		panic("unknown algorithm name " + s)
	}
	return v
}

func st(v uint16) string {
	switch v {
	case ow.SUCCESS:
		return "SUCCESS"
	case ow.FAILURE:
		return "FAILURE"
	case ow.ECC_PRIKEY_ILLEGAL:
		return "ECC_PRIKEY_ILLEGAL"
	case ow.ECC_PUBKEY_ILLEGAL:
		return "ECC_PUBKEY_ILLEGAL"
	case ow.ECC_WRONG_TYPE:
		return "ECC_WRONG_TYPE"
	case ow.ECC_MISS_ID:
		return "ECC_MISS_ID"
	case ow.RAND_IS_NULL:
		return "RAND_IS_NULL"
	case ow.LENGTH_ERROR:
		return "LENGTH_ERROR"
	case ow.POINT_AT_INFINITY:
		return "POINT_AT_INFINITY"
	case ow.MESSAGE_ILLEGAL:
		return "MESSAGE_ILLEGAL"
	}
	return fmt.Sprintf("UNDOCUMENTED-%04x", v)
}

// RET is the status of functions that have none: whether they returned.
const RET = "RETURNED"

func flag(b bool) int {
	if b {
		return 1
	}
	return 0
}

func errs(e error) string {
	if e == nil {
		return "SUCCESS"
	}
	return "FAILURE"
}

func init() {
	r := Ops
	r["GenPubkey"] = func(a *Args, o M) {
		p, s := ow.GenPubkey(a.B("key"), alg(a.S("alg")))
		o["out"], o["st"] = p, st(s)
	}
	r["Signature"] = func(a *Args, o M) {
		p, v, s := ow.Signature(a.B("key"), a.B("id"), a.B("msg"), alg(a.S("alg")))
		o["out"], o["v"], o["st"] = p, int(v), st(s)
	}
	r["Verify"] = func(a *Args, o M) {
		o["st"] = st(ow.Verify(a.B("pub"), a.B("id"), a.B("msg"), a.B("sig"), alg(a.S("alg"))))
	}
	r["AggregateSignatures"] = func(a *Args, o M) {
		p, s := ow.AggregateSignatures(alg(a.S("alg")), a.L("sigs")...)
		o["out"], o["st"] = p, st(s)
	}
	r["Encryption"] = func(a *Args, o M) {
		p, s := ow.Encryption(a.B("pub"), a.B("plain"), alg(a.S("alg")))
		o["out"], o["st"] = p, st(s)
	}
	r["Decryption"] = func(a *Args, o M) {
		p, s := ow.Decryption(a.B("key"), a.B("cipher"), alg(a.S("alg")))
		o["out"], o["st"] = p, st(s)
	}
	r["KaInit1"] = func(a *Args, o M) {
		x, y := ow.KeyAgreement_initiator_step1(alg(a.S("alg")))
		o["tmpkey"], o["tmppub"], o["st"] = x, y, RET
	}
	r["KaInit2"] = func(a *Args, o M) {
		k, s, c := ow.KeyAgreement_initiator_step2(a.B("idA"), a.B("idB"), a.B("dA"), a.B("pubA"), a.B("pubB"), a.B("rA"), a.B("RA"), a.B("RB"), a.B("SB"),
			uint16(a.I("keylen")), alg(a.S("alg")))
		o["out"], o["S"], o["st"] = k, s, st(c)
	}
	r["KaResp1"] = func(a *Args, o M) {
		k, t, si, so, c := ow.KeyAgreement_responder_step1(a.B("idA"), a.B("idB"), a.B("dB"), a.B("pubB"), a.B("pubA"), a.B("RA"),
			uint16(a.I("keylen")), alg(a.S("alg")))
		o["out"], o["RB"], o["S1"], o["S2"], o["st"] = k, t, si, so, st(c)
	}
	r["KaRespE1"] = func(a *Args, o M) {
		k, t, si, so, c := ow.KeyAgreement_responder_ElGamal_step1(a.B("idA"), a.B("idB"), a.B("dB"), a.B("pubB"), a.B("pubA"), a.B("RA"),
			uint16(a.I("keylen")), a.B("rnd"), alg(a.S("alg")))
		o["out"], o["RB"], o["S1"], o["S2"], o["st"] = k, t, si, so, st(c)
	}
	r["KaResp2"] = func(a *Args, o M) {
		o["st"] = st(ow.KeyAgreement_responder_step2(a.B("SA"), a.B("SB"), alg(a.S("alg"))))
	}
	r["Point_mulBaseG"] = func(a *Args, o M) {
		o["out"] = ow.Point_mulBaseG(a.B("k"), alg(a.S("alg")))
		o["st"] = RET
	}
	r["Point_mulBaseG_add"] = func(a *Args, o M) {
		p, inf := ow.Point_mulBaseG_add(a.B("p"), a.B("k"), alg(a.S("alg")))
		o["out"], o["inf"], o["st"] = p, flag(inf), RET
	}
	r["Point_add"] = func(a *Args, o M) {
		p, s := ow.Point_add(a.B("p"), a.B("q"), alg(a.S("alg")))
		o["out"], o["st"] = p, st(s)
	}
	r["Point_mul"] = func(a *Args, o M) {
		p, s := ow.Point_mul(a.B("p"), a.B("k"), alg(a.S("alg")))
		o["out"], o["st"] = p, st(s)
	}
	r["Add"] = func(a *Args, o M) {
		p, inf := ow.Add(a.B("p"), a.B("q"), a.S("name"))
		o["out"], o["inf"], o["st"] = p, flag(inf), RET
	}
	r["Mul"] = func(a *Args, o M) {
		p, inf := ow.Mul(a.B("p"), a.B("k"), a.S("name"))
		o["out"], o["inf"], o["st"] = p, flag(inf), RET
	}
	r["MulBaseG_Add"] = func(a *Args, o M) {
		p, inf := ow.MulBaseG_Add(a.B("p"), a.B("k"), a.S("name"))
		o["out"], o["inf"], o["st"] = p, flag(inf), RET
	}
	r["GetCurveOrder"] = func(a *Args, o M) {
		o["out"] = ow.GetCurveOrder(alg(a.S("alg")))
		o["st"] = RET
	}
	r["PointCompress"] = func(a *Args, o M) {
		o["out"] = ow.PointCompress(a.B("p"), alg(a.S("alg")))
		o["st"] = RET
	}
	r["PointDecompress"] = func(a *Args, o M) {
		o["out"] = ow.PointDecompress(a.B("p"), alg(a.S("alg")))
		o["st"] = RET
	}
	r["RecoverPubkey"] = func(a *Args, o M) {
		p, s := ow.RecoverPubkey(a.B("sig"), a.B("msg"), alg(a.S("alg")))
		o["out"], o["st"] = p, st(s)
	}
	r["X_to_Ed"] = func(a *Args, o M) {
		p, e := ow.CURVE25519_convert_X_to_Ed(a.B("p"))
		o["out"], o["st"] = p, errs(e)
	}
	r["Ed_to_X"] = func(a *Args, o M) {
		p, e := ow.CURVE25519_convert_Ed_to_X(a.B("p"))
		o["out"], o["st"] = p, errs(e)
	}
	r["Hash"] = func(a *Args, o M) {
		o["out"] = ow.Hash(a.B("data"), uint16(a.I("len")), alg(a.S("alg")))
		o["st"] = RET
	}
	// the hash of n blocks of 64 zeros and some more
	r["HashZeros"] = func(a *Args, o M) {
		t := a.B("tail")
		o["out"] = ow.Hash(append(make([]byte, 64*a.I("n"), 64*a.I("n")+len(t)), t...), 0, alg(a.S("alg")))
		o["st"] = RET
	}
	// what a long plaintext of zeros is encrypted to, its inverse, and the refusal of
	// ciphertexts altered near the end
	r["LongCipher"] = func(a *Args, o M) {
		n := a.I("n")
		c, s := ow.Encryption(a.B("pub"), make([]byte, n), ow.ECC_CURVE_SM2_STANDARD)
		o["st"], o["inverse"], o["refused"] = st(s), false, false
		if s != ow.SUCCESS || len(c) != 97+n {
			o["c1"] = []byte{}
			return
		}
		o["c1"] = append([]byte{}, c[:65]...)
		var blocks [][]byte
		at := []int{}
		for _, i := range []int{1, 2, 127, 128, 255, 256, 257, 32767, 32768, 32769, 65534, 65535, 65536, 65537, n / 32} {
			if i <= n/32 {
				at, blocks = append(at, i), append(blocks, append([]byte{}, c[65+32*i:97+32*i]...))
			}
		}
		o["at"], o["stream"] = at, blocks
		p, s := ow.Decryption(a.B("key"), c, ow.ECC_CURVE_SM2_STANDARD)
		o["inverse"] = s == ow.SUCCESS && bytes.Equal(p, make([]byte, n))
		c[len(c)-1] ^= 1
		p, s = ow.Decryption(a.B("key"), c, ow.ECC_CURVE_SM2_STANDARD)
		o["refused"] = s != ow.SUCCESS && p == nil
	}
	r["Hmac"] = func(a *Args, o M) {
		o["out"] = ow.Hmac(a.B("key"), a.B("data"), alg(a.S("alg")))
		o["st"] = RET
	}
}
