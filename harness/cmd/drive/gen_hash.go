package main

import (
	"bytes"

	"aa/api"
	. "aa/core"
)

func init() {
	gens["C20"] = genHash
	gens["C22"] = genHmac
	gens["C20big"] = genHashBig
}

func content(r *Rec, n, kind int) []byte {
	switch kind % 4 {
	case 0:
		return bytes.Repeat([]byte{0}, n)
	case 1:
		return bytes.Repeat([]byte{0xff}, n)
	}
	return r.Bytes(n)
}

func genHash(r *Rec) {
	for ai, a := range api.HashAlgs {
		h := func(d []byte, l int) { r.Do("Hash", M{"alg": a, "data": d, "len": l}) }
		full := []int{0}
		if a == "BLAKE2B" {
			full = []int{64, 32, 20}
		}
		if a == "BLAKE2S" {
			full = []int{0, 32, 20}
		}
		lim := r.Scale(280, 700)
		for n := 0; n <= lim; n++ {
			h(content(r, n, n+ai), full[n%len(full)])
		}
		h(nil, full[0])
		for _, n := range []int{511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 4096, 8191, 8192, 8193} {
			h(content(r, n, n+ai), full[n%len(full)])
		}
		big := []int{65535, 65536, 65537}
		if r.Thorough() {
			big = append(big, 100000, 131072, 300001)
		} else {
			big = big[ai%3 : ai%3+1]
		}
		for _, n := range big {
			h(content(r, n, n+ai), full[0])
		}
		// digest lengths
		if a == "BLAKE2B" || a == "BLAKE2S" {
			for l := 0; l <= 70; l++ {
				h(r.Bytes(l), l)
				h(r.Bytes(129), l)
			}
		}
		for _, l := range []int{1, 16, 20, 28, 31, 32, 33, 48, 63, 64, 65, 127, 128, 255, 256, 257, 288, 300, 511, 512, 32767, 32768, 65280, 65535} {
			h(r.Bytes(7), l)
		}
		// sparse content at every bit of one block
		for b := 0; b < 128; b++ {
			d := make([]byte, 128)
			d[b] = 1 << uint(r.Rng.Intn(8))
			if b < r.Scale(24, 128) {
				h(d, full[0])
			}
		}
		for i := 0; i < r.Scale(10, 100); i++ {
			h(r.Bytes(r.Rng.Intn(1500)), full[i%len(full)])
		}
	}
	genHashBig(r)
	for _, u := range []string{"#0", "#1", "#0x9FFFFFFF", "#0xA0000013", "#0xA0000014", "#0xA00000FF", "#0xFFFFFFFF", "#0x50505050", "#0xECC00000"} {
		for _, l := range []int{0, 20, 32} {
			r.Do("Hash", M{"alg": u, "data": []byte("abc"), "len": l})
		}
	}
}

// genHashBig hashes messages with more bits than 32 bits count, or 31.
func genHashBig(r *Rec) {
	for _, a := range []string{"SM3", "BLAKE256"} {
		r.Do("HashZeros", M{"alg": a, "n": 1<<23 - 1, "tail": r.Bytes(64 + r.Rng.Intn(100))})
		r.Do("HashZeros", M{"alg": a, "n": 1<<22 - 1, "tail": r.Bytes(1 + r.Rng.Intn(200))})
		if r.Thorough() {
			r.Do("HashZeros", M{"alg": a, "n": 1<<23 - 1, "tail": r.Bytes(63)})
			r.Do("HashZeros", M{"alg": a, "n": 1<<23 + 1, "tail": r.Bytes(1)})
		}
	}
}

func genHmac(r *Rec) {
	for _, a := range []string{"HMAC_SHA256", "HMAC_SHA512", "HMAC_SM3"} {
		h := func(k, d []byte) { r.Do("Hmac", M{"alg": a, "key": k, "data": d}) }
		for n := 0; n <= 270; n++ {
			h(content(r, n, n), r.Bytes(n%150))
			h(content(r, n, n+2), r.Bytes((270-n)%131))
		}
		for n := 0; n <= 270; n++ {
			h(r.Bytes(n%40), content(r, n, n))
		}
		h(nil, nil)
		h(nil, []byte("x"))
		h([]byte("k"), nil)
		for _, n := range []int{512, 1000, 4096, 10000} {
			h(r.Bytes(n), r.Bytes(n))
		}
		// keys that differ only in trailing zero bytes, or behind the block
		for _, n := range []int{10, 63, 64, 65, 127, 128, 129} {
			k := r.Bytes(n)
			k[n-1] = 0
			h(k, []byte("m"))
			h(k[:n-1], []byte("m"))
			h(append(append([]byte{}, k...), 0), []byte("m"))
		}
		for i := 0; i < r.Scale(60, 2000); i++ {
			h(r.Bytes(r.Rng.Intn(300)), r.Bytes(r.Rng.Intn(1000)))
		}
	}
	for _, u := range []string{"#0", "#0x5050504F", "#0x50505053", "#0xA0000002", "#0xFFFFFFFF"} {
		r.Do("Hmac", M{"alg": u, "key": []byte("k"), "data": []byte("abc")})
	}
}
