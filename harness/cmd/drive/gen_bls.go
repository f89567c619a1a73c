package main

import (
	"math/big"

	. "aa/core"
)

func init() {
	gens["C16"] = genBls
	gens["C17"] = genBlsSums
}

var blsAlgs = []string{"BLSN", "BLSA"}
var blsDst = map[string]string{"BLSN": "BLS_SIG_BLS12381G2_XMD:SHA-256_SSWU_RO_NUL_", "BLSA": "BLS_SIG_BLS12381G2_XMD:SHA-256_SSWU_RO_AUG_"}

func blsSign(r *Rec, a string, sk *big.Int, m []byte) []byte {
	s := GetB(r.Quiet("Signature", M{"alg": a, "key": b32(sk), "id": []byte(nil), "msg": m}), "out")
	if len(s) != 96 {
		s = g2enc(g2mul(blsR, g2any(r)))
	}
	return s
}

// blsX lists variants of an encoding with other flags or a number not reduced.
func blsX(s []byte) (vs [][]byte) {
	for _, f := range []byte{0x80, 0x40, 0x20, 0xc0, 0xa0, 0x60, 0xe0} {
		t := append([]byte{}, s...)
		t[0] ^= f
		vs = append(vs, t)
	}
	for off := 0; off < len(s); off += 48 {
		t := append([]byte{}, s...)
		fl := byte(0)
		if off == 0 {
			fl = t[0] & 0xe0
			t[0] &= 0x1f
		}
		x := new(big.Int).SetBytes(t[off : off+48])
		if y := plus(x, blsP); y.BitLen() <= 381 || off > 0 && y.BitLen() <= 384 {
			copy(t[off:], b48(y))
			t[0] |= fl
			vs = append(vs, t)
		}
	}
	return
}

func genBls(r *Rec) {
	i := -1
	mine := func() bool { i++; return !r.Skip(i) }
	sign := func(a string, k, m []byte) {
		in := M{"alg": a, "key": k, "id": []byte(nil), "msg": m}
		if r.Rng.Intn(5) == 0 {
			in["id"] = r.Bytes(3)
		}
		if mine() {
			r.Do("Signature", in)
		}
	}
	verify := func(a string, sk *big.Int, pub, m, sig []byte) {
		if mine() {
			r.Call("Verify", M{"alg": a, "pub": pub, "id": []byte(nil), "msg": m, "sig": sig}, M{"sk": b32(sk)})
		}
	}
	// the generator's own randomness is the same in every part
	r.Rng.Seed(int64(r.Scale(77, 78)))
	shared := func() (*big.Int, []byte, []byte) {
		sk := blsSk(r)
		return sk, g1enc(g1.mulG(sk)), r.Bytes(1 + r.Rng.Intn(80))
	}
	// one text to be hashed, by either scheme: only the schemes' tags keep them apart
	for n := 0; n < r.Scale(8, 40); n++ {
		k, pub, m := shared()
		if !mine() {
			continue
		}
		in := func(a string, m []byte) M { return M{"alg": a, "key": b32(k), "id": []byte(nil), "msg": m} }
		ver := func(a string, m, s []byte) {
			r.Call("Verify", M{"alg": a, "pub": pub, "id": []byte(nil), "msg": m, "sig": s}, M{"sk": b32(k)})
		}
		nul, aug := blsSign(r, "BLSN", k, Cat(pub, m)), blsSign(r, "BLSA", k, m)
		if n%2 == 0 {
			r.Do("Signature", in("BLSA", m))
			r.Do("Signature", in("BLSN", Cat(pub, m)))
			r.Do("Signature", in("BLSA", m))
		} else {
			ver("BLSN", Cat(pub, m), nul)
			ver("BLSA", m, aug)
			ver("BLSN", Cat(pub, m), aug)
			ver("BLSA", m, nul)
		}
	}
	for _, a := range blsAlgs {
		for _, k := range blsScalars() {
			sign(a, b32(k), r.Bytes(r.Rng.Intn(50)))
		}
		for _, k := range blsBadScalars() {
			sign(a, k, r.Bytes(5))
		}
		for n, k := range around(blsR) {
			if k.Cmp(blsR) >= 0 || r.Thorough() || n%3 == 0 {
				sign(a, b32(k), r.Bytes(5))
			}
		}
		// lengths around the hash's block boundaries, with the prefix and the length bytes that surround the message
		for n := 0; n < r.Scale(36, 200); n++ {
			l := n
			if n >= 20 && !r.Thorough() {
				l = []int{21, 48, 54, 55, 56, 60, 61, 62, 63, 64, 65, 100, 127, 128, 255, 1000}[n-20]
			}
			k := blsSk(r)
			sign(a, b32(k), r.Bytes(l))
		}
		// lengths that need more than two bytes, alone or with what is hashed beside the message
		for _, l := range []int{8192, 32768, 65400, 65424, 65440, 65487, 65488, 65535, 65536, 65537, 100000} {
			sign(a, b32(blsSk(r)), r.Bytes(l))
		}
		k := blsSk(r)
		pub := g1enc(g1.mulG(k))
		for _, m := range [][]byte{nil, {}, []byte(blsDst["BLSN"]), []byte(blsDst["BLSA"]), Cat([]byte(blsDst["BLSA"]), pub, []byte("m")),
			Cat(pub, []byte("m")), []byte("m"), {0}, {0, 0}, make([]byte, 64), []byte("BLS_SIG")} {
			sign(a, b32(k), m)
			verify(a, k, pub, m, blsSign(r, a, k, m))
		}
		for n := 0; n < r.Scale(24, 300); n++ {
			k, pub, m := shared()
			if n < len(blsScalars())/3 {
				k = blsScalars()[n*3]
				pub = g1enc(g1.mulG(k))
			}
			s := blsSign(r, a, k, m)
			S := g2dec(s)
			if S == nil {
				S = g2any(r)
			}
			verify(a, k, pub, m, s)
			verify(a, k, pub, m, g2enc(g2neg(S)))
			verify(a, sub(blsR, k), g1enc(g1.neg(g1.mulG(k))), m, s)
			verify(a, sub(blsR, k), g1enc(g1.neg(g1.mulG(k))), m, g2enc(g2neg(S)))
			verify(a, k, pub, m, g2enc(g2add(S, S)))
			// the other type, another message, another key
			o := blsAlgs[0]
			if a == o {
				o = blsAlgs[1]
			}
			verify(o, k, pub, m, s)
			verify(a, k, pub, Cat(m, []byte{0}), s)
			verify(a, k, pub, m[:len(m)-1], s)
			verify(a, k, pub, Cat(pub, m), s)
			verify(a, k, pub, m, blsSign(r, o, k, Cat(pub, m)))
			k2, p2, _ := shared()
			verify(a, k2, p2, m, s)
			// signatures outside the subgroup: signature plus a point of the cofactor's torsion
			if n%3 == 0 {
				T := g2mul(blsR, g2any(r))
				verify(a, k, pub, m, g2enc(g2add(S, T)))
				verify(a, k, pub, m, g2enc(T))
				verify(a, k, pub, m, g2enc(g2any(r)))
				t := g1.rawMul(blsR, g1any(r))
				verify(a, k, g1enc(g1.add(g1.mulG(k), t)), m, s)
				verify(a, k, g1enc(t), m, s)
				verify(a, k, g1enc(g1any(r)), m, s)
			}
		}
		k, pub, m := shared()
		s := blsSign(r, a, k, m)
		inf2, inf1 := g2enc(nil), g1enc(nil)
		verify(a, k, pub, m, inf2)
		verify(a, k, inf1, m, inf2)
		verify(a, k, inf1, m, s)
		verify(a, k, make([]byte, 48), m, s)
		verify(a, k, pub, m, make([]byte, 96))
		for _, v := range blsX(s) {
			verify(a, k, pub, m, v)
		}
		for _, v := range blsX(inf2) {
			verify(a, k, inf1, m, v)
		}
		for _, v := range blsX(pub) {
			if v[0]&0xc0 == 0x80 && v[0]^pub[0] == 0x20 {
				verify(a, sub(blsR, k), v, m, s)
			} else {
				verify(a, k, v, m, s)
			}
		}
		for _, v := range resized(s) {
			verify(a, k, pub, m, v)
		}
		for _, v := range resized(pub) {
			verify(a, k, v, m, s)
		}
		verify(a, k, pub, m, nil)
		verify(a, k, nil, m, s)
		verify(a, k, pub, nil, s)
		nf := r.Scale(90, 1<<20)
		for _, v := range flips(r, s, nf) {
			verify(a, k, pub, m, v)
		}
		for _, v := range flips(r, pub, nf/2) {
			if v[0]^pub[0] == 0x20 {
				verify(a, sub(blsR, k), v, m, s)
			} else {
				verify(a, k, v, m, s)
			}
		}
		for _, v := range flips(r, m, nf/6) {
			verify(a, k, pub, v, s)
		}
	}
}

func genBlsSums(r *Rec) {
	i := -1
	mine := func() bool { i++; return !r.Skip(i) }
	r.Rng.Seed(int64(r.Scale(87, 88)))
	agg := func(a string, l ...[]byte) {
		if mine() {
			r.Do("AggregateSignatures", M{"alg": a, "sigs": l})
		}
	}
	var pool [][]byte
	var pts []*pt2
	for n := 0; n < 12; n++ {
		s := blsSign(r, blsAlgs[n%2], blsSk(r), r.Bytes(10))
		P := g2dec(s)
		if P == nil {
			P = g2any(r)
		}
		pool, pts = append(pool, s), append(pts, P)
	}
	neg := func(j int) []byte { return g2enc(g2neg(pts[j])) }
	inf := g2enc(nil)
	bad := [][]byte{nil, {}, {0xc0}, make([]byte, 96), g2enc(g2any(r)), g2enc(g2mul(blsR, g2any(r))), pool[0][:95], Cat(pool[0], []byte{0}), Cat(pool[0], pool[1]), pool[0][:48],
		g1enc(g1.g)}
	bad = append(bad, blsX(pool[0])[:6]...)
	bad = append(bad, blsX(inf)...)
	for _, a := range blsAlgs {
		agg(a)
		for j := range pool {
			agg(a, pool[j])
			agg(a, pool[j], pool[(j+1)%12])
			agg(a, pool[(j+1)%12], pool[j])
		}
		agg(a, pool[0], pool[0])
		agg(a, pool[0], pool[0], pool[0])
		agg(a, pool[0], pool[0], pool[0], pool[0])
		agg(a, pool[0], neg(0))
		agg(a, neg(0), pool[0], pool[1])
		agg(a, pool[1], pool[0], neg(0))
		agg(a, pool[0], pool[1], neg(0), neg(1))
		agg(a, pool[0], pool[0], neg(0))
		agg(a, neg(0), neg(0), g2enc(g2add(pts[0], pts[0])))
		agg(a, pool[0], pool[1], g2enc(g2neg(g2add(pts[0], pts[1]))))
		agg(a, pool[0], pool[1], g2enc(g2add(pts[0], pts[1])))
		agg(a, inf)
		agg(a, inf, inf)
		agg(a, inf, pool[2])
		agg(a, pool[2], inf)
		agg(a, pool[2], inf, pool[2])
		for _, b := range bad {
			agg(a, b)
			agg(a, b, pool[1])
			agg(a, pool[1], b)
			agg(a, pool[1], b, pool[2])
		}
		for n := 0; n < r.Scale(30, 400); n++ { // multisets in any order
			var l [][]byte
			for m := 2 + r.Rng.Intn(5); m > 0; m-- {
				switch j := r.Rng.Intn(12); {
				case r.Rng.Intn(5) == 0:
					l = append(l, neg(j))
				case r.Rng.Intn(12) == 0:
					l = append(l, inf)
				default:
					l = append(l, pool[j])
				}
			}
			agg(a, l...)
			r.Rng.Shuffle(len(l), func(x, y int) { l[x], l[y] = l[y], l[x] })
			agg(a, l...)
		}
		long := [][]byte{}
		for n := 0; n < r.Scale(33, 300); n++ {
			long = append(long, pool[n%12])
		}
		agg(a, long...)
		agg(a, append(long, bad[4])...)
	}
	for _, a := range []string{"K1", "R1", "SM2", "EDN", "ED", "X25519", "KCDSA", "PASTA", "#0", "SHA256"} {
		agg(a, pool[0], pool[1])
		agg(a)
	}

	// k G and k G + P
	mulG := func(a string, k []byte) {
		if mine() {
			r.Do("Point_mulBaseG", M{"alg": a, "k": k})
		}
	}
	mulAdd := func(a string, p, k []byte) {
		if mine() {
			r.Do("Point_mulBaseG_add", M{"alg": a, "p": p, "k": k})
		}
	}
	ks := blsScalars()
	for n := 0; n < r.Scale(20, 300); n++ {
		ks = append(ks, blsSk(r))
	}
	for _, a := range blsAlgs {
		for _, k := range ks {
			mulG(a, b32(k))
			mulAdd(a, g1enc(g1.mulG(blsSk(r))), b32(k))
			mulAdd(a, g1enc(g1.mulG(k)), b32(k))
			mulAdd(a, g1enc(g1.neg(g1.mulG(k))), b32(k))
			mulAdd(a, g1enc(nil), b32(k))
			mulAdd(a, g1enc(g1.g), b32(k))
			mulAdd(a, g1enc(g1.neg(g1.g)), b32(k))
		}
		P := g1enc(g1.mulG(blsSk(r)))
		for _, k := range around(blsR) {
			mulG(a, b32(k))
			mulAdd(a, P, b32(k))
		}
		for _, k := range blsBadScalars() {
			mulG(a, k)
			mulAdd(a, P, k)
			mulAdd(a, g1enc(nil), k)
		}
		k := blsSk(r)
		for _, v := range blsX(P) {
			mulAdd(a, v, b32(k))
		}
		for _, v := range blsX(g1enc(nil)) {
			mulAdd(a, v, b32(k))
		}
		for _, v := range resized(P) {
			mulAdd(a, v, b32(k))
		}
		mulAdd(a, nil, b32(k))
		for _, v := range flips(r, P, r.Scale(48, 1<<20)) {
			mulAdd(a, v, b32(k))
		}
		for n := 0; n < r.Scale(6, 40); n++ {
			t := g1.rawMul(blsR, g1any(r))
			mulAdd(a, g1enc(t), b32(k))
			mulAdd(a, g1enc(g1any(r)), b32(k))
			mulAdd(a, g1enc(g1.add(t, g1.g)), b32(k))
		}
	}
}
