package main

import (
	"bufio"
	"encoding/json"
	"math/big"
	"os"

	. "aa/core"
)

func init() {
	gens["C08"] = genSm2Sig
	gens["C09"] = genSm2Enc
	gens["C10"] = genKa
	gens["C10proto"] = genKaProto
}

func sm3(r *Rec, d ...[]byte) []byte {
	return GetB(r.Quiet("Hash", M{"alg": "SM3", "data": Cat(d...), "len": 0}), "out")
}

func sm2Digest(r *Rec, q *pt, id, msg []byte) []byte {
	if id == nil {
		return msg
	}
	return sm3(r, sm2Za(r, q, id), msg)
}

func sm2Za(r *Rec, q *pt, id []byte) []byte {
	c := curves["SM2"]
	return sm3(r, []byte{byte(8 * len(id) >> 8), byte(8 * len(id))}, id, b32(c.a), b32(c.b), xy(c.g), xy(q))
}

// kaConfirm is the confirmation with a tag for a shared point x||y.
func kaConfirm(r *Rec, tag byte, U []byte, A, B party, RA, RB []byte) []byte {
	return sm3(r, []byte{tag}, U[32:], sm3(r, U[:32], sm2Za(r, A.pub, A.id), sm2Za(r, B.pub, B.id), RA, RB))
}

var idLens = []int{1, 2, 16, 18, 31, 32, 33, 63, 64, 65, 100, 255, 256, 8160, 8191}

func genSm2Sig(r *Rec) {
	c := curves["SM2"]
	v := func(pub, id, h, sig []byte) {
		r.Do("Verify", M{"alg": "SM2", "pub": pub, "id": id, "msg": h, "sig": sig})
	}
	s := func(k, id, h []byte) M {
		return r.Do("Signature", M{"alg": "SM2", "key": k, "id": id, "msg": h})
	}
	sg := func(x, y *big.Int) []byte { return Cat(b32(x), b32(y)) }
	std := []byte("1234567812345678")
	// signing
	for i, k := range c.scalars(r, false, r.Scale(60, 600)) {
		if r.Skip(i) {
			continue
		}
		var id []byte
		if i%2 == 1 {
			id = r.Bytes(i % 40)
		}
		s(b32(k), id, hashes(c, r, i))
	}
	for i := 0; i < r.Scale(200, 4000); i++ {
		if r.Skip(i) {
			continue
		}
		var id []byte
		if i%3 != 0 {
			id = r.Bytes(r.Rng.Intn(50))
		}
		d, h := c.rnd(r), hashes(c, r, i)
		o := s(b32(d), id, h)
		sig := GetB(o, "out")
		if len(sig) != 64 {
			continue
		}
		q := c.mulG(d)
		v(xy(q), id, h, sig)
		x, y := new(big.Int).SetBytes(sig[:32]), new(big.Int).SetBytes(sig[32:])
		if i < r.Scale(32, 100) {
			nf := r.Scale(6, 200)
			for _, f := range flips(r, sig, nf) {
				v(xy(q), id, h, f)
			}
			for _, f := range flips(r, h, nf) {
				v(xy(q), id, f, sig)
			}
			for _, f := range flips(r, xy(q), nf) {
				v(f, id, h, sig)
			}
			if len(id) > 0 {
				for _, f := range flips(r, id, nf) {
					v(xy(q), f, h, sig)
				}
				v(xy(q), id[:len(id)-1], h, sig)
				v(xy(q), Cat(id, []byte{0}), h, sig)
				v(xy(q), Cat([]byte{0}, id), h, sig)
			}
			v(xy(q), nil, h, sig)
			v(xy(q), []byte{}, h, sig)
			v(xy(q), std, h, sig)
			v(xy(c.neg(q)), id, h, sig)
			v(xy(q), id, h, sg(x, c.mn(sub(c.n, y))))
			v(xy(q), id, h, sg(y, x))
		}
		if i < r.Scale(16, 32) {
			for _, w := range []*big.Int{bi(0), bi(1), sub(c.n, bi(1)), c.n, plus(c.n, bi(1)), c.p, sub(new(big.Int).Lsh(bi(1), 256), bi(1))} {
				v(xy(q), id, h, sg(w, y))
				v(xy(q), id, h, sg(x, w))
				v(xy(q), id, h, sg(w, w))
				v(xy(q), id, h, sg(w, c.mn(sub(c.n, w))))
			}
			for _, f := range resized(sig) {
				v(xy(q), id, h, f)
			}
			for _, f := range resized(h) {
				v(xy(q), id, f, sig)
			}
			for _, f := range resized(xy(q)) {
				v(f, id, h, sig)
			}
			for _, t := range c.nonPoints(r) {
				v(t, id, h, sig)
			}
		}
	}
	// identities of every length class
	for i, n := range append(append([]int{0}, idLens...), 8192, 8193, 10000, 16384, 65535, 65536) {
		if r.Skip(i) {
			continue
		}
		for j := 0; j < 3; j++ {
			d, h, id := c.rnd(r), r.Bytes(32), r.Bytes(n)
			o := s(b32(d), id, h)
			sig := GetB(o, "out")
			if len(sig) != 64 {
				sig = r.Bytes(64)
			}
			q := xy(c.mulG(d))
			v(q, id, h, sig)
			if n > 0 {
				v(q, id[:n-1], h, sig)
				id2 := append([]byte{}, id...)
				id2[n-1] ^= 1
				v(q, id2, h, sig)
				id2[n-1] ^= 1
				id2[0] ^= 128
				v(q, id2, h, sig)
			}
			// an identity whose length is the same modulo 8192
			if n+8192 < 70000 {
				v(q, Cat(id, r.Bytes(8192)), h, sig)
			}
		}
	}
	// identity against message boundary: id||m splits
	for i := 0; i < 4; i++ {
		if r.Skip(i) {
			continue
		}
		d := c.rnd(r)
		id, h := r.Bytes(20), r.Bytes(32)
		sig := GetB(r.Quiet("Signature", M{"alg": "SM2", "key": b32(d), "id": id, "msg": h}), "out")
		if len(sig) != 64 {
			continue
		}
		q := xy(c.mulG(d))
		v(q, id[:19], Cat(id[19:], h)[:32], sig)
		v(q, Cat(id, h[:1]), Cat(h[1:], []byte{0}), sig)
	}
	for _, b := range resized(b32(c.rnd(r))) {
		s(b, std, r.Bytes(32))
	}
	for _, b := range resized(r.Bytes(32)) {
		s(b32(c.rnd(r)), std, b)
		s(b32(c.rnd(r)), nil, b)
	}
	// signatures by construction, for keys of every kind
	for i, q := range c.points(r, r.Scale(20, 300)) {
		if r.Skip(i) {
			continue
		}
		x, t := c.rnd(r), c.rnd(r)
		switch i % 6 {
		case 0:
			t = bi(1)
		case 1:
			x = bi(1)
		case 2:
			x = sub(c.n, bi(1))
		case 3:
			t = sub(c.n, bi(1))
		}
		e, rr := c.forgeSm2(q, x, t)
		if e == nil || rr.Sign() == 0 {
			continue
		}
		v(xy(q), nil, b32(e), sg(rr, x))
		v(xy(c.neg(q)), nil, b32(e), sg(rr, x))
		if w := plus(e, c.n); w.BitLen() <= 256 {
			v(xy(q), nil, b32(w), sg(rr, x))
		}
	}
	// r and s around the order, right but for their range
	for i, w := range around(c.n) {
		if y := c.mn(w); !r.Skip(i) && y.Sign() != 0 {
			q, t := c.mulG(c.rnd(r)), c.rnd(r)
			if e, rr := c.forgeSm2(q, y, t); e != nil && rr.Sign() != 0 {
				v(xy(q), nil, b32(e), sg(rr, w))
			}
			x := c.mn(sub(t, y))
			if e, rr := c.forgeSm2(q, x, t); e != nil && x.Sign() != 0 {
				v(xy(q), nil, b32(e), sg(w, x))
				_ = rr
			}
		}
	}
	for i := 0; i < r.Scale(60, 400); i++ {
		if r.Skip(i) {
			continue
		}
		d := c.rnd(r)
		if i < 8 {
			d = []*big.Int{bi(1), bi(2), bi(3), sub(c.n, bi(2)), sub(c.n, bi(3)), new(big.Int).Rsh(c.n, 1), bi(16), bi(255)}[i]
		}
		q := c.mulG(d)
		t := c.rnd(r)
		// s*G = t*Q: the two parts are equal
		x := c.mulN(t, d)
		if e, rr := c.forgeSm2(q, x, t); e != nil && rr.Sign() != 0 {
			v(xy(q), nil, b32(e), sg(rr, x))
		}
		// s*G = -t*Q: infinity; with coordinates (0,0) the equation would read e = r
		x = c.mn(new(big.Int).Neg(c.mulN(t, d)))
		rr := c.mn(sub(t, x))
		v(xy(q), nil, b32(rr), sg(rr, x))
		v(xy(q), nil, r.Bytes(32), sg(rr, x))
		// r + s = n
		rr, x = c.rnd(r), nil
		x = c.mn(sub(c.n, rr))
		v(xy(q), nil, b32(c.mn(sub(rr, c.mulG(x).x))), sg(rr, x))
		// nonce point with chosen x
		xs := c.extremes(r, 3)
		for j := int64(0); j < 4; j++ {
			xs = append(xs, plus(c.n, bi(int64(i)+j)), bi(int64(i)+j), sub(c.p, bi(j)))
		}
		for _, w := range xs {
			R := c.lift(w, uint(i&1))
			if R == nil {
				continue
			}
			rr, x := c.rnd(r), c.rnd(r)
			if i%3 == 0 {
				rr = bi(int64(i + 1))
			}
			if i%3 == 1 {
				x = bi(int64(i + 1))
			}
			if c.addN(rr, x).Sign() == 0 {
				continue
			}
			qq := c.keyForSm2(R, rr, x)
			if qq == nil {
				continue
			}
			e := c.mn(sub(rr, R.x))
			v(xy(qq), nil, b32(e), sg(rr, x))
			if z := plus(rr, c.n); z.BitLen() <= 256 {
				v(xy(qq), nil, b32(e), sg(z, x))
			}
			if z := plus(x, c.n); z.BitLen() <= 256 {
				v(xy(qq), nil, b32(e), sg(rr, z))
			}
			if z := plus(e, c.n); z.BitLen() <= 256 {
				v(xy(qq), nil, b32(z), sg(rr, x))
			}
		}
	}
}

// sm2Encrypt makes a ciphertext with a chosen one-time scalar.
func sm2Encrypt(r *Rec, q *pt, k *big.Int, m []byte) ([]byte, bool) {
	c := curves["SM2"]
	return sm2Seal(r, c.mulG(k), c.mul(k, q), m)
}

// sm2Seal makes the ciphertext with the given C1 and shared point.
func sm2Seal(r *Rec, C1, S *pt, m []byte) ([]byte, bool) {
	var t []byte
	for i := 1; len(t) < len(m); i++ {
		t = append(t, sm3(r, xy(S), []byte{byte(i >> 24), byte(i >> 16), byte(i >> 8), byte(i)})...)
	}
	zero := true
	c2 := make([]byte, len(m))
	for i := range m {
		zero = zero && t[i] == 0
		c2[i] = m[i] ^ t[i]
	}
	return Cat([]byte{4}, xy(C1), sm3(r, b32(S.x), m, b32(S.y)), c2), zero
}

func genSm2Enc(r *Rec) {
	c := curves["SM2"]
	encr := func(d *big.Int, q *pt, m []byte) []byte {
		o := r.Call("Encryption", M{"alg": "SM2", "pub": xy(q), "plain": m}, M{"d": b32(d)})
		return GetB(o, "out")
	}
	dec := func(k, ct []byte) { r.Do("Decryption", M{"alg": "SM2", "key": k, "cipher": ct}) }
	lens := []int{}
	for n := 1; n <= r.Scale(100, 300); n++ {
		lens = append(lens, n)
	}
	lens = append(lens, 127, 128, 129, 159, 160, 161, 255, 256, 257, 1000, 8191, 8192, 8193, 20000)
	if r.Thorough() {
		lens = append(lens, 65535, 65536, 65537, 100000)
	}
	// plaintexts with more blocks than one or two bytes count
	for i, n := range []int{32 * 257, 32*65537 + 32, 32 * 300, 32 * 32770} {
		if i%r.Parts == r.Part {
			d := c.rnd(r)
			r.Do("LongCipher", M{"key": b32(d), "pub": xy(c.mulG(d)), "n": n})
		}
	}
	ks := c.scalars(r, true, 20)
	for i, n := range lens {
		if r.Skip(i) {
			continue
		}
		d := c.rnd(r)
		if i%2 == 0 {
			d = ks[r.Rng.Intn(len(ks))]
		}
		q := c.mulG(d)
		ct := encr(d, q, content(r, n, n))
		if len(ct) < 98 {
			continue
		}
		dec(b32(d), ct)
		if i < 40 {
			for _, f := range flips(r, ct, r.Scale(20, 400)) {
				dec(b32(d), f)
			}
			for j := 0; j < r.Scale(6, 97); j++ { // one in every part
				f := append([]byte{}, ct...)
				f[[]int{0, 1 + j%32, 33 + j%32, 65 + j%32, 97 + j%(len(ct)-97), len(ct) - 1}[j%6]] ^= byte(1 + r.Rng.Intn(255))
				dec(b32(d), f)
			}
			dec(b32(d), ct[:len(ct)-1])
			dec(b32(d), Cat(ct, []byte{0}))
			dec(b32(d), ct[1:])
			dec(b32(d), ct[:97])
			dec(b32(d), Cat([]byte{4}, ct))
			dec(b32(c.rnd(r)), ct)
			dec(b32(c.mn(sub(c.n, d))), ct)
			dec(b32(c.mn(plus(d, bi(1)))), ct)
			// the other common order C1||C2||C3
			dec(b32(d), Cat(ct[:65], ct[97:], ct[65:97]))
		}
		if i < 16 {
			for _, b := range c.nonPoints(r) {
				dec(b32(d), Cat([]byte{4}, b, ct[65:]))
			}
			dec(b32(d), Cat([]byte{4}, xy(c.neg(&pt{new(big.Int).SetBytes(ct[1:33]), new(big.Int).SetBytes(ct[33:65])})), ct[65:]))
			for j := 0; j < 100; j += 3 {
				dec(b32(d), ct[:min(j, len(ct))])
			}
			dec(b32(d), nil)
			for _, b := range resized(b32(d)) {
				dec(b, ct)
			}
			for _, w := range []*big.Int{bi(0), c.n, plus(c.n, d), plus(c.n, bi(1)), sub(new(big.Int).Lsh(bi(1), 256), bi(1))} {
				if w.BitLen() <= 256 {
					dec(b32(w), ct)
				}
			}
			for _, b := range append(c.nonPoints(r), resized(xy(q))...) {
				r.Call("Encryption", M{"alg": "SM2", "pub": b, "plain": []byte("message")}, M{"d": b32(d)})
			}
			r.Call("Encryption", M{"alg": "SM2", "pub": full(q), "plain": []byte("message")}, M{"d": b32(d)})
			r.Call("Encryption", M{"alg": "SM2", "pub": xy(q), "plain": []byte{}}, M{"d": b32(d)})
			r.Call("Encryption", M{"alg": "SM2", "pub": xy(q), "plain": []byte(nil)}, M{"d": b32(d)})
		}
	}
	// short plaintexts often: an all-zero key stream must be retried
	d := c.rnd(r)
	q := c.mulG(d)
	for i := 0; i < r.Scale(1600, 10000); i++ {
		if r.Skip(i) {
			continue
		}
		encr(d, q, r.Bytes(1+i%2*r.Rng.Intn(2)))
	}
	// the decryption side, with chosen one-time scalars and keys
	for i, p := range c.points(r, r.Scale(10, 100)) {
		if r.Skip(i) {
			continue
		}
		k := ks[r.Rng.Intn(len(ks))]
		m := r.Bytes(1 + r.Rng.Intn(80))
		ct, _ := sm2Encrypt(r, q, k, m)
		dec(b32(d), ct)
		// the point as C1 and as the shared point
		ct, _ = sm2Seal(r, p, c.mul(d, p), m)
		dec(b32(d), ct)
		ct, _ = sm2Seal(r, c.mul(c.invN(d), p), p, m)
		dec(b32(d), ct)
		kk := ks[r.Rng.Intn(len(ks))]
		ct, _ = sm2Encrypt(r, c.mulG(kk), k, m)
		dec(b32(kk), ct)
	}
	n := 0
	for i := 0; n < r.Scale(6, 60) && i < 40000; i++ {
		k := bi(int64(1 + i*r.Parts + r.Part))
		ct, zero := sm2Encrypt(r, q, k, []byte{byte(i)})
		if zero {
			n++
			dec(b32(d), ct)
		}
		if i > r.Scale(1500, 20000) {
			break
		}
	}
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

type party struct {
	id  []byte
	d   *big.Int
	pub *pt
}

func (c *wei) party(r *Rec, idlen int) party {
	d := c.rnd(r)
	return party{r.Bytes(idlen), d, c.mulG(d)}
}

func keylens(r *Rec, i int) int {
	l := []int{16, 32, 1, 31, 33, 64, 48, 63, 65, 96, 128, 0, 255, 256, 1000, 8191, 8192, 8193, 4096, 20000, 65535, 32767, 32768}
	if i >= 2*len(l) && l[i%len(l)] > 300 && i%5 != 0 { // long keys take long to check
		return 17 + i%200
	}
	return l[i%len(l)]
}

// xbar(R)
func xbar(R *pt) *big.Int {
	m := new(big.Int).Lsh(bi(1), 127)
	return plus(m, new(big.Int).Mod(R.x, m))
}

func genKa(r *Rec) {
	c := curves["SM2"]
	for i := 0; i < r.Scale(40, 200); i++ {
		if r.Skip(i) {
			continue
		}
		r.Do("KaInit1", M{"alg": "SM2"})
	}
	// exchanges in which points of every kind are the shared point, a public key
	// or an ephemeral point
	for i, p := range c.points(r, r.Scale(4, 60)) {
		if r.Skip(i) {
			continue
		}
		A, B := c.party(r, 1+i%20), c.party(r, 1+i%30)
		rA, rB := c.rnd(r), c.rnd(r)
		RA, RB := c.mulG(rA), c.mulG(rB)
		if i%3 == 1 {
			RA = p
		}
		U := p
		if i%3 == 2 {
			U = c.mulG(c.rnd(r))
		}
		t := func(d, e *big.Int, E *pt) *big.Int { return c.invN(c.addN(d, c.mulN(xbar(E), e))) }
		from := func(k *big.Int, E *pt) *pt { return c.add(c.mul(k, U), c.neg(c.mul(xbar(E), E))) }
		A.pub, B.pub = from(t(B.d, rB, RB), RA), from(t(A.d, rA, RA), RB)
		if i%3 == 2 { // only one side has the point
			if i%2 == 0 {
				A.pub = p
			} else {
				B.pub = p
			}
		}
		if A.pub == nil || B.pub == nil {
			continue
		}
		none := M{"la": b32(bi(0)), "lr": b32(bi(0))}
		o := r.Call("KaRespE1", M{"alg": "SM2", "idA": A.id, "idB": B.id, "dB": b32(B.d), "pubB": xy(B.pub), "pubA": xy(A.pub), "RA": xy(RA), "rnd": b32(rB), "keylen": 1 + i}, none)
		oi := r.Do("KaInit2", M{"alg": "SM2", "idA": A.id, "idB": B.id, "dA": b32(A.d), "pubA": xy(A.pub), "pubB": xy(B.pub), "rA": b32(rA), "RA": xy(RA), "RB": xy(RB), "SB": GetB(o, "S2"), "keylen": 1 + i})
		r.Do("KaResp2", M{"alg": "SM2", "SA": GetB(oi, "S"), "SB": GetB(o, "S1")})
	}
	for i := 0; i < r.Scale(300, 3000); i++ {
		if r.Skip(i) {
			continue
		}
		A, B := c.party(r, idLens[(i/3)%len(idLens)]), c.party(r, idLens[(i/7)%len(idLens)])
		if i%5 == 0 {
			B.id = A.id
		}
		rA, rB := c.rnd(r), c.rnd(r)
		ks := c.scalars(r, true, 0)
		if i%4 == 1 {
			rA = ks[r.Rng.Intn(len(ks))]
		}
		if i%4 == 2 {
			rB = ks[r.Rng.Intn(len(ks))]
		}
		if i%8 == 3 {
			A.d = ks[r.Rng.Intn(len(ks))]
			A.pub = c.mulG(A.d)
		}
		if i%8 == 4 {
			B.d = ks[r.Rng.Intn(len(ks))]
			B.pub = c.mulG(B.d)
		}
		if i%16 == 5 { // ephemeral equal to static
			rA = A.d
		}
		RA := c.mulG(rA)
		kl := keylens(r, i)
		resp := M{"alg": "SM2", "idA": A.id, "idB": B.id, "dB": b32(B.d), "pubB": xy(B.pub), "pubA": xy(A.pub), "RA": xy(RA), "keylen": kl}
		hint := M{"la": b32(A.d), "lr": b32(rA)}
		op := "KaResp1"
		if i%2 == 0 {
			op = "KaRespE1"
			resp["rnd"] = b32(rB)
			if i%40 == 6 {
				resp["rnd"] = []byte(nil)
			}
		}
		o := r.Call(op, resp, hint)
		RB, S1, S2 := GetB(o, "RB"), GetB(o, "S1"), GetB(o, "S2")
		init := M{"alg": "SM2", "idA": A.id, "idB": B.id, "dA": b32(A.d), "pubA": xy(A.pub), "pubB": xy(B.pub), "rA": b32(rA), "RA": xy(RA), "RB": RB, "SB": S2, "keylen": kl}
		oi := r.Do("KaInit2", init)
		r.Do("KaResp2", M{"alg": "SM2", "SA": GetB(oi, "S"), "SB": S1})
		r.Do("KaResp2", M{"alg": "SM2", "SA": S2, "SB": S1})
		if len(RB) != 64 || len(S2) != 32 {
			continue
		}
		alter := func(op string, in M, hint M, key string, v interface{}) {
			m := M{}
			for k, x := range in {
				m[k] = x
			}
			if kl > 300 && r.Rng.Intn(16) != 0 { // long keys take long to check
				m["keylen"] = 48
			}
			m[key] = v
			r.Call(op, m, hint)
		}
		other := c.party(r, 9)
		kBytes := [][]byte{b32(bi(0)), b32(c.n), b32(sub(new(big.Int).Lsh(bi(1), 256), bi(1))), b32(other.d), nil, b32(other.d)[1:], Cat([]byte{0}, b32(other.d))}
		pts := append(c.nonPoints(r), nil, []byte{}, xy(other.pub)[:63], full(other.pub), comp(other.pub), Cat(xy(other.pub), []byte{0}))
		few := func(x [][]byte) [][]byte {
			x = append([][]byte{}, x...)
			if r.Thorough() || i < 16 {
				return x
			}
			r.Rng.Shuffle(len(x), func(a, b int) { x[a], x[b] = x[b], x[a] })
			return x[:2]
		}
		if i < r.Scale(64, 600) {
			// initiator's view differs
			for _, k := range []string{"idA", "idB"} {
				id := resp[k].([]byte)
				for _, v := range few([][]byte{other.id, nil, {}, id[:len(id)-1], Cat(id, []byte{0}), flips(r, id, 1)[0], r.Bytes(8192), r.Bytes(8191)}) {
					alter("KaInit2", init, nil, k, v)
					alter(op, resp, hint, k, v)
				}
			}
			for _, v := range few(kBytes) {
				alter("KaInit2", init, nil, "dA", v)
				alter("KaInit2", init, nil, "rA", v)
				alter(op, resp, hint, "dB", v)
				if op == "KaRespE1" && v != nil {
					alter(op, resp, hint, "rnd", v)
				}
			}
			for _, v := range few(append(pts, xy(other.pub), xy(c.neg(RA)))) {
				for _, k := range []string{"pubA", "pubB", "RA", "RB"} {
					alter("KaInit2", init, nil, k, v)
				}
				alter(op, resp, hint, "pubB", v)
			}
			for _, v := range few(pts) { // the hints do not describe these: all must be refused
				alter(op, resp, hint, "pubA", v)
				alter(op, resp, hint, "RA", v)
			}
			alter(op, resp, M{"la": b32(other.d), "lr": b32(rA)}, "pubA", xy(other.pub))
			alter(op, resp, M{"la": b32(A.d), "lr": b32(other.d)}, "RA", xy(other.pub))
			alter(op, resp, M{"la": b32(A.d), "lr": b32(A.d)}, "RA", xy(A.pub))
			if i < 16 {
				for _, v := range append(flips(r, S1, 256), flips(r, S1, 40)...) {
					r.Do("KaResp2", M{"alg": "SM2", "SA": v, "SB": S1})
					r.Do("KaResp2", M{"alg": "SM2", "SA": S1, "SB": v})
				}
			}
			for _, v := range append(flips(r, S2, r.Scale(5, 256)), nil, []byte{}, S1, S2[:31], Cat(S2, []byte{0}), make([]byte, 32)) {
				alter("KaInit2", init, nil, "SB", v)
				r.Do("KaResp2", M{"alg": "SM2", "SA": S1, "SB": v})
				r.Do("KaResp2", M{"alg": "SM2", "SA": v, "SB": S1})
				r.Do("KaResp2", M{"alg": "SM2", "SA": v, "SB": v})
			}
			alter("KaInit2", init, nil, "keylen", keylens(r, i+3))
			// PA + xbar*RA = infinity, so that the shared point is infinity
			x := xbar(RA)
			bad := c.mn(new(big.Int).Neg(c.mulN(x, rA)))
			alter(op, resp, M{"la": b32(bad), "lr": b32(rA)}, "pubA", xy(c.mulG(bad)))
			alter("KaInit2", init, nil, "dA", b32(bad))
			rb := &pt{new(big.Int).SetBytes(RB[:32]), new(big.Int).SetBytes(RB[32:])}
			alter("KaInit2", init, nil, "pubB", xy(c.neg(c.mul(xbar(rb), rb))))
			// the same with a confirmation by who takes it for (0, 0)
			inf := M{}
			for k, x := range init {
				inf[k] = x
			}
			inf["SB"] = kaConfirm(r, 2, make([]byte, 64), A, B, xy(RA), RB)
			r.Do("KaInit2", inf)
			alter("KaInit2", inf, nil, "dA", b32(bad))
			P := party{id: B.id, pub: c.neg(c.mul(xbar(rb), rb))}
			inf["SB"] = kaConfirm(r, 2, make([]byte, 64), A, P, xy(RA), RB)
			alter("KaInit2", inf, nil, "pubB", xy(P.pub))
			if op == "KaRespE1" && resp["rnd"].([]byte) != nil {
				alter(op, resp, hint, "dB", b32(c.mn(new(big.Int).Neg(c.mulN(xbar(rb), rB)))))
			}
			// PA + xbar*RA with equal parts
			alter(op, resp, M{"la": b32(c.mulN(x, rA)), "lr": b32(rA)}, "pubA", xy(c.mul(x, RA)))
		}
	}
}

// genKaProto performs the protocol runs that TLC derived from KaProtocol: who
// uses which value, and in which order the steps happen.
func genKaProto(r *Rec) {
	c := curves["SM2"]
	f, err := os.Open(os.Getenv("SCENARIOS"))
	if err != nil {
		panic(err)
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	n := -1
	for sc.Scan() {
		n++
		if r.Skip(n) {
			continue
		}
		var s struct {
			Mode   string     `json:"mode"`
			Subst  [][]string `json:"subst"`
			Keylen int        `json:"keylen"`
		}
		if json.Unmarshal(sc.Bytes(), &s) != nil {
			panic(sc.Text())
		}
		A, B, X := c.party(r, 1+r.Rng.Intn(30)), c.party(r, 1+r.Rng.Intn(30)), c.party(r, 1+r.Rng.Intn(30))
		rA, rB, rX := c.rnd(r), c.rnd(r), c.rnd(r)
		bad := func(who, what string) bool {
			for _, t := range s.Subst {
				if t[0] == who && t[1] == what {
					return true
				}
			}
			return false
		}
		pick := func(who, what string, good, alt []byte) []byte {
			if bad(who, what) {
				return alt
			}
			return good
		}
		RA := xy(c.mulG(rA))
		la, lr := A.d, rA
		if bad("B", "pubA") {
			la = X.d
		}
		if bad("B", "RA") {
			lr = rX
		}
		resp := M{"alg": "SM2", "idA": pick("B", "idA", A.id, X.id), "idB": pick("B", "idB", B.id, X.id), "dB": pick("B", "d", b32(B.d), b32(X.d)),
			"pubB": pick("B", "pubB", xy(B.pub), xy(X.pub)), "pubA": pick("B", "pubA", xy(A.pub), xy(X.pub)), "RA": pick("B", "RA", RA, xy(c.mulG(rX))), "keylen": s.Keylen}
		op := "KaResp1"
		if s.Mode == "elgamal" {
			op = "KaRespE1"
			resp["rnd"] = b32(rB)
		}
		ev := []M{}
		call := func(op string, in, note M) M {
			o := r.Quiet(op, in)
			e := M{"op": op}
			for _, m := range []M{in, note, o} {
				for k, v := range m {
					e[k] = v
				}
			}
			ev = append(ev, e)
			return o
		}
		o := call(op, resp, M{"la": b32(la), "lr": b32(lr)})
		RB := GetB(o, "RB")
		init := M{"alg": "SM2", "idA": pick("A", "idA", A.id, X.id), "idB": pick("A", "idB", B.id, X.id), "dA": pick("A", "d", b32(A.d), b32(X.d)),
			"pubA": pick("A", "pubA", xy(A.pub), xy(X.pub)), "pubB": pick("A", "pubB", xy(B.pub), xy(X.pub)), "rA": pick("A", "r", b32(rA), b32(rX)),
			"RA": pick("A", "RA", RA, xy(c.mulG(rX))), "RB": pick("A", "RB", RB, xy(X.pub)), "SB": pick("A", "SB", GetB(o, "S2"), r.Bytes(32)), "keylen": s.Keylen}
		oi := call("KaInit2", init, nil)
		oc := call("KaResp2", M{"alg": "SM2", "SA": pick("B", "SA", GetB(oi, "S"), r.Bytes(32)), "SB": GetB(o, "S1")}, nil)
		_ = oc
		r.Write(M{"op": "KaRun", "mode": s.Mode, "keylen": s.Keylen, "subst": s.Subst, "ev": ev})
	}
}
