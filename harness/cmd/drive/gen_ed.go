package main

import (
	"crypto/sha256"
	"math/big"

	. "aa/core"
)

func init() {
	gens["C11"] = genEdN
	gens["C12"] = genEdRaw
	gens["C13"] = genKcdsa
	gens["C14"] = genConvert
	gens["C15"] = genEdPoints
}

// edNonPoints: 32-byte strings that Ed25519 must not accept as points.
func edNonPoints(r *Rec) (bs [][]byte) {
	for i := int64(0); i < 19; i++ {
		e := le32(plus(edP, bi(i)))
		bs = append(bs, e)
		f := append([]byte{}, e...)
		f[31] |= 128
		bs = append(bs, f)
	}
	for n := 0; n < 8; {
		y := em(new(big.Int).SetBytes(r.Bytes(32)))
		if elift(y, 0) == nil {
			n++
			bs = append(bs, le32(y))
		}
	}
	for y := int64(2); y < 12; y++ {
		if elift(bi(y), 0) == nil {
			bs = append(bs, le32(bi(y)), le32(sub(edP, bi(y))))
		}
	}
	one, mone := le32(bi(1)), le32(sub(edP, bi(1)))
	one[31] |= 128
	mone[31] |= 128
	return append(bs, one, mone)
}

func msgOf(r *Rec, i int) []byte {
	ns := []int{0, 1, 31, 32, 33, 47, 48, 63, 64, 65, 95, 111, 112, 127, 128, 129, 160, 191, 192, 200, 239, 240, 255, 256, 1000, 4096}
	switch {
	case i%4 == 3:
		return r.Bytes(r.Rng.Intn(300))
	case i == 0:
		return nil
	}
	return content(r, ns[i%len(ns)], i)
}

// longMessages signs messages whose length needs more than two bytes, alone or with
// what is hashed beside them.
func longMessages(r *Rec, alg string) {
	ns := []int{8192, 16384, 32704, 32736, 32767, 32768, 65407, 65408, 65440, 65471, 65472, 65473, 65503, 65504, 65535, 65536, 65537, 100000, 131072}
	for i, n := range ns {
		if r.Skip(i) {
			continue
		}
		key := append([]byte{}, r.Bytes(32)...)
		key[0] &= 0x1f
		m := r.Bytes(n)
		pub := GetB(r.Quiet("GenPubkey", M{"alg": alg, "key": key}), "out")
		sig := GetB(r.Do("Signature", M{"alg": alg, "key": key, "msg": m}), "out")
		for _, t := range [][]byte{m, m[:n-1], m[:n&0x7fff], m[:n&0x1fff]} {
			r.Do("Verify", M{"alg": alg, "pub": pub, "msg": t, "sig": sig})
		}
		for _, j := range []int{0, n / 2, n - 1} {
			t := append([]byte{}, m...)
			t[j] ^= 1
			r.Do("Verify", M{"alg": alg, "pub": pub, "msg": t, "sig": sig})
		}
	}
}

func edAlterations(r *Rec, v func(pub, m, sig []byte), pub, m, sig []byte, n int) {
	for _, f := range flips(r, sig, n) {
		v(pub, m, f)
	}
	for _, f := range flips(r, pub, n/2) {
		v(f, m, sig)
	}
	if len(m) > 0 {
		for _, f := range flips(r, m, n/4+1) {
			v(pub, f, sig)
		}
		v(pub, m[:len(m)-1], sig)
	}
	v(pub, Cat(m, []byte{0}), sig)
	R, S := sig[:32], fromLE(sig[32:])
	for j := int64(1); j <= 16; j++ {
		if w := plus(S, new(big.Int).Mul(edL, bi(j))); w.BitLen() <= 256 {
			v(pub, m, Cat(R, le32(w)))
		}
	}
	v(pub, m, Cat(R, le32(lm(new(big.Int).Neg(S)))))
	Rn := append([]byte{}, R...)
	Rn[31] ^= 128
	v(pub, m, Cat(Rn, le32(S)))
	v(pub, m, Cat(Rn, le32(lm(new(big.Int).Neg(S)))))
	v(pub, m, Cat(sig[32:], R))
	for _, w := range []*big.Int{bi(0), sub(edL, bi(1)), edL, sub(new(big.Int).Lsh(bi(1), 256), bi(1))} {
		v(pub, m, Cat(R, le32(w)))
		v(pub, m, Cat(make([]byte, 32), le32(w)))
	}
}

func genEdN(r *Rec) {
	longMessages(r, "EDN")
	v := func(pub, m, sig []byte) { r.Do("Verify", M{"alg": "EDN", "pub": pub, "msg": m, "sig": sig}) }
	seeds := [][]byte{make([]byte, 32), le32(sub(new(big.Int).Lsh(bi(1), 256), bi(1)))}
	for len(seeds) < r.Scale(150, 2500) {
		seeds = append(seeds, r.Bytes(32))
	}
	other := r.Bytes(32)
	op := GetB(r.Quiet("GenPubkey", M{"alg": "EDN", "key": other}), "out")
	for i, s := range seeds {
		if r.Skip(i) {
			continue
		}
		pub := GetB(r.Do("GenPubkey", M{"alg": "EDN", "key": s}), "out")
		m := msgOf(r, i)
		var id []byte
		if i%5 == 0 {
			id = r.Bytes(3)
		}
		sig := GetB(r.Do("Signature", M{"alg": "EDN", "key": s, "msg": m, "id": id}), "out")
		if len(sig) != 64 || len(pub) != 32 {
			continue
		}
		v(pub, m, sig)
		if i < r.Scale(40, 200) {
			edAlterations(r, v, pub, m, sig, r.Scale(12, 256))
			v(op, m, sig)
		}
		if i < 8 {
			for _, b := range resized(s) {
				r.Do("GenPubkey", M{"alg": "EDN", "key": b})
				r.Do("Signature", M{"alg": "EDN", "key": b, "msg": m})
			}
			for _, b := range resized(sig) {
				v(pub, m, b)
			}
			for _, b := range resized(pub) {
				v(b, m, sig)
			}
		}
		if i < 24 {
			for _, b := range edNonPoints(r) {
				v(b, m, sig)
				v(pub, m, Cat(b, sig[32:]))
			}
		}
	}
	edCrafted(r, v)
}

// edCrafted: signatures by construction, for keys with every torsion part.
func edCrafted(r *Rec, v func(pub, m, sig []byte)) {
	T := torsion()
	for i := 0; i < r.Scale(160, 1600); i++ {
		if r.Skip(i) {
			continue
		}
		t := T[i%8]
		a := new(big.Int).SetBytes(r.Bytes(31))
		if i%3 == 0 {
			a = bi(int64(i / 3 % 2)) // pure torsion, or B + torsion
		}
		A := eadd(emulB(a), t)
		pub := eenc(A)
		rr := lm(new(big.Int).SetBytes(r.Bytes(32)))
		if i%7 == 0 {
			rr = bi(int64(i % 3))
		}
		// R = r B + u: valid exactly when u = -h t
		for j := 0; j < 40; j++ {
			m := r.Bytes(4 + j%3)
			u := T[r.Rng.Intn(8)]
			R := eenc(eadd(emulB(rr), u))
			h := hashL(R, pub, m)
			S := lm(plus(rr, lmul(h, a)))
			ht := escale(lm(h), t)
			ok := eadd(ht, u)
			good := ok.x.Sign() == 0 && ok.y.Cmp(bi(1)) == 0
			if good || j < 2 {
				v(pub, m, Cat(R, le32(S)))
				v(pub, m, Cat(R, le32(plus(S, edL))))
				if good {
					// the same with other writings of the key and R
					for _, b := range nonCanonical(A) {
						v(b, m, Cat(R, le32(S)))
					}
					for _, b := range nonCanonical(eadd(emulB(rr), u)) {
						v(pub, m, Cat(b, le32(S)))
						hb := hashL(b, pub, m)
						v(pub, m, Cat(b, le32(lm(plus(rr, lmul(hb, a))))))
					}
					break
				}
			}
		}
	}
	// under a key of small order any S is valid with R = S B, if h is a multiple of it
	for i, S := range around(edL) {
		if r.Skip(i) {
			continue
		}
		R := eenc(emulB(S))
		v(eenc(&epoint{bi(0), bi(1)}), r.Bytes(i%9), Cat(R, le32(S)))
		t := T[i%8]
		for j := 0; j < 60; j++ {
			m := r.Bytes(5)
			if w := escale(hashL(R, eenc(t), m), t); w.x.Sign() == 0 && w.y.Cmp(bi(1)) == 0 {
				v(eenc(t), m, Cat(R, le32(S)))
				break
			}
		}
	}
	// the identity and other torsion keys written in every way, S chosen freely
	id := &epoint{bi(0), bi(1)}
	for i, S := range []*big.Int{bi(0), bi(1), bi(2), sub(edL, bi(1)), sub(edL, bi(2)), edL, lm(new(big.Int).SetBytes(r.Bytes(32)))} {
		if r.Skip(i) {
			continue
		}
		R := eenc(emulB(S))
		for _, t := range T {
			for _, b := range append(nonCanonical(t), eenc(t)) {
				v(b, []byte("m"), Cat(R, le32(S)))
				v(b, r.Bytes(7), Cat(R, le32(S)))
			}
		}
		for _, b := range nonCanonical(id) {
			v(eenc(id), []byte("m"), Cat(b, le32(S)))
		}
	}
}

// nonCanonical: other byte strings that a careless decoder takes for p.
func nonCanonical(p *epoint) (bs [][]byte) {
	if y := plus(p.y, edP); y.BitLen() <= 255 {
		b := le32(y)
		b[31] |= byte(p.x.Bit(0)) << 7
		bs = append(bs, b)
	}
	if p.x.Sign() == 0 {
		b := eenc(p)
		b[31] ^= 128
		bs = append(bs, b)
		if y := plus(p.y, edP); y.BitLen() <= 255 {
			b := le32(y)
			b[31] |= 128
			bs = append(bs, b)
		}
	}
	return
}

func genEdRaw(r *Rec) {
	for _, alg := range []string{"ED", "X25519"} {
		alg := alg
		longMessages(r, alg)
		v := func(pub, m, sig []byte) { r.Do("Verify", M{"alg": alg, "pub": pub, "msg": m, "sig": sig}) }
		ks := scalarExtremes(r, r.Scale(20, 400))
		for i := 0; i < r.Scale(60, 1500); i++ {
			ks = append(ks, new(big.Int).SetBytes(r.Bytes(32)))
			ks = append(ks, fromLE(clampBytes(r.Bytes(32))))
		}
		op := GetB(r.Quiet("GenPubkey", M{"alg": alg, "key": r.Bytes(32)}), "out")
		for i, k := range ks {
			if r.Skip(i) {
				continue
			}
			key := le32(k)
			pub := GetB(r.Do("GenPubkey", M{"alg": alg, "key": key}), "out")
			m := msgOf(r, i/3*4+i%3)
			sig := GetB(r.Do("Signature", M{"alg": alg, "key": key, "msg": m}), "out")
			if len(sig) != 64 || len(pub) != 32 {
				continue
			}
			v(pub, m, sig)
			if i%4 == 0 {
				edAlterations(r, v, pub, m, sig, r.Scale(8, 128))
				v(op, m, sig)
				for bit := uint(4); bit < 8; bit++ {
					f := append([]byte{}, sig...)
					f[63] ^= 1 << bit
					v(pub, m, f)
					f[63] ^= 128
					v(pub, m, f)
					p := append([]byte{}, pub...)
					p[31] ^= 1 << bit
					v(p, m, sig)
				}
			}
			if i < 60 && i%8 == r.Part {
				for _, b := range resized(key) {
					r.Do("GenPubkey", M{"alg": alg, "key": b})
					r.Do("Signature", M{"alg": alg, "key": b, "msg": m})
				}
				for _, b := range resized(sig) {
					v(pub, m, b)
				}
				for _, b := range resized(pub) {
					v(b, m, sig)
				}
				for _, b := range edNonPoints(r) {
					v(b, m, sig)
					v(pub, m, Cat(b, sig[32:]))
				}
			}
		}
		if alg == "ED" {
			edCrafted(r, v)
			continue
		}
		// X25519: crafted signatures under u of every kind
		T := torsion()
		us := []*big.Int{}
		for u := int64(0); u < 40; u++ {
			us = append(us, bi(u), sub(edP, bi(u+1)))
			if u < 19 {
				us = append(us, plus(edP, bi(u)))
			}
		}
		for _, t := range T {
			us = append(us, ytou(t.y))
		}
		for i, u := range us {
			if r.Skip(i) {
				continue
			}
			for sign := byte(0); sign < 2; sign++ {
				pt := elift(utoy(em(u)), uint(sign))
				S := lm(new(big.Int).SetBytes(r.Bytes(32)))
				R := eenc(emulB(S))
				sg := Cat(R, le32(S))
				sg[63] |= sign << 7
				v(le32(u), r.Bytes(5), sg)
				if pt == nil {
					continue
				}
				// if the key is torsion, some message makes h a multiple of its order
				e := le32(utoy(em(u)))
				e[31] |= sign << 7
				for j := 0; j < 40; j++ {
					m := r.Bytes(6)
					w := escale(hashL(R, e, m), pt)
					if w.x.Sign() == 0 && w.y.Cmp(bi(1)) == 0 {
						v(le32(u), m, sg)
						tb := le32(u)
						tb[31] ^= 128
						v(tb, m, sg)
						f := append([]byte{}, sg...)
						f[63] ^= 128
						v(le32(u), m, f)
						break
					}
				}
			}
		}
		for i, S := range around(edL) {
			t := T[i%8]
			if r.Skip(i) || t.y.Cmp(bi(1)) == 0 || S.BitLen() > 255 {
				continue
			}
			R := eenc(emulB(S))
			e := eenc(t)
			for j := 0; j < 60; j++ {
				m := r.Bytes(6)
				if w := escale(hashL(R, e, m), t); w.x.Sign() == 0 && w.y.Cmp(bi(1)) == 0 {
					sg := Cat(R, le32(S))
					sg[63] |= e[31] & 128
					v(le32(ytou(t.y)), m, sg)
					break
				}
			}
		}
		for i := 0; i < r.Scale(40, 400); i++ { // known keys with torsion added: u of a*B + t
			if r.Skip(i) {
				continue
			}
			a := lm(new(big.Int).SetBytes(r.Bytes(32)))
			t := T[i%8]
			A := eadd(emulB(a), t)
			pub := eenc(A)
			for j := 0; j < 40; j++ {
				m := r.Bytes(6)
				rr := lm(new(big.Int).SetBytes(r.Bytes(32)))
				R := eenc(emulB(rr))
				h := hashL(R, pub, m)
				w := escale(h, t)
				if (w.x.Sign() == 0 && w.y.Cmp(bi(1)) == 0) || j == 0 {
					sg := Cat(R, le32(lm(plus(rr, lmul(h, a)))))
					sg[63] |= byte(A.x.Bit(0)) << 7
					v(le32(ytou(A.y)), m, sg)
					if j > 0 {
						break
					}
				}
			}
		}
	}
}

// Montgomery points, for EC-KCDSA.
func kcdsaKey(k []byte) *big.Int { return fromLE(clampBytes(k)) }

var gv = hx("5f51e65e475f794b1fe122d388b72eb36dc2b28192839e4dd6163a5d81312c14")

// edOfMont is the Edwards point whose Montgomery image is (u, v).
func edOfMont(u, v *big.Int) *epoint {
	c := emul(edB.x, emul(gv, einv(bi(9)))) // x = c * u / v
	return &epoint{emul(c, emul(u, einv(v))), utoy(u)}
}

// absPoint: the point with u and even v, if u is on the curve.
func absPoint(u *big.Int) *epoint {
	r := plus(plus(emul(u, emul(u, u)), emul(bi(486662), emul(u, u))), u)
	v := new(big.Int).ModSqrt(em(r), edP)
	if v == nil {
		return nil
	}
	if v.Bit(0) == 1 {
		v = em(new(big.Int).Neg(v))
	}
	return edOfMont(u, v)
}

func genKcdsa(r *Rec) {
	longMessages(r, "KCDSA")
	v := func(pub, m, sig []byte) { r.Do("Verify", M{"alg": "KCDSA", "pub": pub, "msg": m, "sig": sig}) }
	ks := scalarExtremes(r, r.Scale(20, 400))
	for i := 0; i < r.Scale(120, 2500); i++ {
		ks = append(ks, new(big.Int).SetBytes(r.Bytes(32)))
	}
	// clamped scalars congruent to small numbers
	for m := int64(4); m < 8; m++ {
		for d := int64(-40); d <= 40; d++ {
			k := plus(new(big.Int).Mul(edL, bi(m)), bi(d))
			if new(big.Int).Mod(k, bi(8)).Sign() == 0 && k.BitLen() == 255 {
				ks = append(ks, k)
			}
		}
	}
	for i, k := range ks {
		if r.Skip(i) {
			continue
		}
		key := le32(k)
		pub := GetB(r.Do("GenPubkey", M{"alg": "KCDSA", "key": key}), "out")
		m := msgOf(r, i)
		sig := GetB(r.Do("Signature", M{"alg": "KCDSA", "key": key, "msg": m}), "out")
		if len(sig) != 64 || len(pub) != 32 {
			continue
		}
		v(pub, m, sig)
		if i%3 == 0 {
			for _, f := range flips(r, sig, r.Scale(12, 256)) {
				v(pub, m, f)
			}
			for _, f := range flips(r, pub, r.Scale(6, 128)) {
				v(f, m, sig)
			}
			if len(m) > 0 {
				for _, f := range flips(r, m, 4) {
					v(pub, f, sig)
				}
				v(pub, m[:len(m)-1], sig)
			}
			v(pub, Cat(m, []byte{0}), sig)
			V := fromLE(sig[:32])
			for j := int64(1); j <= 16; j++ {
				if w := plus(V, new(big.Int).Mul(edL, bi(j))); w.BitLen() <= 256 {
					v(pub, m, Cat(le32(w), sig[32:]))
				}
			}
			v(pub, m, Cat(le32(lm(new(big.Int).Neg(V))), sig[32:]))
			u := append([]byte{}, pub...)
			u[31] |= 128
			v(u, m, sig)
		}
		if i < 64 && i%8 == r.Part {
			for _, b := range resized(key) {
				r.Do("GenPubkey", M{"alg": "KCDSA", "key": b})
				r.Do("Signature", M{"alg": "KCDSA", "key": b, "msg": m})
			}
			for _, b := range resized(sig) {
				v(pub, m, b)
			}
			for _, b := range resized(pub) {
				v(b, m, sig)
			}
		}
	}
	// signatures by construction: any nonce (also 0 and small ones), small v
	for i := 0; i < r.Scale(160, 2000); i++ {
		if r.Skip(i) {
			continue
		}
		a := lm(new(big.Int).SetBytes(r.Bytes(32)))
		if i < 40 {
			a = bi(int64(i + 2))
		}
		P := emulB(a)
		u := ytou(P.y)
		abs := absPoint(u)
		s := a
		if abs.x.Cmp(P.x) != 0 {
			s = lm(new(big.Int).Neg(a))
		}
		s = new(big.Int).ModInverse(s, edL)
		m := r.Bytes(i % 70)
		mm := sha256.Sum256(m)
		x := lm(new(big.Int).SetBytes(r.Bytes(32)))
		if i%4 == 0 {
			x = bi(int64(i / 4 % 6))
		}
		X := emulB(x)
		Y := ytou(X.y)
		if x.Sign() == 0 {
			Y = bi(0)
		}
		h := sha256.Sum256(Cat(mm[:], le32(Y)))
		V := lmul(sub(x, fromLE(h[:])), s)
		v(le32(u), m, Cat(le32(V), h[:]))
		w := lmul(plus(x, fromLE(h[:])), s)
		v(le32(u), m, Cat(le32(w), h[:]))
		if u2 := plus(u, edP); u2.BitLen() <= 256 {
			v(le32(u2), m, Cat(le32(V), h[:]))
		}
	}
	// the key for which a chosen v is right: v P = x - h
	for i, V := range around(edL) {
		if r.Skip(i) || lm(V).Sign() == 0 {
			continue
		}
		m := r.Bytes(i % 70)
		mm := sha256.Sum256(m)
		x := lm(new(big.Int).SetBytes(r.Bytes(32)))
		h := sha256.Sum256(Cat(mm[:], le32(ytou(emulB(x).y))))
		for _, w := range []*big.Int{x, lm(new(big.Int).Neg(x))} {
			P := emulB(lmul(sub(w, fromLE(h[:])), new(big.Int).ModInverse(lm(V), edL)))
			if u := ytou(P.y); absPoint(u).x.Cmp(P.x) == 0 {
				v(le32(u), m, Cat(le32(V), h[:]))
			}
		}
	}
	// keys that are no public keys: the twist, torsion, unreduced
	T := torsion()
	for i, u := range fieldExtremes(r, r.Scale(60, 400)) {
		if r.Skip(i) || u.Cmp(bi(9)) == 0 {
			continue
		}
		m := r.Bytes(9)
		v(le32(u), m, Cat(le32(lm(new(big.Int).SetBytes(r.Bytes(32)))), r.Bytes(32)))
		// v = 0: Y = hG whatever the key; h cannot be found, but Y = 0, G can be tried
		mm := sha256.Sum256(m)
		for _, y := range []*big.Int{bi(0), bi(9), bi(1), em(u)} {
			h := sha256.Sum256(Cat(mm[:], le32(y)))
			v(le32(u), m, Cat(make([]byte, 32), h[:]))
		}
	}
	// keys for which formulas may degenerate, with the hash of a degenerate Y
	for i, u := range lowOrder() {
		if r.Skip(i) {
			continue
		}
		for j := int64(0); j < 8; j++ {
			m := r.Bytes(9)
			mm := sha256.Sum256(m)
			for _, y := range []*big.Int{bi(0), bi(1), bi(9), u, einv(u), sub(edP, bi(1))} {
				h := sha256.Sum256(Cat(mm[:], le32(y)))
				V := bi(j)
				if j > 4 {
					V = lm(new(big.Int).SetBytes(r.Bytes(32)))
				}
				v(le32(u), m, Cat(le32(V), h[:]))
			}
		}
	}
	for i, t := range T {
		if !r.Skip(i) {
			v(le32(ytou(t.y)), []byte("m"), Cat(make([]byte, 32), r.Bytes(32)))
		}
	}
}

func genConvert(r *Rec) {
	top := new(big.Int).Lsh(bi(1), 255)
	xs := fieldExtremes(r, r.Scale(400, 6000))
	for i := int64(0); i < int64(r.Scale(600, 4000)); i++ {
		xs = append(xs, bi(i), sub(edP, bi(i)), new(big.Int).SetBytes(r.Bytes(32)))
	}
	for _, t := range torsion() {
		xs = append(xs, t.y, ytou(t.y))
	}
	xs = append(xs, around(edP)...)
	for i, x := range xs {
		if r.Skip(i) {
			continue
		}
		for _, w := range []*big.Int{x, plus(x, top)} {
			if w.BitLen() > 256 {
				continue
			}
			for _, op := range []string{"X_to_Ed", "Ed_to_X"} {
				o := r.Do(op, M{"p": le32(w)})
				if b := GetB(o, "out"); b != nil && i%4 == 0 {
					r.Do(map[string]string{"X_to_Ed": "Ed_to_X", "Ed_to_X": "X_to_Ed"}[op], M{"p": b})
				}
			}
		}
	}
	for i := 0; i < r.Scale(100, 1000); i++ {
		if r.Skip(i) {
			continue
		}
		k := r.Bytes(32)
		ed := GetB(r.Do("GenPubkey", M{"alg": "ED", "key": k}), "out")
		x := GetB(r.Do("GenPubkey", M{"alg": "X25519", "key": k}), "out")
		r.Do("Ed_to_X", M{"p": ed})
		r.Do("X_to_Ed", M{"p": x})
	}
	for _, b := range resized(r.Bytes(32)) {
		r.Do("X_to_Ed", M{"p": b})
		r.Do("Ed_to_X", M{"p": b})
	}
}

func genEdPoints(r *Rec) {
	T := torsion()
	ps := []*epoint{}
	for i := int64(0); i < 9; i++ {
		ps = append(ps, emulB(bi(i)), eneg(emulB(bi(i))))
	}
	ps = append(ps, T...)
	for _, y := range fieldExtremes(r, r.Scale(40, 400)) {
		if y.Cmp(edP) < 0 {
			if p := elift(y, uint(r.Rng.Intn(2))); p != nil {
				ps = append(ps, p)
			}
		}
	}
	for i := 0; i < r.Scale(60, 600); i++ {
		ps = append(ps, eadd(emulB(new(big.Int).SetBytes(r.Bytes(32))), T[i%8]))
	}
	ks := scalarExtremes(r, r.Scale(40, 400))
	if r.Thorough() {
		ks = append(ks, around(edL)...)
	}
	for i := 0; i < r.Scale(60, 800); i++ {
		ks = append(ks, new(big.Int).SetBytes(r.Bytes(32)))
	}
	base := func(k *big.Int) { r.Do("Point_mulBaseG", M{"alg": "ED", "k": le32(k)}) }
	madd := func(p []byte, k *big.Int) M {
		return r.Do("Point_mulBaseG_add", M{"alg": "ED", "p": p, "k": le32(k)})
	}
	padd := func(p, q []byte) M { return r.Do("Point_add", M{"alg": "ED", "p": p, "q": q}) }
	for i, k := range ks {
		if r.Skip(i) {
			continue
		}
		base(k)
		madd(eenc(ps[r.Rng.Intn(len(ps))]), k)
		madd(eenc(eneg(emulB(k))), k) // infinity
		madd(eenc(emulB(k)), k)
		madd(eenc(eadd(eneg(emulB(k)), T[i%8])), k)
		madd(eenc(&epoint{bi(0), bi(1)}), k)
	}
	for i, p := range ps {
		if r.Skip(i) {
			continue
		}
		e := eenc(p)
		padd(e, e)
		padd(e, eenc(eneg(p)))
		padd(e, eenc(T[i%8]))
		padd(eenc(eadd(eneg(p), T[i%8])), e)
		for j := 0; j < r.Scale(4, 20); j++ {
			q := ps[r.Rng.Intn(len(ps))]
			padd(e, eenc(q))
			padd(eenc(q), e)
		}
		// the point as a result
		k := new(big.Int).SetBytes(r.Bytes(32))
		padd(eenc(eadd(p, eneg(emulB(k)))), eenc(emulB(k)))
		madd(eenc(eadd(p, eneg(emulB(k)))), k)
		madd(e, ks[r.Rng.Intn(len(ks))])
		madd(e, bi(0))
		madd(e, edL)
	}
	for i, b := range append(edNonPoints(r), resized(eenc(edB))...) {
		if r.Skip(i) {
			continue
		}
		padd(b, eenc(edB))
		padd(eenc(edB), b)
		padd(b, b)
		madd(b, bi(1))
		madd(b, bi(0))
	}
	for _, t := range T {
		for _, b := range nonCanonical(t) {
			padd(b, eenc(edB))
			madd(b, bi(1))
		}
	}
	for _, b := range resized(le32(bi(3))) {
		r.Do("Point_mulBaseG", M{"alg": "ED", "k": b})
		r.Do("Point_mulBaseG_add", M{"alg": "ED", "k": b, "p": eenc(edB)})
	}
	r.Do("GetCurveOrder", M{"alg": "ED"})
	// a chain: each result is the next argument
	p := GetB(r.Quiet("Point_mulBaseG", M{"alg": "ED", "k": le32(bi(int64(1 + r.Part)))}), "out")
	for i := 0; i < r.Scale(60, 600); i++ {
		var o M
		switch r.Rng.Intn(4) {
		case 0:
			o = padd(p, p)
		case 1:
			o = padd(p, eenc(ps[r.Rng.Intn(len(ps))]))
		default:
			o = madd(p, ks[r.Rng.Intn(len(ks))])
		}
		if b := GetB(o, "out"); len(b) == 32 {
			p = b
		}
	}
}
