package main

import (
	"math/big"

	. "aa/core"
)

func init() {
	gens["C01"] = genVerify
	gens["C02"] = genSign
	gens["C03"] = genRecover
	gens["C05"] = genKeys
	gens["C06"] = genPoints
	gens["C07"] = genCompress
}

func genVerify(r *Rec) {
	for _, a := range []string{"K1", "R1"} {
		c := curves[a]
		v := func(pub, h, sig []byte) {
			in := M{"alg": a, "pub": pub, "id": []byte(nil), "msg": h, "sig": sig}
			switch r.Rng.Intn(6) {
			case 0:
				in["id"] = r.Bytes(5)
			case 1:
				in["id"] = []byte{}
			}
			r.Do("Verify", in)
		}
		sg := func(x, y *big.Int) []byte { return Cat(b32(x), b32(y)) }
		use := func(q *pt, e, x, y *big.Int) {
			if q != nil && e != nil {
				v(xy(q), b32(e), sg(x, y))
			}
		}
		// signatures made by the library
		for i := 0; i < r.Scale(60, 400); i++ {
			if r.Skip(i) {
				continue
			}
			d, h := c.rnd(r), r.Bytes(32)
			o := r.Quiet("Signature", M{"alg": a, "key": b32(d), "id": []byte(nil), "msg": h})
			sig := GetB(o, "out")
			if len(sig) != 64 {
				sig = r.Bytes(64)
			}
			q := xy(c.mulG(d))
			v(q, h, sig)
			x, y := new(big.Int).SetBytes(sig[:32]), new(big.Int).SetBytes(sig[32:])
			v(q, h, sg(x, c.mn(sub(c.n, y)))) // the high-s twin is valid too
			if i < r.Scale(3, 10) {
				nf := r.Scale(40, 1<<20)
				for _, f := range flips(r, sig, nf) {
					v(q, h, f)
				}
				for _, f := range flips(r, h, nf) {
					v(q, f, sig)
				}
				for _, f := range flips(r, q, nf) {
					v(f, h, sig)
				}
				for _, f := range resized(sig) {
					v(q, h, f)
				}
				for _, f := range resized(h) {
					v(q, f, sig)
				}
				for _, f := range resized(q) {
					v(f, h, sig)
				}
				v(full(c.mulG(d)), h, sig)
				v(comp(c.mulG(d)), h, sig)
				v(xy(c.neg(c.mulG(d))), h, sig)
				for _, w := range []*big.Int{bi(0), bi(1), sub(c.n, bi(1)), c.n, plus(c.n, bi(1)), c.p, sub(new(big.Int).Lsh(bi(1), 256), bi(1))} {
					v(q, h, sg(w, y))
					v(q, h, sg(x, w))
					v(q, b32(w), sg(x, y))
					v(q, h, sg(w, w))
				}
				v(q, h, sg(y, x))
				for _, t := range c.nonPoints(r) {
					v(t, h, sig)
				}
			}
		}
		// valid signatures for keys of every kind, by construction
		ps := c.points(r, r.Scale(10, 200))
		for i, q := range ps {
			if r.Skip(i) {
				continue
			}
			u1, u2 := c.rnd(r), c.rnd(r)
			switch i % 7 {
			case 0:
				u1 = bi(0)
			case 1:
				u1 = bi(1)
			case 2:
				u2 = bi(1)
			case 3:
				u2 = sub(c.n, bi(1))
			case 4:
				u1 = sub(c.n, bi(1))
			}
			e, x, y := c.forge(q, u1, u2)
			use(q, e, x, y)
			if e != nil {
				if t := plus(e, c.n); t.BitLen() <= 256 {
					use(q, t, x, y)
				}
			}
			use(c.neg(q), e, x, y)
		}
		// special multipliers
		ks := c.scalars(r, true, 10)
		for i := 0; i < r.Scale(120, len(ks)); i++ {
			if r.Skip(i) {
				continue
			}
			q := c.mulG(c.rnd(r))
			e, x, y := c.forge(q, ks[r.Rng.Intn(len(ks))], ks[i*7%len(ks)])
			use(q, e, x, y)
		}
		for i := 0; i < r.Scale(25, 200); i++ {
			if r.Skip(i) {
				continue
			}
			d := c.rnd(r)
			if i < 8 {
				d = []*big.Int{bi(1), bi(2), bi(3), sub(c.n, bi(1)), sub(c.n, bi(2)), new(big.Int).Rsh(c.n, 1), bi(16), bi(255)}[i]
			}
			q := c.mulG(d)
			// u1*G = u2*Q (the two parts are equal)
			t := c.rnd(r)
			u2 := c.mulN(t, c.invN(new(big.Int).Lsh(d, 1)))
			e, x, y := c.forge(q, c.mulN(u2, d), u2)
			use(q, e, x, y)
			// u1*G = -u2*Q (the sum is infinity): r, s arbitrary
			x, y = c.rnd(r), c.rnd(r)
			if i%4 == 0 {
				x = c.mn(q.x)
			}
			if i%4 == 1 {
				x = bi(int64(i))
			}
			use(q, c.mn(new(big.Int).Neg(c.mulN(x, d))), x, y)
			// u1*G = k*u2*Q
			u2 = c.rnd(r)
			for _, m := range []int64{2, -2, 3, 16} {
				e, x, y = c.forge(q, c.mulN(c.mulN(u2, d), c.mn(bi(m))), u2)
				use(q, e, x, y)
			}
		}
		// nonce points with chosen x: small, just below and above n, leading zeros
		xs := c.extremes(r, 30)
		for i := int64(0); i < int64(r.Scale(12, 60)); i++ {
			xs = append(xs, plus(c.n, bi(i)), sub(c.n, bi(i)), bi(i), sub(c.p, bi(i)), new(big.Int).SetBytes(r.Bytes(20)))
		}
		for i, x := range xs {
			if r.Skip(i) {
				continue
			}
			R := c.lift(x, uint(i&1))
			if R == nil || c.mn(R.x).Sign() == 0 {
				continue
			}
			e, y := c.rnd(r), c.rnd(r)
			if i%3 == 0 {
				y = bi(int64(1 + i))
			}
			q := c.keyFor(R, e, y)
			x := c.mn(R.x)
			use(q, e, x, y)
			use(q, e, R.x, y) // r not reduced when x >= n
			if w := plus(x, c.n); w.BitLen() <= 256 {
				use(q, e, w, y)
			}
			if w := plus(y, c.n); w.BitLen() <= 256 {
				use(q, e, x, w)
			}
			use(q, e, x, c.mn(sub(c.n, y)))
			use(q, e, plus(x, bi(1)), y)
		}
		// r and s around the order, right but for their range
		for i, w := range around(c.n) {
			if r.Skip(i) {
				continue
			}
			if y := c.mn(w); y.Sign() != 0 {
				R, e := c.mulG(c.rnd(r)), c.rnd(r)
				use(c.keyFor(R, e, y), e, c.mn(R.x), w)
			}
			if R := c.lift(c.mn(w), uint(i&1)); R != nil && c.mn(w).Sign() != 0 {
				e, y := c.rnd(r), c.rnd(r)
				use(c.keyFor(R, e, y), e, w, y)
			}
		}
		for i := 0; i < r.Scale(20, 200); i++ {
			v(r.Bytes(64), r.Bytes(32), r.Bytes(64))
			v(xy(c.mulG(c.rnd(r))), r.Bytes(32), r.Bytes(64))
		}
	}
}

func hashes(c *wei, r *Rec, i int) []byte {
	switch i % 9 {
	case 0:
		return make([]byte, 32)
	case 1:
		return b32(c.n)
	case 2:
		return b32(sub(c.n, bi(1)))
	case 3:
		return b32(sub(new(big.Int).Lsh(bi(1), 256), bi(1)))
	case 4:
		return b32(plus(c.n, bi(1)))
	case 5:
		return b32(bi(1))
	}
	return r.Bytes(32)
}

func genSign(r *Rec) {
	for _, a := range []string{"K1", "R1"} {
		c := curves[a]
		s := func(k, h []byte) {
			in := M{"alg": a, "key": k, "id": []byte(nil), "msg": h}
			if r.Rng.Intn(5) == 0 {
				in["id"] = r.Bytes(r.Rng.Intn(9))
			}
			r.Do("Signature", in)
		}
		for i, k := range c.scalars(r, false, r.Scale(60, 600)) {
			if r.Skip(i) {
				continue
			}
			s(b32(k), hashes(c, r, i))
		}
		for i := 0; i < r.Scale(400, 6000); i++ {
			if r.Skip(i) {
				continue
			}
			s(b32(c.rnd(r)), r.Bytes(32))
		}
		k := c.rnd(r)
		for i := 0; i < r.Scale(200, 3000); i++ {
			if r.Skip(i) {
				continue
			}
			s(b32(k), hashes(c, r, i))
		}
		for _, b := range resized(b32(k)) {
			s(b, r.Bytes(32))
		}
		for _, b := range resized(r.Bytes(32)) {
			s(b32(k), b)
		}
	}
}

func genRecover(r *Rec) {
	for _, a := range weiAlgs {
		c := curves[a]
		rec := func(sig, h []byte) { r.Do("RecoverPubkey", M{"alg": a, "sig": sig, "msg": h}) }
		sg := func(x, y *big.Int, v byte) []byte { return Cat(b32(x), b32(y), []byte{v}) }
		for i := 0; i < r.Scale(250, 2500); i++ {
			if r.Skip(i) {
				continue
			}
			d, h := c.rnd(r), hashes(c, r, i)
			if ks := c.scalars(r, true, 0); i < 40 {
				d = ks[r.Rng.Intn(len(ks))]
			}
			var id []byte
			msg := h
			if a == "SM2" && i%2 == 1 {
				id = r.Bytes(r.Rng.Intn(20))
			}
			o := r.Quiet("Signature", M{"alg": a, "key": b32(d), "id": id, "msg": h})
			sig := GetB(o, "out")
			v, _ := o["v"].(int)
			if len(sig) != 64 {
				continue
			}
			q := c.mulG(d)
			if id != nil { // recovery takes the digest e
				z := Cat([]byte{byte(8 * len(id) >> 8), byte(8 * len(id))}, id, b32(c.a), b32(c.b), xy(c.g), xy(q))
				za := GetB(r.Quiet("Hash", M{"alg": "SM3", "data": z, "len": 0}), "out")
				msg = GetB(r.Quiet("Hash", M{"alg": "SM3", "data": Cat(za, h), "len": 0}), "out")
			}
			full := Cat(sig, []byte{byte(v)})
			r.Call("RecoverPubkey", M{"alg": a, "sig": full, "msg": msg}, M{"signer": b32(d)})
			x, y := new(big.Int).SetBytes(sig[:32]), new(big.Int).SetBytes(sig[32:])
			rec(sg(x, y, byte(1-v)), msg)
			if a != "SM2" {
				rec(sg(x, sub(c.n, y), byte(1-v)), msg)
			}
			if i < r.Scale(4, 10) {
				for w := 0; w < 256; w += r.Scale(9, 1) {
					rec(sg(x, y, byte(w)), msg)
				}
				rec(sg(x, y, 2), msg)
				rec(sg(x, y, 3), msg)
				rec(sg(x, y, 4), msg)
				rec(sg(x, y, 27), msg)
				rec(sg(x, y, 28), msg)
				for _, f := range flips(r, full, r.Scale(60, 1<<20)) {
					rec(f, msg)
				}
				for _, f := range flips(r, msg, r.Scale(20, 1<<20)) {
					rec(full, f)
				}
				for _, f := range resized(full) {
					rec(f, msg)
				}
				for _, f := range resized(msg) {
					rec(full, f)
				}
				for _, w := range []*big.Int{bi(0), bi(1), sub(c.n, bi(1)), c.n, plus(c.n, bi(1)), c.p, sub(new(big.Int).Lsh(bi(1), 256), bi(1)), new(big.Int).Rsh(c.n, 1)} {
					for b := byte(0); b < 2; b++ {
						rec(sg(w, y, b), msg)
						rec(sg(x, w, b), msg)
						rec(sg(x, y, b), b32(w))
						rec(sg(w, w, b), msg)
						rec(sg(w, w, b), b32(w))
						rec(sg(x, c.mn(sub(c.n, x)), b), msg)
					}
				}
			}
		}
		{ // r, s and the digest next to n, digit by digit
			d, h := c.rnd(r), r.Bytes(32)
			o := r.Quiet("Signature", M{"alg": a, "key": b32(d), "id": []byte(nil), "msg": h})
			if sig := GetB(o, "out"); len(sig) == 64 {
				v, _ := o["v"].(int)
				x, y := new(big.Int).SetBytes(sig[:32]), new(big.Int).SetBytes(sig[32:])
				for i, w := range around(c.n) {
					if r.Skip(i) {
						continue
					}
					rec(sg(x, w, byte(v)), h)
					rec(sg(w, y, byte(i&1)), h)
					rec(sg(x, y, byte(v)), b32(w))
				}
			}
		}
		// chosen nonce points and digests
		xs := c.extremes(r, 30)
		for i := int64(0); i < int64(r.Scale(12, 60)); i++ {
			xs = append(xs, plus(c.n, bi(i)), sub(c.n, bi(i)), bi(i), sub(c.p, bi(i)), new(big.Int).SetBytes(r.Bytes(20)))
		}
		for i, x := range xs {
			if r.Skip(i) {
				continue
			}
			R := c.lift(x, uint(i&1))
			if R == nil || c.mn(R.x).Sign() == 0 {
				continue
			}
			v := byte(R.y.Bit(0))
			for j := 0; j < 3; j++ {
				e, y := c.rnd(r), c.rnd(r)
				if j == 1 {
					e = []*big.Int{bi(0), c.n, sub(c.n, bi(1)), sub(new(big.Int).Lsh(bi(1), 256), bi(1))}[i%4]
				}
				if j == 2 {
					y = bi(int64(1 + i))
				}
				if a == "SM2" {
					s := c.mn(plus(e, R.x))
					rec(sg(s, y, v), b32(e))
					rec(sg(s, y, 1-v), b32(e))
				} else {
					rec(sg(c.mn(R.x), y, v), b32(e))
					rec(sg(c.mn(R.x), y, 1-v), b32(e))
					rec(sg(R.x, y, v), b32(e))
				}
			}
			// the recovered key would be infinity: s*R = e*G (ECDSA), R = s*G (SM2)
		}
		for i := 0; i < r.Scale(20, 100); i++ {
			if r.Skip(i) {
				continue
			}
			k := c.rnd(r)
			R := c.mulG(k)
			v := byte(R.y.Bit(0))
			if a == "SM2" {
				e := c.rnd(r)
				rec(sg(c.addN(e, R.x), k, v), b32(e))
				rec(sg(c.addN(e, R.x), k, 1-v), b32(e))
				rec(sg(c.addN(e, R.x), c.mn(sub(c.n, k)), v), b32(e))
			} else {
				s := c.rnd(r)
				e := c.mulN(s, k)
				rec(sg(c.mn(R.x), s, v), b32(e))
				rec(sg(c.mn(R.x), s, 1-v), b32(e))
			}
			rec(sg(c.rnd(r), c.rnd(r), byte(i&1)), r.Bytes(32))
		}
	}
}

func genKeys(r *Rec) {
	for _, a := range []string{"K1", "R1", "SM2", "PASTA"} {
		c := curves[a]
		try := func(k []byte, i int) {
			r.Do("GenPubkey", M{"alg": a, "key": k})
			r.Do("Point_mulBaseG", M{"alg": a, "k": k})
			if a != "PASTA" && i%8 == 0 {
				r.Do("Signature", M{"alg": a, "key": k, "id": []byte(nil), "msg": r.Bytes(32)})
			}
			if a == "PASTA" && i%8 == 0 {
				minaOf(r, 1, 1).sign(r, k)
			}
		}
		for i, k := range append(c.scalars(r, false, r.Scale(100, 2000)), around(c.n)...) {
			if r.Skip(i) {
				continue
			}
			try(b32(k), i)
		}
		for i := 0; i < 4; i++ {
			if r.Skip(i) {
				continue
			}
			for _, k := range [][]byte{b32(bi(0)), b32(c.n), b32(plus(c.n, bi(1))), b32(sub(c.n, bi(1))), b32(sub(c.n, bi(2))), b32(bi(1))} {
				try(k, 0)
			}
			for _, k := range resized(b32(c.rnd(r))) {
				try(k, 0)
			}
		}
	}
	ord := hx("73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001")
	bls := &wei{n: ord, p: ord}
	for _, a := range []string{"BLSN", "BLSA"} {
		ks := append(around(ord), bls.scalars(r, false, r.Scale(10, 300))...)
		for i, k := range ks {
			if r.Skip(i) {
				continue
			}
			if i > 280 && i%r.Scale(7, 2) != 0 {
				continue
			}
			r.Do("GenPubkey", M{"alg": a, "key": b32(k)})
			if i%3 == 0 {
				r.Do("Point_mulBaseG", M{"alg": a, "k": b32(k)})
			}
		}
		for _, k := range resized(b32(bi(12345))) {
			r.Do("GenPubkey", M{"alg": a, "key": k})
			r.Do("Point_mulBaseG", M{"alg": a, "k": k})
			r.Do("Signature", M{"alg": a, "key": k, "id": []byte(nil), "msg": []byte("m")})
		}
		for _, k := range []*big.Int{bi(0), ord, plus(ord, bi(1)), sub(new(big.Int).Lsh(bi(1), 256), bi(1))} {
			r.Do("Signature", M{"alg": a, "key": b32(k), "id": []byte(nil), "msg": []byte("m")})
		}
	}
}

func genPoints(r *Rec) {
	genPointsOf(r, weiAlgs)
	for _, nm := range []string{"", "secp256k2", "SECP256K1", "sm2"} {
		g := xy(curves["K1"].g)
		r.Do("Add", M{"name": nm, "p": g, "q": g})
		r.Do("Mul", M{"name": nm, "p": g, "k": b32(bi(2))})
		r.Do("MulBaseG_Add", M{"name": nm, "p": g, "k": b32(bi(2))})
	}
}

func genPointsOf(r *Rec, algs []string) {
	for _, a := range algs {
		c := curves[a]
		r.Do("GetCurveOrder", M{"alg": a})
		n := 0
		form := func(p *pt) []byte {
			n++
			switch n % 4 {
			case 1:
				return full(p)
			case 2:
				return comp(p)
			}
			return xy(p)
		}
		add := func(p, q *pt) {
			r.Do("Point_add", M{"alg": a, "p": form(p), "q": form(q)})
			if n%5 == 0 && c.lib != "" {
				r.Do("Add", M{"name": c.lib, "p": xy(p), "q": xy(q)})
			}
		}
		ps := c.points(r, r.Scale(12, 100))
		for i, p := range ps {
			if r.Skip(i) {
				continue
			}
			for j, q := range ps {
				if r.Thorough() || i < 8 && j < 8 || r.Rng.Intn(14) == 0 {
					add(p, q)
				}
			}
			add(p, p)
			add(p, c.neg(p))
			add(p, c.add(p, p))
			add(c.neg(p), c.add(p, p))
			if c.lib != "" {
				r.Do("Add", M{"name": c.lib, "p": xy(p), "q": xy(p)})
				r.Do("Add", M{"name": c.lib, "p": xy(p), "q": xy(c.neg(p))})
			}
		}
		ks := c.scalars(r, false, r.Scale(100, 1500))
		mul := func(p *pt, k *big.Int) {
			r.Do("Point_mul", M{"alg": a, "p": form(p), "k": b32(k)})
			if n%6 == 0 && c.lib != "" {
				r.Do("Mul", M{"name": c.lib, "p": xy(p), "k": b32(k)})
			}
		}
		mga := func(p *pt, k *big.Int) {
			r.Do("Point_mulBaseG_add", M{"alg": a, "p": form(p), "k": b32(k)})
			if n%6 == 0 && c.lib != "" {
				r.Do("MulBaseG_Add", M{"name": c.lib, "p": xy(p), "k": b32(k)})
			}
		}
		for i, k := range ks {
			if r.Skip(i) {
				continue
			}
			mul(ps[r.Rng.Intn(len(ps))], k)
			if i%2 == 0 {
				mul(c.g, k)
			}
			mga(ps[r.Rng.Intn(len(ps))], k)
			if i%3 == 0 {
				r.Do("Point_mulBaseG", M{"alg": a, "k": b32(k)})
			}
			// k*G + (-k*G), k*G + k*G
			if i%4 == 0 {
				if q := c.mulG(k); q != nil {
					mga(c.neg(q), k)
					mga(q, k)
				}
			}
		}
		for i, p := range ps {
			if r.Skip(i) {
				continue
			}
			for _, k := range []*big.Int{bi(0), bi(1), bi(2), bi(3), sub(c.n, bi(1)), sub(c.n, bi(2)), c.n, plus(c.n, bi(1)), plus(c.n, bi(2)), c.rnd(r)} {
				if r.Thorough() || r.Rng.Intn(2) == 0 {
					mul(p, k)
				}
			}
			mga(p, c.rnd(r))
		}
		// the same points as results
		for i, p := range ps {
			if r.Skip(i) {
				continue
			}
			q, k := c.mulG(c.rnd(r)), c.rnd(r)
			add(c.add(p, c.neg(q)), q)
			mga(c.add(p, c.neg(c.mulG(k))), k)
			mul(c.mul(c.invN(k), p), k)
		}
		// arguments that are not points, in each position
		g := xy(c.mulG(c.rnd(r)))
		bad := append(c.nonPoints(r), resized(g)...)
		for _, x := range c.extremes(r, 6) {
			bad = append(bad, Cat([]byte{2}, b32(x)), Cat([]byte{3}, b32(x)))
		}
		bad = append(bad, Cat([]byte{2}, b32(c.p)), Cat([]byte{4}, b32(c.g.x)), Cat([]byte{5}, g), Cat([]byte{6}, g), Cat([]byte{4}, c.nonPoints(r)[3]))
		for i, b := range bad {
			if r.Skip(i) {
				continue
			}
			r.Do("Point_add", M{"alg": a, "p": b, "q": g})
			r.Do("Point_add", M{"alg": a, "p": g, "q": b})
			r.Do("Point_mul", M{"alg": a, "p": b, "k": b32(c.rnd(r))})
			r.Do("Point_mulBaseG_add", M{"alg": a, "p": b, "k": b32(c.rnd(r))})
			if c.lib == "" {
				continue
			}
			r.Do("Add", M{"name": c.lib, "p": b, "q": g})
			r.Do("Add", M{"name": c.lib, "p": g, "q": b})
			r.Do("Mul", M{"name": c.lib, "p": b, "k": b32(c.rnd(r))})
			r.Do("MulBaseG_Add", M{"name": c.lib, "p": b, "k": b32(c.rnd(r))})
		}
		for _, k := range resized(b32(c.rnd(r))) {
			r.Do("Point_mul", M{"alg": a, "p": g, "k": k})
			r.Do("Point_mulBaseG_add", M{"alg": a, "p": g, "k": k})
			r.Do("Point_mulBaseG", M{"alg": a, "k": k})
		}
		// chains: results fed back as arguments
		q := g
		for i := 0; i < r.Scale(60, 1000); i++ {
			var o M
			switch r.Rng.Intn(3) {
			case 0:
				o = r.Do("Point_add", M{"alg": a, "p": q, "q": form(ps[r.Rng.Intn(len(ps))])})
			case 1:
				o = r.Do("Point_mul", M{"alg": a, "p": q, "k": b32(ks[r.Rng.Intn(len(ks))])})
			case 2:
				o = r.Do("Point_mulBaseG_add", M{"alg": a, "p": q, "k": b32(ks[r.Rng.Intn(len(ks))])})
			}
			if q = GetB(o, "out"); len(q) != 64 {
				q = g
			}
		}
	}
}

func genCompress(r *Rec) {
	for _, a := range []string{"K1", "R1", "SM2", "PASTA"} {
		c := curves[a]
		for _, p := range c.points(r, r.Scale(150, 3000)) {
			for _, b := range [][]byte{xy(p), full(p), xy(c.neg(p))} {
				o := r.Do("PointCompress", M{"alg": a, "p": b})
				r.Do("PointDecompress", M{"alg": a, "p": GetB(o, "out")})
			}
		}
		dec := func(b []byte) {
			o := r.Do("PointDecompress", M{"alg": a, "p": b})
			if q := GetB(o, "out"); q != nil {
				r.Do("PointCompress", M{"alg": a, "p": q})
			}
		}
		xs := append(c.extremes(r, 60), c.p, plus(c.p, bi(1)), plus(c.p, bi(2)), plus(c.p, bi(5)), c.n, sub(new(big.Int).Lsh(bi(1), 256), bi(1)))
		for i := 0; i < r.Scale(200, 3000); i++ {
			xs = append(xs, new(big.Int).SetBytes(r.Bytes(32)))
			if i < 60 {
				xs = append(xs, bi(int64(i)), new(big.Int).SetBytes(r.Bytes(1+i%31)), plus(c.p, bi(int64(i))))
			}
		}
		xs = append(xs, around(c.p)...)
		for _, x := range xs {
			if x.BitLen() > 256 {
				continue
			}
			dec(Cat([]byte{2}, b32(x)))
			dec(Cat([]byte{3}, b32(x)))
		}
		g := comp(c.mulG(c.rnd(r)))
		for i := 0; i < 256; i++ {
			dec(Cat([]byte{byte(i)}, g[1:]))
		}
		for _, b := range resized(g) {
			dec(b)
		}
		for _, b := range resized(xy(c.g)) {
			r.Do("PointCompress", M{"alg": a, "p": b})
			dec(b)
		}
		for _, b := range c.nonPoints(r) {
			r.Do("PointCompress", M{"alg": a, "p": b})
			r.Do("PointCompress", M{"alg": a, "p": Cat([]byte{4}, b)})
			dec(b)
			dec(Cat([]byte{4}, b))
		}
		for i := 0; i < 8; i++ {
			r.Do("PointCompress", M{"alg": a, "p": Cat([]byte{byte(i)}, xy(c.g))})
		}
	}
}
