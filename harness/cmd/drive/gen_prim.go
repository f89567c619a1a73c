package main

import (
	"math/big"

	. "aa/core"

	"github.com/blocktree/go-owcrypt/eddsa"
)

func init() {
	gens["C30"] = genPrim
	ret := func(o M, out []byte) { o["out"], o["st"] = out, "RETURNED" }
	buf := func() []byte {
		b := make([]byte, 32)
		for i := range b {
			b[i] = byte(0xA5 ^ i)
		}
		return b
	}
	arr := func(b []byte) *[32]byte {
		var s [32]byte
		copy(s[:], b)
		return &s
	}
	Ops["XKeygen"] = func(a *Args, o M) {
		P := buf()
		if a.I("wants") == 1 {
			s := buf()
			eddsa.Keygen(P, s, a.B("k"))
			o["s"] = s
		} else {
			eddsa.Keygen(P, nil, a.B("k"))
		}
		ret(o, P)
	}
	Ops["XCurve"] = func(a *Args, o M) {
		if a.I("inplace") == 1 { // the result replaces the point
			Z := append([]byte{}, a.B("u")...)
			eddsa.Curve(Z, a.B("k"), Z)
			ret(o, Z)
			return
		}
		Z := buf()
		eddsa.Curve(Z, a.B("k"), a.B("u"))
		ret(o, Z)
	}
	Ops["XSign"] = func(a *Args, o M) {
		v := buf()
		o["ok"] = eddsa.Sign(v, a.B("h"), a.B("x"), a.B("s"))
		ret(o, v)
	}
	Ops["XVerify"] = func(a *Args, o M) {
		Y := buf()
		eddsa.Verify(Y, a.B("v"), a.B("h"), a.B("u"))
		ret(o, Y)
	}
	Ops["XCanonSig"] = func(a *Args, o M) { o["ok"], o["st"] = eddsa.IsCanonicalSignature(a.B("v")), "RETURNED" }
	Ops["XCanonKey"] = func(a *Args, o M) { o["ok"], o["st"] = eddsa.IsCanonicalPublicKey(a.B("u")), "RETURNED" }
	Ops["EIsPoint"] = func(a *Args, o M) { o["ok"], o["st"] = eddsa.IsPoint(a.B("p")), "RETURNED" }
	sum := func(o M, share int, p1, p2 *[32]byte, f func(r *[32]byte) bool) {
		q1, q2 := *p1, *p2
		r := arr(buf())
		switch share {
		case 1:
			r = p1
		case 2:
			r = p2
		}
		before := *r
		inf := f(r)
		o["inf"], o["st"] = inf, "RETURNED"
		if inf {
			o["same"] = *r == before
		}
		o["kept"] = (share == 1 || *p1 == q1) && (share == 2 || *p2 == q2)
		o["out"] = append([]byte{}, r[:]...)
	}
	Ops["EPointAdd"] = func(a *Args, o M) {
		p1, p2 := arr(a.B("p")), arr(a.B("q"))
		if a.I("share") == 3 { // both operands are one object
			p2 = p1
		}
		sum(o, a.I("share"), p1, p2, func(r *[32]byte) bool { return eddsa.Point_add(p1, p2, r) })
	}
	Ops["EMulBaseAdd"] = func(a *Args, o M) {
		p, k := arr(a.B("p")), arr(a.B("k"))
		sum(o, a.I("share"), p, k, func(r *[32]byte) bool { return eddsa.ScalarMultBaseAdd(p, k, r) })
	}
}

// lowOrder: u coordinates of the points of small order of the curve and its
// twist, and those of their sums with the base point.
func lowOrder() (us []*big.Int) {
	us = append(us, bi(0), bi(1), sub(edP, bi(1)), bi(9), einv(bi(9)), em(new(big.Int).Neg(einv(bi(9)))))
	for _, t := range torsion() {
		for _, q := range []*epoint{t, eadd(t, edB)} {
			us = append(us, ytou(q.y))
		}
	}
	return
}

func genPrim(r *Rec) {
	rnd := func() *big.Int { return new(big.Int).SetBytes(r.Bytes(32)) }
	two256 := new(big.Int).Lsh(bi(1), 256)
	ks := scalarExtremes(r, r.Scale(20, 300))
	ks = append(ks, bi(0), sub(two256, bi(1)), new(big.Int).Lsh(edL, 3), plus(new(big.Int).Lsh(edL, 3), bi(1)), sub(new(big.Int).Lsh(edL, 3), bi(1)))
	for i := 0; i < r.Scale(60, 1500); i++ {
		ks = append(ks, rnd())
	}
	us := lowOrder()
	for _, u := range lowOrder() {
		if w := plus(u, edP); w.Cmp(two256) < 0 {
			us = append(us, w)
		}
	}
	us = append(us, plus(edP, edP), plus(plus(edP, edP), bi(1)), sub(two256, bi(1)), new(big.Int).Lsh(bi(1), 255), sub(new(big.Int).Lsh(bi(1), 255), bi(1)))
	us = append(us, fieldExtremes(r, r.Scale(60, 1500))...)
	for i := 0; i < r.Scale(100, 3000); i++ {
		us = append(us, rnd())
	}
	curve := func(k, u []byte, inplace int) []byte {
		return GetB(r.Do("XCurve", M{"k": k, "u": u, "inplace": inplace}), "out")
	}
	for i, u := range us {
		if r.Skip(i) {
			continue
		}
		for j := 0; j < r.Scale(2, 4); j++ {
			curve(le32(ks[(i*7+j*13)%len(ks)]), le32(u), (i+j)%5/4)
		}
		curve(clampBytes(r.Bytes(32)), le32(u), 0)
		r.Do("XCanonKey", M{"u": le32(u)})
	}
	for i, k := range ks {
		if r.Skip(i) {
			continue
		}
		r.Do("XKeygen", M{"k": le32(k), "wants": i % 2})
		curve(le32(k), le32(bi(9)), 0)
		curve(le32(k), le32(us[i%len(us)]), 0)
		r.Do("XCanonSig", M{"v": le32(k)})
		r.Do("XCanonSig", M{"v": Cat(le32(k), r.Bytes(32))})
	}
	for i, v := range append(around(edL), around(edP)...) {
		if !r.Skip(i) {
			r.Do("XCanonSig", M{"v": le32(v)})
			r.Do("XCanonKey", M{"u": le32(v)})
		}
	}
	for j := int64(0); j <= 16; j++ {
		for d := int64(-2); d <= 2; d++ {
			if v := plus(new(big.Int).Mul(edL, bi(j)), bi(d)); v.Sign() >= 0 && v.BitLen() <= 256 && int(j)%r.Parts == r.Part {
				r.Do("XCanonSig", M{"v": le32(v)})
				r.Do("XCanonKey", M{"u": le32(v)})
				k := le32(v)
				r.Do("XKeygen", M{"k": k, "wants": 1})
			}
		}
	}
	// exchanges: three parties, in every order
	for i := 0; i < r.Scale(24, 300); i++ {
		if r.Skip(i) {
			continue
		}
		key := [][]byte{clampBytes(r.Bytes(32)), clampBytes(r.Bytes(32)), clampBytes(r.Bytes(32))}
		if i%3 == 0 { // unclamped
			key[1] = le32(ks[i%len(ks)])
		}
		for _, o := range [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}} {
			p := GetB(r.Do("XKeygen", M{"k": key[o[0]], "wants": 0}), "out")
			for _, j := range o[1:] {
				p = curve(key[j], p, i%2)
			}
		}
	}
	// equations
	for i := 0; i < r.Scale(120, 3000); i++ {
		if r.Skip(i) {
			continue
		}
		pick := func() []byte {
			if r.Rng.Intn(3) == 0 {
				return le32(ks[r.Rng.Intn(len(ks))])
			}
			return r.Bytes(32)
		}
		r.Do("XSign", M{"h": pick(), "x": pick(), "s": pick()})
		x := pick()
		r.Do("XSign", M{"h": x, "x": x, "s": pick()})
		var u *big.Int
		low := lowOrder()
		for u == nil || absPointExists(u) == false {
			switch {
			case i < 4*len(low):
				u = low[i%len(low)]
				if !absPointExists(u) {
					u = ytou(emulB(lm(rnd())).y)
				}
			case i%2 == 0:
				u = ytou(emulB(lm(rnd())).y)
			default:
				u = ytou(eadd(emulB(lm(rnd())), torsion()[r.Rng.Intn(8)]).y)
			}
		}
		r.Do("XVerify", M{"v": pick(), "h": pick(), "u": le32(u)})
	}
	// points
	pts := torsion()
	for i := 0; i < 8; i++ {
		k := emulB(lm(rnd()))
		pts = append(pts, k, eneg(k), eadd(k, pts[i]))
	}
	for i := 0; i < r.Scale(120, 3000); i++ {
		if r.Skip(i) {
			continue
		}
		p, q := pts[r.Rng.Intn(len(pts))], pts[r.Rng.Intn(len(pts))]
		switch r.Rng.Intn(6) {
		case 0:
			q = p
		case 1:
			q = eneg(p)
		}
		r.Do("EPointAdd", M{"p": eenc(p), "q": eenc(q), "share": 0})
		r.Do("EPointAdd", M{"p": eenc(p), "q": eenc(q), "share": 1 + r.Rng.Intn(2)})
		r.Do("EPointAdd", M{"p": eenc(p), "q": eenc(p), "share": 3})
		k := ks[r.Rng.Intn(len(ks))]
		if r.Rng.Intn(4) == 0 { // the neutral element, or the opposite of p
			j := lm(k)
			p = eneg(emulB(j))
		}
		r.Do("EMulBaseAdd", M{"p": eenc(p), "k": le32(k), "share": r.Rng.Intn(3)})
	}
	is := func(p []byte) { r.Do("EIsPoint", M{"p": p}) }
	for i, x := range fieldExtremes(r, r.Scale(60, 1500)) {
		if r.Skip(i) {
			continue
		}
		b := le32(x)
		is(b)
		b = append([]byte{}, b...)
		b[31] ^= 128
		is(b)
	}
	for i := 0; i < r.Scale(200, 5000); i++ {
		if r.Skip(i) {
			continue
		}
		p := eenc(pts[r.Rng.Intn(len(pts))])
		is(p)
		for _, f := range resized(p) {
			is(f)
			r.Do("XCanonKey", M{"u": f})
		}
		is(r.Bytes(32))
	}
	is(nil)
	r.Do("XCanonKey", M{"u": []byte(nil)})
}

func absPointExists(u *big.Int) bool {
	v := plus(plus(emul(u, emul(u, u)), emul(bi(486662), emul(u, u))), u)
	return new(big.Int).ModSqrt(em(v), edP) != nil
}
