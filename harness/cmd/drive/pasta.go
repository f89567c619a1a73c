package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"strings"

	. "aa/core"

	"github.com/blocktree/go-owcrypt/pasta"
)

func init() {
	gens["C18"] = genMina
	gens["C19"] = genPasta
	g := func(b []byte) (q pasta.Group) {
		q.X.Set(mont(b[:32]))
		q.Y.Set(mont(b[32:64]))
		q.Z.Set(mont(b[64:96]))
		return
	}
	ret := func(o M, q pasta.Group) {
		o["out"] = Cat(pasta.FpMontgomeryArrayToBigEndianBytes(q.X), pasta.FpMontgomeryArrayToBigEndianBytes(q.Y), pasta.FpMontgomeryArrayToBigEndianBytes(q.Z))
		o["st"] = "RETURNED"
	}
	Ops["PGroupAdd"] = func(a *Args, o M) {
		var r pasta.Group
		pasta.GroupAdd(&r, g(a.B("p")), g(a.B("q")))
		ret(o, r)
	}
	Ops["PGroupDbl"] = func(a *Args, o M) {
		var r pasta.Group
		pasta.GroupDbl(&r, g(a.B("p")))
		ret(o, r)
	}
	Ops["PGroupNegate"] = func(a *Args, o M) {
		var r pasta.Group
		pasta.GroupNegate(&r, g(a.B("p")))
		ret(o, r)
	}
	Ops["PGroupScalarMul"] = func(a *Args, o M) {
		var r pasta.Group
		var k pasta.Scalar
		k.Set(pasta.BigEndianBytesToFqMontgomeryArray(a.B("k")))
		pasta.GroupScalarMul(&r, k, g(a.B("p")))
		ret(o, r)
	}
	Ops["PSponge"] = func(a *Args, o M) { // the elements fed in pieces of the given sizes
		f := func(l [][]byte) (r []pasta.Field) {
			for _, b := range l {
				r = append(r, pasta.Field(limbs(new(big.Int).SetBytes(b))))
			}
			return
		}
		ctx := pasta.Poseidon3WInit(f(a.L("iv")))
		xs := f(a.L("xs"))
		for _, n := range a.B("cuts") {
			pasta.PoseidonUpdate(&ctx, xs[:n])
			xs = xs[n:]
		}
		pasta.PoseidonUpdate(&ctx, xs)
		o["out"], o["st"] = pasta.PoseidonDigest(&ctx), "RETURNED"
	}
	Ops["PGroupIsOnCurve"] = func(a *Args, o M) {
		o["v"], o["st"] = int(pasta.GroupIsOnCurve(g(a.B("p")))), "RETURNED"
	}
}

// mont puts a big-endian number in Montgomery form.
func mont(b []byte) [4]uint64 {
	x := new(big.Int).Lsh(new(big.Int).SetBytes(b), 256)
	return limbs(x.Mod(x, curves["PASTA"].p))
}
func limbs(x *big.Int) (l [4]uint64) {
	m := new(big.Int).SetUint64(^uint64(0))
	for i := range l {
		l[i] = new(big.Int).And(new(big.Int).Rsh(x, uint(64*i)), m).Uint64()
	}
	return
}

// mina is a message: numbers as they are in Montgomery form.
type mina struct{ pre, suf, iv [][]byte }

func (m *mina) json() []byte {
	f := func(l [][]byte) (r []pasta.Field) {
		for _, b := range l {
			r = append(r, pasta.Field(limbs(new(big.Int).SetBytes(b))))
		}
		return
	}
	iv := f(m.iv)
	b, _ := json.Marshal(M{"transactionPrefix": f(m.pre), "transactionSuffix": f(m.suf), "spongeIV": iv})
	return b
}
func (m *mina) note() M {
	return M{"mina": M{"pre": append([][]byte{}, m.pre...), "suf": append([][]byte{}, m.suf...), "iv": m.iv}}
}
func (m *mina) sign(r *Rec, k []byte) []byte {
	return GetB(r.Call("Signature", M{"alg": "PASTA", "key": k, "id": []byte(nil), "msg": m.json()}, m.note()), "out")
}
func (m *mina) verify(r *Rec, pub, sig []byte) {
	r.Call("Verify", M{"alg": "PASTA", "pub": pub, "id": []byte(nil), "msg": m.json(), "sig": sig}, m.note())
}
func (m *mina) with(f func(c *mina)) *mina {
	cp := func(l [][]byte) [][]byte {
		n := make([][]byte, len(l))
		for i := range l {
			n[i] = append([]byte{}, l[i]...)
		}
		return n
	}
	c := &mina{cp(m.pre), cp(m.suf), cp(m.iv)}
	f(c)
	return c
}

// elem is a field element, often an extreme one.
func elem(r *Rec) []byte {
	c := curves["PASTA"]
	if r.Rng.Intn(4) == 0 {
		x := c.extremes(r, 1)
		return b32(x[r.Rng.Intn(len(x))])
	}
	return b32(c.mod(new(big.Int).SetBytes(r.Bytes(40))))
}
func elems(r *Rec, n int) (l [][]byte) {
	for i := 0; i < n; i++ {
		l = append(l, elem(r))
	}
	return
}
func minaOf(r *Rec, pre, suf int) *mina { return &mina{elems(r, pre), elems(r, suf), elems(r, 3)} }

// minaHash is the library's hash; used only to make candidate signatures.
func minaHash(m *mina, P *pt, x *big.Int) *big.Int {
	mm, err := pasta.NewMinaMessage(m.json())
	if err != nil {
		return bi(1)
	}
	return new(big.Int).SetBytes(pasta.MessageHash(xy(P), mont(b32(x)), *mm))
}

// signAs signs with a chosen nonce; odd tells whether the rule for the parity
// of y is to be broken.
func signAs(c *wei, m *mina, d, k *big.Int, odd bool) []byte {
	R := c.mulG(k)
	if R.y.Bit(0) == 1 != odd {
		k = sub(c.n, k)
	}
	e := minaHash(m, c.mulG(d), R.x)
	return Cat(b32(R.x), b32(c.addN(k, c.mulN(e, d))))
}

var badJson = []string{"", "{", "[]", "1", "\"x\"", "{}x", "{\"transactionPrefix\":5}", "{\"transactionPrefix\":[[1,2,3,\"4\"]]}", "{\"transactionPrefix\":[[1,2,3,-4]]}",
	"{\"transactionPrefix\":[[1,2,3,18446744073709551616]]}", "{\"transactionPrefix\":[[1,2,3,4.5]]}", "{\"spongeIV\":[\"a\"]}", "{\"transactionSuffix\":[{}]}",
	"{\"spongeIV\":{}}", "\x00", "{\"transactionSuffix\":[[1,2,3,4]}", "{\"transactionSuffix\":[[1,2,3,4]]} {}"}

func genMina(r *Rec) {
	c := curves["PASTA"]
	key := func() (*big.Int, []byte) {
		d := c.rnd(r)
		return d, xy(c.mulG(d))
	}
	ks := c.scalars(r, true, r.Scale(30, 800))
	for i, d := range ks {
		if r.Skip(i) || !r.Thorough() && i > 60 && i%5 != 0 {
			continue
		}
		m := minaOf(r, r.Rng.Intn(6), r.Rng.Intn(6))
		s := m.sign(r, b32(d))
		m.verify(r, xy(c.mulG(d)), s)
	}
	// every shape of message: the rate is 2, the key and r lie in the middle
	for pre := 0; pre < r.Scale(5, 12); pre++ {
		for suf := 0; suf < r.Scale(5, 12); suf++ {
			if r.Skip(pre*12 + suf) {
				continue
			}
			d, pub := key()
			m := minaOf(r, pre, suf)
			s := m.sign(r, b32(d))
			m.verify(r, pub, s)
			m.verify(r, full(c.mulG(d)), s)
			m.verify(r, comp(c.mulG(d)), s)
			if pre+suf == 0 || s == nil {
				continue
			}
			// elements moved between the parts, dropped, doubled, zeroes appended
			m.with(func(m *mina) { m.pre = append(m.pre, make([]byte, 32)) }).verify(r, pub, s)
			m.with(func(m *mina) { m.suf = append(m.suf, make([]byte, 32)) }).verify(r, pub, s)
			m.with(func(m *mina) { m.pre, m.suf = append(m.pre, m.suf...), nil }).verify(r, pub, s)
			m.with(func(m *mina) { m.pre, m.suf = nil, append(m.pre, m.suf...) }).verify(r, pub, s)
			m.with(func(m *mina) { m.iv[0], m.iv[1] = m.iv[1], m.iv[0] }).verify(r, pub, s)
			m.with(func(m *mina) { m.iv[1], m.iv[2] = m.iv[2], m.iv[1] }).verify(r, pub, s)
			if suf > 0 {
				m.with(func(m *mina) { m.suf = m.suf[:suf-1] }).verify(r, pub, s)
			}
			for _, w := range []int64{1, 2, 3} { // not reduced: the same element plus a multiple of p
				m.with(func(m *mina) {
					l := [][][]byte{m.pre, m.suf, m.iv}
					for j := range l {
						if len(l[(j+int(w))%3]) > 0 {
							e := l[(j+int(w))%3][0]
							copy(e, b32(plus(new(big.Int).SetBytes(e), new(big.Int).Mul(c.p, bi(1+w%3)))))
							return
						}
					}
				}).verify(r, pub, s)
			}
		}
	}
	for i := 0; i < r.Scale(60, 1500); i++ {
		if r.Skip(i) {
			continue
		}
		n := i % 9
		cuts := []byte{}
		for left := n; left > 0 && r.Rng.Intn(5) > 0; {
			c := r.Rng.Intn(left + 1)
			cuts = append(cuts, byte(c))
			left -= c
		}
		r.Do("PSponge", M{"iv": elems(r, 3), "xs": append([][]byte{}, elems(r, n)...), "cuts": cuts})
	}
	long := minaOf(r, r.Scale(30, 200), r.Scale(31, 200))
	d, pub := key()
	long.verify(r, pub, long.sign(r, b32(d)))
	m := minaOf(r, 2, 1)
	// candidates made with chosen nonces
	for i := 0; i < r.Scale(8, 150); i++ {
		d, pub := key()
		k := c.rnd(r)
		m.verify(r, pub, signAs(c, m, d, k, false))
		m.verify(r, pub, signAs(c, m, d, k, true))
		s := signAs(c, m, d, k, false)
		m.verify(r, xy(c.neg(c.mulG(d))), s)
		m.verify(r, pub, Cat(s[:32], b32(sub(c.n, new(big.Int).SetBytes(s[32:])))))
		sp := plus(new(big.Int).SetBytes(s[32:]), c.n)
		m.verify(r, pub, Cat(s[:32], b32(sp)))
		m.verify(r, pub, Cat(s[:32], b32(plus(sp, c.n))))
		m.verify(r, pub, Cat(b32(plus(new(big.Int).SetBytes(s[:32]), c.p)), s[32:]))
		m.verify(r, pub, Cat(s[32:], s[:32]))
		_, p2 := key()
		m.verify(r, p2, s)
		m.verify(r, xy(c.g), s)
		// the nonce point at infinity, which has no x
		m.verify(r, pub, Cat(make([]byte, 32), b32(c.mulN(minaHash(m, c.mulG(d), bi(0)), d))))
		// sG - eP = infinity with r the x of something else
		x := c.mulG(k).x
		m.verify(r, pub, Cat(b32(x), b32(c.mulN(minaHash(m, c.mulG(d), x), d))))
		// R = P, sG = +-eP: sums that are doublings or inverse
		R := c.mulG(d)
		e := c.mulN(minaHash(m, R, R.x), d)
		for _, t := range []*big.Int{plus(e, d), sub(e, d), new(big.Int).Neg(e), plus(e, e)} {
			m.verify(r, pub, Cat(b32(R.x), b32(c.mn(t))))
		}
		m.verify(r, pub, signAs(c, m, d, d, false))
		m.verify(r, pub, signAs(c, m, d, bi(int64(i+1)), false))
		m.verify(r, pub, signAs(c, m, d, sub(c.n, bi(int64(i+1))), false))
		m.verify(r, xy(c.g), signAs(c, m, bi(1), k, false))
		m.verify(r, xy(c.neg(c.g)), signAs(c, m, sub(c.n, bi(1)), k, false))
	}
	// nonces for which s is small, 0 or n-1
	for i := int64(0); i < 3; i++ {
		d, pub := key()
		k := c.rnd(r)
		R := c.mulG(k)
		if R.y.Bit(0) == 1 {
			k = sub(c.n, k)
		}
		e := minaHash(m, c.mulG(d), R.x)
		if e.Sign() != 0 { // the key for which s comes out as wanted
			for _, t := range []*big.Int{bi(i), sub(c.n, bi(i+1))} {
				m.verify(r, pub, Cat(b32(R.x), b32(c.mn(t))))
			}
		}
		m.verify(r, pub, make([]byte, 64))
		m.verify(r, pub, Cat(b32(c.p), make([]byte, 32)))
		m.verify(r, pub, Cat(make([]byte, 32), b32(c.n)))
	}
	s := signAs(c, m, d, c.rnd(r), false)
	m.verify(r, pub, s)
	// keys and s next to n, r, coordinates and elements next to p, digit by digit
	for i, w := range around(c.n) {
		if !r.Skip(i) {
			m.sign(r, b32(w))
			m.verify(r, pub, Cat(s[:32], b32(w)))
		}
	}
	for i, w := range around(c.p) {
		if r.Skip(i) {
			continue
		}
		m.verify(r, pub, Cat(b32(w), s[32:]))
		if q := c.lift(w, uint(i&1)); q != nil {
			m.verify(r, comp(q), s)
		}
		m.verify(r, Cat([]byte{byte(2 + i&1)}, b32(w)), s)
		b := m.with(func(m *mina) {
			l := append(append(append([][]byte{}, m.pre...), m.suf...), m.iv...)
			copy(l[i%len(l)], b32(w))
		})
		b.verify(r, pub, b.sign(r, b32(d)))
	}
	for _, b := range flips(r, s, r.Scale(48, 1<<20)) {
		m.verify(r, pub, b)
	}
	for _, b := range flips(r, pub, r.Scale(16, 1<<20)) {
		m.verify(r, b, s)
	}
	for i := 0; i < r.Scale(16, 300); i++ {
		m.with(func(m *mina) {
			l := append(append(append([][]byte{}, m.pre...), m.suf...), m.iv...)
			l[r.Rng.Intn(len(l))][r.Rng.Intn(32)] ^= 1 << uint(r.Rng.Intn(8))
		}).verify(r, pub, s)
	}
	for _, b := range append(resized(s), b32(c.p)) {
		m.verify(r, pub, b)
	}
	for _, b := range append(resized(pub), c.nonPoints(r)...) {
		m.verify(r, b, s)
	}
	for _, b := range resized(b32(d)) {
		m.sign(r, b)
	}
	for _, k := range []*big.Int{bi(0), c.n, plus(c.n, bi(1)), sub(new(big.Int).Lsh(bi(1), 256), bi(1)), new(big.Int).Lsh(bi(1), 255), new(big.Int).Lsh(c.n, 1)} {
		m.sign(r, b32(k))
	}
	// the same message written differently
	v := string(m.json())
	for _, t := range []string{" " + v + "\n", strings.Replace(v, ",", " , ", -1), strings.Replace(v, ":", ":\t", -1)} {
		r.Call("Verify", M{"alg": "PASTA", "pub": pub, "id": []byte(nil), "msg": []byte(t), "sig": s}, m.note())
		r.Call("Signature", M{"alg": "PASTA", "key": b32(d), "id": []byte(nil), "msg": []byte(t)}, m.note())
	}
	// what is no message
	for i, t := range append(append([]string{}, badJson...), v+"x", v[:len(v)-1], v[1:], v+v, fmt.Sprintf("%x", v)) {
		b := []byte(t)
		if i == 0 {
			b = nil
		}
		r.Do("Verify", M{"alg": "PASTA", "pub": pub, "id": []byte(nil), "msg": b, "sig": s})
		r.Do("Signature", M{"alg": "PASTA", "key": b32(d), "id": []byte(nil), "msg": b})
	}
	// elements out of range
	for i := 0; i < 12; i++ {
		x := []*big.Int{c.p, plus(c.p, bi(1)), sub(new(big.Int).Lsh(bi(1), 256), bi(1)), new(big.Int).Lsh(bi(1), 255)}[i%4]
		b := m.with(func(m *mina) {
			switch i / 4 {
			case 0:
				m.pre[i%2] = b32(x)
			case 1:
				m.suf[0] = b32(x)
			case 2:
				m.iv[i%3] = b32(x)
			}
		})
		b.verify(r, pub, b.sign(r, b32(d)))
		b.verify(r, pub, s)
	}
}

func genPasta(r *Rec) {
	genPointsOf(r, []string{"PASTA"})
	c := curves["PASTA"]
	// the package's Jacobian coordinates: every pair of representations
	jac := func(p *pt, z *big.Int) []byte {
		if p == nil {
			return Cat(elem(r), elem(r), make([]byte, 32))
		}
		m := func(x, y *big.Int) *big.Int { return c.mod(new(big.Int).Mul(x, y)) }
		zz := m(z, z)
		return Cat(b32(m(p.x, zz)), b32(m(p.y, m(zz, z))), b32(z))
	}
	z := func() *big.Int {
		switch r.Rng.Intn(3) {
		case 0:
			return bi(1)
		case 1:
			return bi(int64(1 + r.Rng.Intn(20)))
		}
		return new(big.Int).SetBytes(b32(plus(new(big.Int).Rsh(new(big.Int).SetBytes(r.Bytes(32)), 3), bi(1))))
	}
	ps := append(c.points(r, r.Scale(10, 100)), nil)
	for i, p := range ps {
		if r.Skip(i) {
			continue
		}
		for _, q := range []*pt{p, c.neg(p), c.add(p, p), c.g, c.neg(c.g), nil, ps[r.Rng.Intn(len(ps))], ps[r.Rng.Intn(len(ps))]} {
			r.Do("PGroupAdd", M{"p": jac(p, z()), "q": jac(q, z())})
			r.Do("PGroupAdd", M{"p": jac(q, bi(1)), "q": jac(p, bi(1))})
		}
		r.Do("PGroupDbl", M{"p": jac(p, z())})
		r.Do("PGroupDbl", M{"p": jac(p, bi(1))})
		r.Do("PGroupNegate", M{"p": jac(p, z())})
		for _, k := range []*big.Int{bi(0), bi(1), bi(2), bi(3), sub(c.n, bi(1)), sub(c.n, bi(2)), c.rnd(r)} {
			r.Do("PGroupScalarMul", M{"p": jac(p, z()), "k": b32(k)})
		}
		r.Do("PGroupIsOnCurve", M{"p": jac(p, z())})
		r.Do("PGroupIsOnCurve", M{"p": jac(p, bi(1))})
		b := jac(p, z())
		b[r.Rng.Intn(31)+1] ^= 1
		if p != nil {
			r.Do("PGroupIsOnCurve", M{"p": b})
		}
		r.Do("PGroupIsOnCurve", M{"p": Cat(elem(r), elem(r), b32(bi(1)))})
	}
}
