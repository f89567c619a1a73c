package main

import (
	"math/big"

	. "aa/core"
)

// wei is a textbook short Weierstrass curve used to make inputs (never to
// judge results: that is the specification's part).
type wei struct {
	name, lib  string
	p, a, b, n *big.Int
	g          *pt
}
type pt struct{ x, y *big.Int }

func hx(s string) *big.Int { r, _ := new(big.Int).SetString(s, 16); return r }
func bi(i int64) *big.Int  { return big.NewInt(i) }

var curves = map[string]*wei{
	"K1": {"K1", "secp256k1", hx("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f"), bi(0), bi(7),
		hx("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141"),
		&pt{hx("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798"), hx("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8")}},
	"R1": {"R1", "secp256r1", hx("ffffffff00000001000000000000000000000000ffffffffffffffffffffffff"), hx("ffffffff00000001000000000000000000000000fffffffffffffffffffffffc"),
		hx("5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b"), hx("ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551"),
		&pt{hx("6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296"), hx("4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5")}},
	"SM2": {"SM2", "sm2_std", hx("fffffffeffffffffffffffffffffffffffffffff00000000ffffffffffffffff"), hx("fffffffeffffffffffffffffffffffffffffffff00000000fffffffffffffffc"),
		hx("28e9fa9e9d9f5e344d5a9e4bcf6509a7f39789f515ab8f92ddbcbd414d940e93"), hx("fffffffeffffffffffffffffffffffff7203df6b21c6052b53bbf40939d54123"),
		&pt{hx("32c4ae2c1f1981195f9904466a39c9948fe30bbff2660be1715a4589334c74c7"), hx("bc3736a2f4f6779c59bdcee36b692153d0a9877cc62a474002df32e52139f0a0")}},
	"PASTA": {"PASTA", "", hx("40000000000000000000000000000000224698fc094cf91b992d30ed00000001"), bi(0), bi(5),
		hx("40000000000000000000000000000000224698fc0994a8dd8c46eb2100000001"),
		&pt{bi(1), hx("1b74b5a30a12937c53dfa9f06378ee548f655bd4333d477119cf7a23caed2abb")}},
}

// short: multipliers for which a coordinate of the multiple of g has two or more leading zero
// bytes (found by a search through some ten million).
var short = map[string][]int64{
	"K1":    {8673773, 218177, 2031970, 4923464, 8169169, 4448081, 8360131, 6749188},
	"R1":    {1476301, 12132004, 4763952, 9470828, 11948115, 7280631, 2934436, 586938},
	"SM2":   {1604678, 60190, 2210493, 5913359, 6636124, 9795334, 7995038, 5754117},
	"PASTA": {1383355, 10796636, 1722605, 4219986, 9836497, 959694, 6052981, 573990},
}
var weiAlgs = []string{"K1", "R1", "SM2"}

func (c *wei) mod(x *big.Int) *big.Int { return x.Mod(x, c.p) }
func (c *wei) rhs(x *big.Int) *big.Int {
	t := new(big.Int).Mul(x, x)
	t.Add(t, c.a).Mul(t, x).Add(t, c.b)
	return c.mod(t)
}
func (c *wei) lift(x *big.Int, odd uint) *pt {
	if x.Sign() < 0 || x.Cmp(c.p) >= 0 {
		return nil
	}
	y := new(big.Int).ModSqrt(c.rhs(x), c.p)
	if y == nil {
		return nil
	}
	if y.Bit(0) != odd {
		y.Sub(c.p, y)
	}
	return &pt{new(big.Int).Set(x), y}
}
func (c *wei) neg(q *pt) *pt {
	if q == nil {
		return nil
	}
	return &pt{q.x, c.mod(new(big.Int).Neg(q.y))}
}
func (c *wei) add(p, q *pt) *pt {
	if p == nil {
		return q
	}
	if q == nil {
		return p
	}
	m := new(big.Int)
	if p.x.Cmp(q.x) == 0 {
		if p.y.Cmp(q.y) != 0 || p.y.Sign() == 0 {
			return nil
		}
		m.Mul(p.x, p.x).Mul(m, bi(3)).Add(m, c.a)
		m.Mul(m, new(big.Int).ModInverse(new(big.Int).Lsh(p.y, 1), c.p))
	} else {
		m.Sub(q.y, p.y)
		m.Mul(m, new(big.Int).ModInverse(c.mod(new(big.Int).Sub(q.x, p.x)), c.p))
	}
	c.mod(m)
	x := new(big.Int).Mul(m, m)
	x.Sub(x, p.x).Sub(x, q.x)
	c.mod(x)
	y := new(big.Int).Sub(p.x, x)
	y.Mul(y, m).Sub(y, p.y)
	return &pt{x, c.mod(y)}
}
func (c *wei) mul(k *big.Int, p *pt) *pt {
	k = new(big.Int).Mod(k, c.n)
	var r *pt
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = c.add(r, r)
		if k.Bit(i) == 1 {
			r = c.add(r, p)
		}
	}
	return r
}
func (c *wei) mulG(k *big.Int) *pt { return c.mul(k, c.g) }

func b32(x *big.Int) []byte {
	r := make([]byte, 32)
	b := x.Bytes()
	copy(r[32-len(b):], b)
	return r
}
func xy(p *pt) []byte   { return Cat(b32(p.x), b32(p.y)) }
func full(p *pt) []byte { return Cat([]byte{4}, xy(p)) }
func comp(p *pt) []byte { return Cat([]byte{byte(2 + p.y.Bit(0))}, b32(p.x)) }

func (c *wei) mn(x *big.Int) *big.Int      { return new(big.Int).Mod(x, c.n) }
func (c *wei) mulN(x, y *big.Int) *big.Int { return c.mn(new(big.Int).Mul(x, y)) }
func (c *wei) addN(x, y *big.Int) *big.Int { return c.mn(new(big.Int).Add(x, y)) }
func (c *wei) invN(x *big.Int) *big.Int    { return new(big.Int).ModInverse(c.mn(x), c.n) }
func (c *wei) rnd(r *Rec) *big.Int {
	for {
		k := c.mn(new(big.Int).SetBytes(r.Bytes(40)))
		if k.Sign() != 0 {
			return k
		}
	}
}
func sub(x, y *big.Int) *big.Int  { return new(big.Int).Sub(x, y) }
func plus(x, y *big.Int) *big.Int { return new(big.Int).Add(x, y) }

// forge makes a valid ECDSA signature of a digest nobody chose, for any point.
func (c *wei) forge(q *pt, u1, u2 *big.Int) (e, r, s *big.Int) {
	R := c.add(c.mulG(u1), c.mul(u2, q))
	if R == nil {
		return nil, nil, nil
	}
	r = c.mn(R.x)
	s = c.mulN(r, c.invN(u2))
	return c.mulN(u1, s), r, s
}

// keyFor is the public key for which (x(R), s) signs e.
func (c *wei) keyFor(R *pt, e, s *big.Int) *pt {
	ri := c.invN(c.mn(R.x))
	return c.add(c.mul(c.mulN(s, ri), R), c.mulG(c.mn(new(big.Int).Neg(c.mulN(e, ri)))))
}

// SM2: forge chooses s and t = r+s; keyFor chooses R, r, s.
func (c *wei) forgeSm2(q *pt, s, t *big.Int) (e, r *big.Int) {
	R := c.add(c.mulG(s), c.mul(t, q))
	r = c.mn(sub(t, s))
	if R == nil {
		return nil, r
	}
	return c.mn(sub(r, R.x)), r
}
func (c *wei) keyForSm2(R *pt, r, s *big.Int) *pt {
	return c.mul(c.invN(c.addN(r, s)), c.add(R, c.neg(c.mulG(s))))
}

// scalars: every class of 32-byte scalar worth trying; legal tells whether
// only 1..n-1 is wanted.
func (c *wei) scalars(r *Rec, legal bool, random int) (ks []*big.Int) {
	add := func(k *big.Int) {
		if k.Sign() < 0 || k.BitLen() > 256 {
			return
		}
		if legal && (k.Sign() == 0 || k.Cmp(c.n) >= 0) {
			return
		}
		ks = append(ks, k)
	}
	for i := int64(0); i <= 33; i++ {
		add(bi(i))
		add(sub(c.n, bi(i)))
		if i < 6 {
			add(plus(c.n, bi(i)))
			add(plus(new(big.Int).Lsh(c.n, 1), bi(i)))
			add(sub(new(big.Int).Lsh(c.n, 1), bi(i)))
			add(sub(c.p, bi(i)))
			add(plus(c.p, bi(i)))
			h := new(big.Int).Rsh(c.n, 1)
			add(plus(h, bi(i)))
			add(sub(h, bi(i)))
			add(sub(new(big.Int).Lsh(bi(1), 256), bi(i+1)))
		}
	}
	for i, k := range short[c.name] {
		add(bi(k))
		if i%2 == 0 {
			add(sub(c.n, bi(k)))
		}
	}
	for i := uint(0); i < 256; i++ {
		add(new(big.Int).Lsh(bi(1), i))
		if i%3 == 0 || !legal {
			add(sub(new(big.Int).Lsh(bi(1), i), bi(1)))
		}
		if i%4 == 0 {
			add(new(big.Int).Lsh(bi(int64(1+r.Rng.Intn(15))), i))
			add(new(big.Int).Lsh(bi(15), i))
		}
		if i%8 == 0 {
			add(new(big.Int).Lsh(bi(255), i))
			add(sub(c.n, new(big.Int).Lsh(bi(1), i)))
		}
	}
	for _, v := range []byte{0x11, 0x22, 0x33, 0x55, 0x7f, 0x80, 0x88, 0xaa, 0xee, 0xef, 0xf0, 0x0f, 0xfe} {
		b := make([]byte, 32)
		for i := range b {
			b[i] = v
		}
		add(new(big.Int).SetBytes(b))
		add(new(big.Int).SetBytes(b[:31]))
		add(new(big.Int).SetBytes(b[:16]))
	}
	for i := 0; i < random; i++ {
		b := r.Bytes(32)
		switch i % 5 {
		case 3:
			for j := 0; j < r.Rng.Intn(31); j++ {
				b[j] = 0
			}
		case 4: // runs of ones and zeros
			j := 0
			for j < 32 {
				n, v := 1+r.Rng.Intn(6), byte(0)
				if r.Rng.Intn(2) == 1 {
					v = 0xff
				}
				for ; n > 0 && j < 32; n-- {
					b[j] = v
					j++
				}
			}
		}
		add(new(big.Int).SetBytes(b))
	}
	return
}

// around: the numbers that a comparison with m, made digit by digit, may misjudge - m with one
// byte changed by one, the bytes below it kept, cleared or filled.
func around(m *big.Int) (ks []*big.Int) {
	seen := map[string]bool{}
	add := func(k *big.Int) {
		if k.Sign() >= 0 && k.BitLen() <= (m.BitLen()+7)/8*8 && !seen[k.String()] {
			seen[k.String()] = true
			ks = append(ks, k)
		}
	}
	for i := int64(0); i < 4; i++ {
		add(plus(m, bi(i)))
		add(sub(m, bi(i)))
	}
	for i := uint(0); i < uint(m.BitLen()+7)/8; i++ {
		u := new(big.Int).Lsh(bi(1), 8*i)
		low := sub(u, bi(1))
		d := new(big.Int).And(new(big.Int).Rsh(m, 8*i), bi(255)).Int64()
		for _, e := range []int64{-1, 1} {
			if d+e < 0 || d+e > 255 {
				continue
			}
			k := plus(m, new(big.Int).Mul(u, bi(e)))
			z := new(big.Int).AndNot(k, low)
			add(k)
			add(z)
			add(plus(z, low))
		}
	}
	return
}

// limbs: field elements whose representation in the word sizes implementations
// use (plain or in Montgomery form) is extreme.
func (c *wei) extremes(r *Rec, n int) (xs []*big.Int) {
	Ri := new(big.Int).ModInverse(new(big.Int).Lsh(bi(1), 256), c.p)
	Rj := new(big.Int).ModInverse(new(big.Int).Lsh(bi(1), 257), c.p)
	add := func(m *big.Int) {
		m = c.mod(m)
		xs = append(xs, m, c.mod(new(big.Int).Mul(m, Ri)), c.mod(new(big.Int).Mul(m, Rj)))
	}
	for i := int64(0); i < 8; i++ {
		add(bi(i))
		add(sub(c.p, bi(i+1)))
	}
	for k := 0; k < n; k++ {
		m := new(big.Int)
		switch k % 3 {
		case 0: // 29/28-bit limbs
			sh := uint(0)
			for i := 0; i < 9; i++ {
				w := uint(29 - i%2)
				switch r.Rng.Intn(3) {
				case 0:
					m.Add(m, new(big.Int).Lsh(sub(new(big.Int).Lsh(bi(1), w), bi(1)), sh))
				case 1:
					m.Add(m, new(big.Int).Lsh(new(big.Int).SetBytes(r.Bytes(3)), sh))
				}
				sh += w
			}
		case 1:
			for i := uint(0); i < 8; i++ {
				switch r.Rng.Intn(3) {
				case 0:
					m.Add(m, new(big.Int).Lsh(bi(0xffffffff), 32*i))
				case 1:
					m.Add(m, new(big.Int).Lsh(bi(1), 32*i))
				}
			}
		case 2:
			for i := uint(0); i < 4; i++ {
				switch r.Rng.Intn(3) {
				case 0:
					m.Add(m, new(big.Int).Lsh(sub(new(big.Int).Lsh(bi(1), 64), bi(1)), 64*i))
				case 1:
					m.Add(m, new(big.Int).Lsh(new(big.Int).SetBytes(r.Bytes(8)), 64*i))
				}
			}
		}
		add(m)
	}
	return
}

// points on the curve of every interesting kind.
func (c *wei) points(r *Rec, random int) (ps []*pt) {
	add := func(p *pt) {
		if p != nil {
			ps = append(ps, p)
		}
	}
	q := c.g
	for i := 0; i < 9; i++ {
		add(q)
		add(c.neg(q))
		q = c.add(q, c.g)
	}
	for _, x := range c.extremes(r, 24) {
		add(c.lift(x, uint(r.Rng.Intn(2))))
	}
	for _, y := range c.extremes(r, 6) {
		add(c.liftY(y))
	}
	for _, p := range c.smallY(3) {
		add(p)
		add(c.neg(p))
	}
	for _, k := range short[c.name] {
		add(c.mulG(bi(k)))
	}
	zx, zy := 0, 0
	q = c.mulG(c.rnd(r))
	for i := 0; i < 4000 && zx+zy < 8; i++ {
		if q.x.BitLen() <= 248 && zx < 4 {
			zx++
			add(q)
		}
		if q.y.BitLen() <= 248 && zy < 4 {
			zy++
			add(q)
		}
		q = c.add(q, c.g)
	}
	for i := 0; i < random; i++ {
		add(c.mulG(c.rnd(r)))
	}
	return
}

// nonPoints: 64-byte strings that do not encode a point.
func (c *wei) nonPoints(r *Rec) (bs [][]byte) {
	add := func(b []byte) { bs = append(bs, b) }
	g := xy(c.g)
	add(make([]byte, 64))
	ff := make([]byte, 64)
	for i := range ff {
		ff[i] = 0xff
	}
	add(ff)
	add(r.Bytes(64))
	for i := 0; i < 6; i++ {
		b := append([]byte{}, g...)
		b[r.Rng.Intn(64)] ^= 1 << uint(r.Rng.Intn(8))
		add(b)
	}
	add(Cat(b32(c.g.x), make([]byte, 32)))
	add(Cat(make([]byte, 32), b32(c.g.y)))
	add(Cat(b32(c.g.y), b32(c.g.x)))
	add(Cat(b32(bi(0)), b32(bi(1))))
	// on the curve only when reduced
	for x := int64(0); x < 60; x++ {
		if p := c.lift(bi(x), uint(x&1)); p != nil {
			if v := plus(p.x, c.p); v.BitLen() <= 256 {
				add(Cat(b32(v), b32(p.y)))
			}
			if v := plus(p.y, c.p); v.BitLen() <= 256 {
				add(Cat(b32(p.x), b32(v)))
			}
		}
	}
	add(Cat(b32(c.p), b32(c.g.y)))
	for _, q := range c.smallY(3) {
		if v := plus(q.y, c.p); v.BitLen() <= 256 {
			add(Cat(b32(q.x), b32(v)))
		}
	}
	// on the twist or another curve: right x, wrong y
	for i := 0; i < 3; i++ {
		add(Cat(b32(c.mod(new(big.Int).SetBytes(r.Bytes(32)))), b32(c.g.y)))
	}
	for _, q := range c.near(r) {
		add(xy(q))
	}
	return
}

// near: points of curves that differ from this one in a coefficient, a sign or a factor,
// and coordinates of points of the curve in other places.
func (c *wei) near(r *Rec) (ps []*pt) {
	for k := 0; k < 14; k++ {
		for n := 0; n < 40; n++ {
			x := c.mod(new(big.Int).SetBytes(r.Bytes(56)))
			if n == 0 {
				x = c.mul(bi(int64(2+k)), c.g).x
			}
			x3 := new(big.Int).Exp(x, bi(3), c.p)
			ax := new(big.Int).Mul(c.a, x)
			t := c.rhs(x)
			switch k {
			case 0: // the other sign
				t.Neg(t)
			case 1: // without b
				t = plus(x3, ax)
			case 2: // -b
				t = sub(plus(x3, ax), c.b)
			case 3: // 2b
				t.Add(t, c.b)
			case 4: // b + 1
				t.Add(t, bi(1))
			case 5: // -a
				t = plus(sub(x3, ax), c.b)
			case 6: // without a, or a = 1
				if t = plus(x3, c.b); c.a.Sign() == 0 {
					t.Add(t, x)
				}
			case 7: // -x^3
				t = plus(sub(ax, x3), c.b)
			case 8, 9, 10, 11: // a multiple
				t.Mul(t, bi(int64(k-6)))
			case 12: // y alone
				t.Exp(t, bi(2), c.p)
			case 13: // x^2
				t = plus(plus(new(big.Int).Mul(x, x), ax), c.b)
			}
			y := new(big.Int).ModSqrt(c.mod(t), c.p)
			if y != nil && c.mod(new(big.Int).Mul(y, y)).Cmp(c.rhs(x)) != 0 {
				ps = append(ps, &pt{x, y})
				break
			}
		}
	}
	return
}

var flipped = map[[2]int]int{}

func gcd(a, b int) int {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func flips(r *Rec, b []byte, n int) (out [][]byte) {
	if n >= len(b)*8 {
		for i := 0; i < len(b)*8; i++ {
			c := append([]byte{}, b...)
			c[i/8] ^= 1 << uint(i%8)
			out = append(out, c)
		}
		return
	}
	// successive calls go through all positions; one in six changes two bytes alike
	key, bits := [2]int{len(b), n}, len(b)*8
	k, ok := flipped[key]
	if !ok {
		k = r.Part * bits / r.Parts
	}
	stride := bits*5/8 | 1
	for gcd(stride, bits) != 1 {
		stride += 2
	}
	for i := 0; i < n; i++ {
		c := append([]byte{}, b...)
		if p := r.Rng.Intn(len(c)); i%6 == 5 && len(c) > 1 {
			m := byte(0x80 >> uint(r.Rng.Intn(8)&r.Rng.Intn(8)))
			c[p] ^= m
			c[(p+1+r.Rng.Intn(len(c)-1))%len(c)] ^= m
		} else {
			p := k % bits * stride % bits
			c[p/8] ^= 1 << uint(p%8)
			k++
		}
		out = append(out, c)
	}
	flipped[key] = k
	return
}

// resized: the same string in every wrong length near by, and nil.
func resized(b []byte) (out [][]byte) {
	out = append(out, nil, []byte{}, b[:1], b[:len(b)-1], Cat(b, []byte{0}), Cat([]byte{0}, b), Cat(b, b), b[:len(b)/2], Cat([]byte{4}, b), Cat([]byte{2}, b[:32]))
	if len(b) > 1 {
		out = append(out, b[1:])
	}
	return
}
