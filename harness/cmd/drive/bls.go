package main

import (
	"crypto/sha256"
	"math/big"

	. "aa/core"
)

// BLS12-381's groups in textbook form, used to make inputs.
var (
	blsP = hx("1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab")
	blsR = hx("73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001")
	g1   = &wei{"BLS", "", blsP, bi(0), bi(4), blsR,
		&pt{hx("17f1d3a73197d7942695638c4fa9ac0fc3688c4f9774b905a14e3a3f171bac586c55e83ff97a1aeffb3af00adb22c6bb"),
			hx("08b3f481e3aaa0f1a09e30ed741d8ae4fcf5e095d5d00af600db18cb2c04b3edd03cc744a2888ae40caa232946c5e7e1")}}
)

func b48(x *big.Int) []byte {
	r := make([]byte, 48)
	b := x.Bytes()
	copy(r[48-len(b):], b)
	return r
}
func larger(y *big.Int) bool { return new(big.Int).Lsh(y, 1).Cmp(blsP) > 0 }
func g1enc(p *pt) []byte {
	if p == nil {
		r := make([]byte, 48)
		r[0] = 0xc0
		return r
	}
	b := b48(p.x)
	b[0] |= 0x80
	if larger(p.y) {
		b[0] |= 0x20
	}
	return b
}
func (c *wei) rawMul(k *big.Int, p *pt) *pt {
	var r *pt
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = c.add(r, r)
		if k.Bit(i) == 1 {
			r = c.add(r, p)
		}
	}
	return r
}

// g1any is a point of the curve that need not be in the subgroup.
func g1any(r *Rec) *pt {
	for {
		x := new(big.Int).Mod(new(big.Int).SetBytes(r.Bytes(56)), blsP)
		if p := g1.lift(x, uint(r.Rng.Intn(2))); p != nil {
			return p
		}
	}
}

type f2 struct{ a, b *big.Int } // a + b i
type pt2 struct{ x, y f2 }

func fm(x *big.Int) *big.Int { return new(big.Int).Mod(x, blsP) }
func (x f2) add(y f2) f2     { return f2{fm(plus(x.a, y.a)), fm(plus(x.b, y.b))} }
func (x f2) sub(y f2) f2     { return f2{fm(sub(x.a, y.a)), fm(sub(x.b, y.b))} }
func (x f2) mul(y f2) f2 {
	m := func(u, v *big.Int) *big.Int { return new(big.Int).Mul(u, v) }
	return f2{fm(sub(m(x.a, y.a), m(x.b, y.b))), fm(plus(m(x.a, y.b), m(x.b, y.a)))}
}
func (x f2) norm() *big.Int {
	return fm(plus(new(big.Int).Mul(x.a, x.a), new(big.Int).Mul(x.b, x.b)))
}
func (x f2) inv() f2 {
	t := new(big.Int).ModInverse(x.norm(), blsP)
	if t == nil {
		return f2{bi(0), bi(0)}
	}
	return f2{fm(new(big.Int).Mul(x.a, t)), fm(new(big.Int).Neg(new(big.Int).Mul(x.b, t)))}
}
func (x f2) eq(y f2) bool { return x.a.Cmp(y.a) == 0 && x.b.Cmp(y.b) == 0 }
func (x f2) sqrt() (f2, bool) {
	if x.b.Sign() == 0 {
		if s := new(big.Int).ModSqrt(x.a, blsP); s != nil {
			return f2{s, bi(0)}, true
		}
		return f2{bi(0), new(big.Int).ModSqrt(fm(new(big.Int).Neg(x.a)), blsP)}, true
	}
	s := new(big.Int).ModSqrt(x.norm(), blsP)
	if s == nil {
		return f2{}, false
	}
	half := new(big.Int).ModInverse(bi(2), blsP)
	t := new(big.Int).ModSqrt(fm(new(big.Int).Mul(plus(x.a, s), half)), blsP)
	if t == nil {
		t = new(big.Int).ModSqrt(fm(new(big.Int).Mul(sub(x.a, s), half)), blsP)
	}
	return f2{t, fm(new(big.Int).Mul(x.b, new(big.Int).ModInverse(fm(new(big.Int).Lsh(t, 1)), blsP)))}, true
}
func g2lift(x f2) *pt2 {
	y, ok := x.mul(x).mul(x).add(f2{bi(4), bi(4)}).sqrt()
	if !ok {
		return nil
	}
	return &pt2{x, y}
}
func g2neg(p *pt2) *pt2 {
	if p == nil {
		return nil
	}
	return &pt2{p.x, f2{bi(0), bi(0)}.sub(p.y)}
}
func g2add(p, q *pt2) *pt2 {
	if p == nil {
		return q
	}
	if q == nil {
		return p
	}
	var m f2
	if p.x.eq(q.x) {
		if !p.y.eq(q.y) || p.y.norm().Sign() == 0 {
			return nil
		}
		xx := p.x.mul(p.x)
		m = xx.add(xx).add(xx).mul(p.y.add(p.y).inv())
	} else {
		m = q.y.sub(p.y).mul(q.x.sub(p.x).inv())
	}
	x := m.mul(m).sub(p.x).sub(q.x)
	return &pt2{x, m.mul(p.x.sub(x)).sub(p.y)}
}
func g2mul(k *big.Int, p *pt2) *pt2 {
	var r *pt2
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = g2add(r, r)
		if k.Bit(i) == 1 {
			r = g2add(r, p)
		}
	}
	return r
}
func g2enc(p *pt2) []byte {
	if p == nil {
		r := make([]byte, 96)
		r[0] = 0xc0
		return r
	}
	b := Cat(b48(p.x.b), b48(p.x.a))
	b[0] |= 0x80
	if p.y.b.Sign() != 0 && larger(p.y.b) || p.y.b.Sign() == 0 && larger(p.y.a) {
		b[0] |= 0x20
	}
	return b
}
func g2dec(s []byte) *pt2 {
	c := append([]byte{}, s...)
	c[0] &= 0x1f
	p := g2lift(f2{fm(new(big.Int).SetBytes(c[48:])), fm(new(big.Int).SetBytes(c[:48]))})
	if p != nil && g2enc(p)[0]&0x20 != s[0]&0x20 {
		p = g2neg(p)
	}
	return p
}

// g2any is a point of the curve, in general outside the subgroup.
func g2any(r *Rec) *pt2 {
	for {
		x := f2{fm(new(big.Int).SetBytes(r.Bytes(56))), fm(new(big.Int).SetBytes(r.Bytes(56)))}
		if p := g2lift(x); p != nil {
			return p
		}
	}
}

// blsSk derives a private key.
func blsSk(r *Rec) *big.Int {
	h := sha256.Sum256(r.Bytes(32))
	k := new(big.Int).Mod(new(big.Int).SetBytes(h[:]), sub(blsR, bi(1)))
	return plus(k, bi(1))
}

func blsScalars() (ks []*big.Int) {
	for i := int64(0); i < 4; i++ {
		ks = append(ks, plus(bi(i), bi(1)), sub(blsR, bi(i+1)))
	}
	for _, e := range []uint{8, 31, 32, 63, 64, 127, 128, 191, 192, 253, 254} {
		ks = append(ks, new(big.Int).Lsh(bi(1), e), sub(new(big.Int).Lsh(bi(1), e), bi(1)))
	}
	ks = append(ks, new(big.Int).Rsh(blsR, 1), plus(new(big.Int).Rsh(blsR, 1), bi(1)),
		hx("00000000ffffffff00000000ffffffff00000000ffffffff00000000ffffffff"), hx("5555555555555555555555555555555555555555555555555555555555555555"))
	return
}
func blsBadScalars() (ks [][]byte) {
	two := func(e uint) *big.Int { return new(big.Int).Lsh(bi(1), e) }
	for _, k := range []*big.Int{bi(0), blsR, plus(blsR, bi(1)), new(big.Int).Lsh(blsR, 1), plus(new(big.Int).Lsh(blsR, 1), bi(7)), two(255), sub(two(256), bi(1))} {
		ks = append(ks, b32(k))
	}
	return append(ks, nil, []byte{}, []byte{1}, make([]byte, 31), make([]byte, 33), Cat(make([]byte, 32), []byte{1}), Cat([]byte{1}, make([]byte, 31), []byte{9}))
}
