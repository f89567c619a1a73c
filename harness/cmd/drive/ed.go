package main

import (
	"crypto/sha512"
	"math/big"

	. "aa/core"
)

// The Edwards form of Curve25519, used to make inputs.
type epoint struct{ x, y *big.Int }

var (
	edP = sub(new(big.Int).Lsh(bi(1), 255), bi(19))
	edL = hx("1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed")
	edD = hx("52036cee2b6ffe738cc740797779e89800700a4d4141d8ab75eb4dca135978a3")
	edB = &epoint{hx("216936d3cd6e53fec0a4e231fdd6dc5c692cc7609525a7b2c9562d608f25d51a"), hx("6666666666666666666666666666666666666666666666666666666666666658")}
)

func em(x *big.Int) *big.Int      { return new(big.Int).Mod(x, edP) }
func emul(x, y *big.Int) *big.Int { return em(new(big.Int).Mul(x, y)) }
func einv(x *big.Int) *big.Int {
	x = em(x)
	if x.Sign() == 0 {
		return bi(0)
	}
	return new(big.Int).ModInverse(x, edP)
}
func lm(x *big.Int) *big.Int      { return new(big.Int).Mod(x, edL) }
func lmul(x, y *big.Int) *big.Int { return lm(new(big.Int).Mul(x, y)) }

func eadd(p, q *epoint) *epoint {
	t := emul(edD, emul(emul(p.x, q.x), emul(p.y, q.y)))
	x := emul(plus(emul(p.x, q.y), emul(p.y, q.x)), einv(plus(bi(1), t)))
	y := emul(plus(emul(p.y, q.y), emul(p.x, q.x)), einv(sub(bi(1), t)))
	return &epoint{x, y}
}
func eneg(p *epoint) *epoint { return &epoint{em(new(big.Int).Neg(p.x)), p.y} }
func escale(k *big.Int, p *epoint) *epoint {
	r := &epoint{bi(0), bi(1)}
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = eadd(r, r)
		if k.Bit(i) == 1 {
			r = eadd(r, p)
		}
	}
	return r
}
func emulB(k *big.Int) *epoint { return escale(lm(k), edB) }

func le32(x *big.Int) []byte {
	b := b32(x)
	for i := 0; i < 16; i++ {
		b[i], b[31-i] = b[31-i], b[i]
	}
	return b
}
func fromLE(b []byte) *big.Int {
	c := make([]byte, len(b))
	for i := range b {
		c[len(b)-1-i] = b[i]
	}
	return new(big.Int).SetBytes(c)
}
func eenc(p *epoint) []byte {
	b := le32(p.y)
	b[31] |= byte(p.x.Bit(0)) << 7
	return b
}
func elift(y *big.Int, odd uint) *epoint {
	yy := emul(y, y)
	x := new(big.Int).ModSqrt(emul(sub(yy, bi(1)), einv(plus(emul(edD, yy), bi(1)))), edP)
	if x == nil {
		return nil
	}
	if x.Bit(0) != odd {
		x = em(new(big.Int).Neg(x))
	}
	return &epoint{x, em(y)}
}
func hashL(bs ...[]byte) *big.Int {
	h := sha512.Sum512(Cat(bs...))
	return lm(fromLE(h[:]))
}
func utoy(u *big.Int) *big.Int { return emul(sub(u, bi(1)), einv(plus(u, bi(1)))) }
func ytou(y *big.Int) *big.Int { return emul(plus(bi(1), y), einv(sub(bi(1), y))) }

// torsion: the eight points of order dividing 8.
func torsion() (t []*epoint) {
	for y := int64(2); ; y++ {
		p := elift(bi(y), 0)
		if p == nil {
			continue
		}
		q := escale(edL, p)
		o := escale(bi(4), q)
		if o.y.Cmp(bi(1)) != 0 {
			for i := int64(0); i < 8; i++ {
				t = append(t, escale(bi(i), q))
			}
			return
		}
	}
}

// fieldExtremes: numbers below 2^256 whose limbs, in the representations the
// library uses (ten limbs of 25.5 bits, bytes, 64-bit words), are extreme.
func fieldExtremes(r *Rec, n int) (xs []*big.Int) {
	two255 := new(big.Int).Lsh(bi(1), 255)
	for i := int64(0); i < 20; i++ {
		xs = append(xs, bi(i), sub(edP, bi(i)), plus(edP, bi(i)), sub(two255, bi(i+1)))
	}
	for i := uint(5); i < 256; i += 13 {
		xs = append(xs, new(big.Int).Lsh(bi(1), i), sub(new(big.Int).Lsh(bi(1), i), bi(1)))
	}
	xs = append(xs, new(big.Int).Rsh(edP, 1), plus(new(big.Int).Rsh(edP, 1), bi(1)), edL, sub(edL, bi(1)), plus(edL, bi(1)), hx("2b8324804fc1df0b2b4d00993dfbd7a72f431806ad2fe478c4ee1b274a0ea0b0"))
	for i := 0; i < n; i++ {
		x := bi(0)
		sh := uint(0)
		for j := uint(0); j < 10; j++ {
			w := 26 - j%2
			v := bi(0)
			switch r.Rng.Intn(6) {
			case 0:
				v = sub(new(big.Int).Lsh(bi(1), w), bi(1))
			case 1:
				v = new(big.Int).Lsh(bi(1), w-1)
			case 2:
				v = sub(new(big.Int).Lsh(bi(1), w-1), bi(1))
			case 3:
				v = bi(1)
			case 4:
				v = bi(int64(r.Rng.Intn(1 << 25)))
			}
			x.Add(x, new(big.Int).Lsh(v, sh))
			sh += w
		}
		xs = append(xs, x)
	}
	return
}

// scalarExtremes: 32-byte little-endian scalars.
func scalarExtremes(r *Rec, n int) (ks []*big.Int) {
	two := func(e uint) *big.Int { return new(big.Int).Lsh(bi(1), e) }
	for i := int64(0); i < 10; i++ {
		ks = append(ks, bi(i), sub(edL, bi(i+1)), plus(edL, bi(i)), sub(two(256), bi(i+1)), plus(two(255), bi(i)), sub(two(255), bi(i+1)))
	}
	for m := int64(2); m <= 16; m++ {
		k := new(big.Int).Mul(edL, bi(m))
		for _, d := range []int64{-1, 0, 1} {
			if v := plus(k, bi(d)); v.BitLen() <= 256 {
				ks = append(ks, v)
			}
		}
	}
	for e := uint(3); e < 256; e += 7 {
		ks = append(ks, two(e), sub(two(e), bi(1)))
	}
	for _, pat := range []byte{0x88, 0x77, 0x78, 0x87, 0x08, 0x80, 0x0f, 0xf0, 0x99, 0x66, 0x55, 0xaa, 0xf8} {
		b := make([]byte, 32)
		for i := range b {
			b[i] = pat
		}
		ks = append(ks, fromLE(b))
		b[31] &= 0x0f
		ks = append(ks, fromLE(b))
		b[31] &= 0x07
		ks = append(ks, fromLE(b))
	}
	for i := 0; i < n; i++ { // 21-bit limbs at their limits
		x := bi(0)
		for j := uint(0); j < 12; j++ {
			switch r.Rng.Intn(5) {
			case 0:
				x.Add(x, new(big.Int).Lsh(bi(1<<21-1), 21*j))
			case 1:
				x.Add(x, new(big.Int).Lsh(bi(1<<20), 21*j))
			case 2:
				x.Add(x, new(big.Int).Lsh(bi(1<<20-1), 21*j))
			case 3:
				x.Add(x, new(big.Int).Lsh(bi(int64(r.Rng.Intn(1<<21))), 21*j))
			}
		}
		ks = append(ks, x)
	}
	return
}

func clampBytes(b []byte) []byte {
	c := append([]byte{}, b...)
	c[0] &= 248
	c[31] &= 63
	c[31] |= 64
	return c
}
