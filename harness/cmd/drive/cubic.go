package main

import "math/big"

// poly is a polynomial over the field of a curve, lowest coefficient first.
type poly []*big.Int

func (c *wei) norm(f poly) poly {
	g := make(poly, len(f))
	for i := range f {
		g[i] = new(big.Int).Mod(f[i], c.p)
	}
	for len(g) > 0 && g[len(g)-1].Sign() == 0 {
		g = g[:len(g)-1]
	}
	return g
}

func (c *wei) polyRem(f, g poly) poly {
	f, g = c.norm(f), c.norm(g)
	inv := new(big.Int).ModInverse(g[len(g)-1], c.p)
	for len(f) >= len(g) {
		q := new(big.Int).Mul(f[len(f)-1], inv)
		for i := range g {
			j := len(f) - len(g) + i
			f[j] = new(big.Int).Sub(f[j], new(big.Int).Mul(q, g[i]))
		}
		f = c.norm(f)
	}
	return f
}

func (c *wei) polyGcd(f, g poly) poly {
	for len(c.norm(g)) > 0 {
		f, g = g, c.polyRem(f, g)
	}
	return c.norm(f)
}

func (c *wei) polyPow(f poly, e *big.Int, m poly) poly {
	out := poly{bi(1)}
	mulm := func(a, b poly) poly {
		t := make(poly, len(a)+len(b))
		for i := range t {
			t[i] = bi(0)
		}
		for i := range a {
			for j := range b {
				t[i+j].Add(t[i+j], new(big.Int).Mul(a[i], b[j]))
			}
		}
		return c.polyRem(t, m)
	}
	for i := e.BitLen() - 1; i >= 0; i-- {
		out = mulm(out, out)
		if e.Bit(i) == 1 {
			out = mulm(out, f)
		}
	}
	return out
}

// liftY is a point of the curve with the given y, if there is one.
func (c *wei) liftY(y *big.Int) *pt {
	f := poly{new(big.Int).Sub(c.b, new(big.Int).Mul(y, y)), c.a, bi(0), bi(1)}
	d := c.polyPow(poly{bi(0), bi(1)}, c.p, f)
	for len(d) < 2 {
		d = append(d, bi(0))
	}
	d[1] = new(big.Int).Sub(d[1], bi(1))
	g := c.polyGcd(f, d)
	for k := int64(1); len(g) > 2; k++ {
		t := c.polyPow(poly{bi(k), bi(1)}, new(big.Int).Rsh(c.p, 1), g)
		for len(t) < 1 {
			t = append(t, bi(0))
		}
		t[0] = new(big.Int).Sub(t[0], bi(1))
		if h := c.polyGcd(g, t); len(h) > 1 && len(h) < len(g) {
			g = h
		}
	}
	if len(g) != 2 {
		return nil
	}
	x := new(big.Int).Mul(g[0], new(big.Int).ModInverse(g[1], c.p))
	return &pt{c.mod(x.Neg(x)), new(big.Int).Mod(y, c.p)}
}

// smallY: points with the smallest y.
func (c *wei) smallY(n int) (ps []*pt) {
	for y := int64(1); len(ps) < n && y < 100; y++ {
		if p := c.liftY(bi(y)); p != nil {
			ps = append(ps, p)
		}
	}
	return
}
