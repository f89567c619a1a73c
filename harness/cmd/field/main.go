// field executes the exported field and scalar arithmetic on operands chosen at
// the limits of its ranges and records the results.
package main

import (
	"encoding/binary"
	"encoding/hex"
	"flag"
	"fmt"
	"math/big"
	"time"

	. "aa/core"

	"github.com/blocktree/go-owcrypt/eddsa/edwards25519"
	"github.com/blocktree/go-owcrypt/pasta"
)

func main() {
	flag.String("prop", "", "property")
	out := flag.String("out", "", "trace file")
	seed := flag.Int64("seed", 1, "seed")
	tier := flag.String("tier", "quick", "tier")
	part := flag.Int("part", 0, "part of the run")
	parts := flag.Int("parts", 1, "number of parts")
	flag.Parse()
	r := New(*out, *seed*1000+int64(*part))
	r.Part, r.Parts, r.Tier = *part, *parts, *tier
	r.Watch(90 * time.Second)
	edwards(r)
	fiat(r)
	r.Close()
	fmt.Printf("calls %d\n", r.N)
}

// call performs f and records what it put in m.
func call(r *Rec, m M, f func(m M)) {
	r.N++
	m["st"] = "OK"
	func() {
		defer func() {
			if e := recover(); e != nil {
				m["st"] = "PANIC"
				m["panic"] = fmt.Sprint(e)
			}
		}()
		f(m)
	}()
	r.Write(m)
}

func bi(x int64) *big.Int { return big.NewInt(x) }
func hx(s string) *big.Int {
	x, _ := new(big.Int).SetString(s, 16)
	return x
}
func add(a, b *big.Int) *big.Int { return new(big.Int).Add(a, b) }
func sub(a, b *big.Int) *big.Int { return new(big.Int).Sub(a, b) }
func mul(a, b *big.Int) *big.Int { return new(big.Int).Mul(a, b) }
func mod(a, m *big.Int) *big.Int { return new(big.Int).Mod(a, m) }
func pow2(k uint) *big.Int       { return new(big.Int).Lsh(bi(1), k) }
func rnd(r *Rec, m *big.Int) *big.Int {
	return new(big.Int).Rand(r.Rng, m)
}

// pattern is a number of the given size whose words are mostly all zeros or ones.
func pattern(r *Rec, bits uint) *big.Int {
	w := []uint{8, 16, 21, 26, 32, 51, 64}[r.Rng.Intn(7)]
	x := bi(0)
	for i := uint(0); i < bits; i += w {
		x.Lsh(x, w)
		switch r.Rng.Intn(6) {
		case 0, 1:
		case 2, 3:
			x.Or(x, sub(pow2(w), bi(1)))
		case 4:
			x.Or(x, bi(int64(r.Rng.Intn(3))))
		default:
			x.Or(x, rnd(r, pow2(w)))
		}
	}
	return mod(x, pow2(bits))
}

// ---------------------------------------------------------------- edwards25519

type fe = edwards25519.FieldElement

var (
	feP = sub(pow2(255), bi(19))
	scL = hx("1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed")
)
var feBits = [10]uint{26, 25, 26, 25, 26, 25, 26, 25, 26, 25}

func ints(f *fe) []int {
	l := make([]int, 10)
	for i := range f {
		l[i] = int(f[i])
	}
	return l
}

// limbs writes v (which may be negative) in ten limbs, the last taking the rest.
func limbs(v *big.Int) *fe {
	var f fe
	v = new(big.Int).Set(v)
	for i := 0; i < 9; i++ {
		d := mod(v, pow2(feBits[i]))
		if d.Bit(int(feBits[i])-1) == 1 {
			d.Sub(d, pow2(feBits[i]))
		}
		f[i] = int32(d.Int64())
		v.Sub(v, d)
		v.Rsh(v, feBits[i])
	}
	f[9] = int32(v.Int64())
	return &f
}

// extreme fills limbs from the values within the bound b.
func extreme(r *Rec, b int32) *fe {
	var f fe
	style := r.Rng.Intn(6)
	for i := range f {
		m := b
		if i%2 == 1 {
			m = b / 2
		}
		switch style {
		case 0:
			f[i] = m
		case 1:
			f[i] = -m
		case 2:
			f[i] = []int32{m, -m}[r.Rng.Intn(2)]
		case 3:
			f[i] = []int32{m, -m, 0, 1, -1, 1 << (feBits[i] - 1), -(1 << (feBits[i] - 1)), 1<<(feBits[i]-1) - 1}[r.Rng.Intn(8)]
		case 4:
			if r.Rng.Intn(10) == 0 {
				f[i] = []int32{m, -m}[r.Rng.Intn(2)]
			}
		default:
			f[i] = int32(r.Rng.Int63n(2*int64(m)+1) - int64(m))
		}
	}
	return &f
}

func near(r *Rec, m *big.Int) *big.Int {
	d := bi(int64(r.Rng.Intn(41) - 20))
	if r.Rng.Intn(3) == 0 {
		d = mul(d, pow2(uint(r.Rng.Intn(255))))
	}
	return add(m, d)
}

func tight(r *Rec) *fe {
	switch r.Rng.Intn(5) {
	case 0:
		return limbs(near(r, bi(0)))
	case 1:
		return fit(near(r, mul(feP, bi(int64(r.Rng.Intn(3)-1)))))
	case 2:
		return fit(pattern(r, 255))
	}
	return extreme(r, 36909875)
}

// fit is limbs of v, reduced when it does not fit the tight bounds.
func fit(v *big.Int) *fe {
	lim := pow2(254)
	if new(big.Int).Abs(v).Cmp(lim) > 0 {
		// the top limb may go a little beyond 2^24
		if new(big.Int).Abs(v).Cmp(new(big.Int).Div(mul(lim, bi(109)), bi(100))) > 0 {
			v = mod(v, feP)
			if v.Cmp(lim) > 0 {
				v = sub(v, feP)
			}
		}
	}
	return limbs(v)
}

func loose(r *Rec) *fe {
	if r.Rng.Intn(3) == 0 {
		return tight(r)
	}
	return extreme(r, 110729625)
}

// wideCode is a sum or a difference as it is: a value from -p to p in limbs of
// up to twice the size.
func wideCode(r *Rec) *fe {
	v := near(r, mul(feP, bi(int64(r.Rng.Intn(3)-1))))
	switch r.Rng.Intn(4) {
	case 0:
		v = sub(pattern(r, 256), pow2(255))
	case 1, 2:
		ds := []int64{0, 0, 1, -1, 18, 19, 20, -18, -19, -20}
		v = add(mul(feP, bi(int64(r.Rng.Intn(3)-1))), bi(ds[r.Rng.Intn(len(ds))]))
	}
	for new(big.Int).Abs(v).Cmp(feP) > 0 {
		v = new(big.Int).Quo(v, bi(2))
	}
	h := new(big.Int).Quo(v, bi(2))
	if r.Rng.Intn(3) == 0 {
		h.Add(h, rnd(r, pow2(250)))
	}
	x, y := limbs(h), limbs(sub(v, h))
	for j := range x {
		x[j] += y[j]
	}
	// the same value with large limbs
	sign := int32(1 - 2*r.Rng.Intn(2))
	often := r.Rng.Intn(3)
	for j := 9; j > 0 && often > 0; j-- {
		s := sign
		if x[j-1] > 0 {
			s = -1
		} else if x[j-1] < 0 {
			s = 1
		}
		if often == 1 || r.Rng.Intn(2) == 0 {
			x[j] -= s
			x[j-1] += s << feBits[j-1]
		}
	}
	return x
}

func edwards(r *Rec) {
	n := r.Scale(5000, 200000) / r.Parts
	bin := func(op string, a, b *fe, f func(d, a, b *fe)) {
		call(r, M{"F": "ed", "op": op, "a": ints(a), "b": ints(b)}, func(m M) {
			x, y := *a, *b
			var d fe
			switch r.Rng.Intn(4) {
			case 0: // the result may be stored over an operand
				f(&x, &x, &y)
				d = x
			case 1:
				f(&y, &x, &y)
				d = y
			default:
				f(&d, &x, &y)
				if x != *a || y != *b {
					m["st"] = "OPERAND CHANGED"
				}
			}
			m["out"] = ints(&d)
		})
	}
	un := func(op string, a *fe, f func(d, a *fe)) {
		call(r, M{"F": "ed", "op": op, "a": ints(a)}, func(m M) {
			x := *a
			var d fe
			if r.Rng.Intn(3) == 0 {
				f(&x, &x)
				d = x
			} else {
				f(&d, &x)
				if x != *a {
					m["st"] = "OPERAND CHANGED"
				}
			}
			m["out"] = ints(&d)
		})
	}
	bytesOf := func(a *fe) {
		call(r, M{"F": "ed", "op": "FeToBytes", "a": ints(a)}, func(m M) {
			x := *a
			var s [32]byte
			edwards25519.FeToBytes(&s, &x)
			m["out"] = s[:]
		})
		call(r, M{"F": "ed", "op": "FeIsNegative", "a": ints(a)}, func(m M) { x := *a; m["out"] = int(edwards25519.FeIsNegative(&x)) })
		call(r, M{"F": "ed", "op": "FeIsNonZero", "a": ints(a)}, func(m M) { x := *a; m["out"] = int(edwards25519.FeIsNonZero(&x)) })
	}
	for i := 0; i < n; i++ {
		bin("FeMul", loose(r), loose(r), edwards25519.FeMul)
		un("FeSquare", loose(r), edwards25519.FeSquare)
		un("FeSquare2", loose(r), edwards25519.FeSquare2)
		if i%2 == 0 {
			bin("FeAdd", tight(r), tight(r), edwards25519.FeAdd)
			bin("FeSub", tight(r), tight(r), edwards25519.FeSub)
			un("FeNeg", tight(r), edwards25519.FeNeg)
			bytesOf(tight(r))
			for j := 0; j < 3; j++ {
				bytesOf(wideCode(r))
			}
		}
		if i%10 == 0 {
			un("FeInvert", loose(r), edwards25519.FeInvert)
		}
		// a product with a value near 0 or p
		if a := tight(r); i%4 == 0 {
			v := bi(0)
			off := uint(0)
			for j := range a {
				v.Add(v, mul(bi(int64(a[j])), pow2(off)))
				off += feBits[j]
			}
			if inv := new(big.Int).ModInverse(mod(v, feP), feP); inv != nil {
				b := mod(mul(near(r, bi(0)), inv), feP)
				if r.Rng.Intn(2) == 0 {
					b = sub(b, feP)
				}
				bin("FeMul", a, fit(b), edwards25519.FeMul)
			}
		}
		b := pattern(r, 256)
		switch i % 4 {
		case 0:
			b = mod(near(r, mul(feP, bi(int64(r.Rng.Intn(3))))), pow2(256))
		case 1:
			b = mod(near(r, pow2(255)), pow2(256))
		}
		var s [32]byte
		for j, x := range b.FillBytes(make([]byte, 32)) {
			s[31-j] = x
		}
		call(r, M{"F": "ed", "op": "FeFromBytes", "a": append([]byte{}, s[:]...)}, func(m M) {
			var d fe
			edwards25519.FeFromBytes(&d, &s)
			m["out"] = ints(&d)
			bytesOf(&d)
		})
		// scalars
		le := func(v *big.Int, n int) []byte {
			o := make([]byte, n)
			for j, x := range mod(v, pow2(uint(8*n))).FillBytes(make([]byte, n)) {
				o[n-1-j] = x
			}
			return o
		}
		kL := func() *big.Int {
			k := rnd(r, pow2(uint(1+r.Rng.Intn(259))))
			return near(r, mul(k, scL))
		}
		wide := []*big.Int{pattern(r, 512), kL(), near(r, pow2(uint(240+r.Rng.Intn(272)))), rnd(r, pow2(512)), near(r, pow2(512)), near(r, mul(bi(int64(r.Rng.Intn(40))), scL))}[r.Rng.Intn(6)]
		in := le(wide, 64)
		call(r, M{"F": "ed", "op": "ScReduce", "a": in}, func(m M) {
			var o [32]byte
			var s [64]byte
			copy(s[:], in)
			edwards25519.ScReduce(&o, &s)
			m["out"] = o[:]
		})
		sc := func() *big.Int {
			switch r.Rng.Intn(5) {
			case 0:
				return pattern(r, 256)
			case 1:
				return mod(near(r, mul(bi(int64(r.Rng.Intn(16))), scL)), pow2(256))
			case 2:
				return mod(near(r, pow2(uint(250+r.Rng.Intn(7)))), pow2(256))
			case 3:
				return rnd(r, scL)
			}
			return rnd(r, pow2(256))
		}
		a, b2, c := sc(), sc(), sc()
		if r.Rng.Intn(3) == 0 { // a*b + c near a multiple of the order
			c = mod(sub(near(r, bi(0)), mul(a, b2)), scL)
		}
		av, bv, cv := le(a, 32), le(b2, 32), le(c, 32)
		call(r, M{"F": "ed", "op": "ScMulAdd", "a": av, "b": bv, "c": cv}, func(m M) {
			var s, x, y, z [32]byte
			copy(x[:], av)
			copy(y[:], bv)
			copy(z[:], cv)
			switch r.Rng.Intn(4) {
			case 0:
				edwards25519.ScMulAdd(&z, &x, &y, &z)
				s = z
			case 1:
				edwards25519.ScMulAdd(&x, &x, &y, &z)
				s = x
			default:
				edwards25519.ScMulAdd(&s, &x, &y, &z)
			}
			m["out"] = s[:]
		})
	}
	for i := 0; i < 20; i++ {
		a, b := loose(r), loose(r)
		call(r, M{"F": "ed", "op": "FeCMove", "a": ints(a), "b": ints(b), "n": i % 2}, func(m M) {
			x, y := *a, *b
			edwards25519.FeCMove(&x, &y, int32(i%2))
			m["out"] = ints(&x)
		})
		call(r, M{"F": "ed", "op": "FeCopy", "a": ints(a)}, func(m M) {
			x := *b
			edwards25519.FeCopy(&x, a)
			m["out"] = ints(&x)
		})
		call(r, M{"F": "ed", "op": "FeZero"}, func(m M) { x := *a; edwards25519.FeZero(&x); m["out"] = ints(&x) })
		call(r, M{"F": "ed", "op": "FeOne"}, func(m M) { x := *a; edwards25519.FeOne(&x); m["out"] = ints(&x) })
	}
}

// ----------------------------------------------------------------------- pasta

type w4 = [4]uint64
type w5 = [5]uint64

func toW(v *big.Int) (w w4) {
	b := v.FillBytes(make([]byte, 32))
	for i := range w {
		w[i] = binary.BigEndian.Uint64(b[24-8*i:])
	}
	return
}
func be(w []uint64) []byte {
	o := make([]byte, 8*len(w))
	for i := range w {
		binary.BigEndian.PutUint64(o[8*(len(w)-1-i):], w[i])
	}
	return o
}
func toW5(v *big.Int) (w w5) {
	b := mod(v, pow2(320)).FillBytes(make([]byte, 40))
	for i := range w {
		w[i] = binary.BigEndian.Uint64(b[32-8*i:])
	}
	return
}

func flag1(b bool) int {
	if b {
		return 1
	}
	return 0
}

type fld struct {
	name                    string
	m                       *big.Int
	add, sub, mul           func(*w4, w4, w4)
	sq, opp, from, to, copy func(*w4, w4)
	nz                      func(*uint64, w4)
	sel                     func(*w4, uint64, w4, w4)
	toB                     func(*[32]uint8, w4)
	fromB                   func(*w4, [32]uint8)
	one, pre                func(*w4)
	msat                    func(*w5)
	div                     func(*uint64, *w5, *w5, *w4, *w4, uint64, w5, w5, w4, w4)
	eq                      func(w4, w4) bool
	hAdd, hSub, hMul        func(w4, w4) w4
	hSq, hNeg, hCopy        func(w4) w4
	hEq                     func(w4, w4) bool
	hHex                    func(string) (w4, bool)
	toMontBE                func([]byte) w4
	fromMontBE              func(w4) []byte
	addC, subB              func(*uint64, *uint64, uint64, uint64, uint64)
	mulX                    func(*uint64, *uint64, uint64, uint64)
	cmov                    func(*uint64, uint64, uint64, uint64)
}

func fields() []*fld {
	F := func(f func(c *pasta.Field, a, b pasta.Field)) func(w4, w4) w4 {
		return func(a, b w4) w4 {
			var x, y, c pasta.Field
			x.Set(a)
			y.Set(b)
			f(&c, x, y)
			return c.ToU64Array()
		}
	}
	F1 := func(f func(c *pasta.Field, a pasta.Field)) func(w4) w4 {
		return func(a w4) w4 {
			var x, c pasta.Field
			x.Set(a)
			f(&c, x)
			return c.ToU64Array()
		}
	}
	S := func(f func(c *pasta.Scalar, a, b pasta.Scalar)) func(w4, w4) w4 {
		return func(a, b w4) w4 {
			var x, y, c pasta.Scalar
			x.Set(a)
			y.Set(b)
			f(&c, x, y)
			return c.ToU64Array()
		}
	}
	S1 := func(f func(c *pasta.Scalar, a pasta.Scalar)) func(w4) w4 {
		return func(a w4) w4 {
			var x, c pasta.Scalar
			x.Set(a)
			f(&c, x)
			return c.ToU64Array()
		}
	}
	return []*fld{
		{name: "Fp", m: hx("40000000000000000000000000000000224698fc094cf91b992d30ed00000001"),
			add: pasta.FiatPastaFpAdd, sub: pasta.FiatPastaFpSub, mul: pasta.FiatPastaFpMul, sq: pasta.FiatPastaFpSquare, opp: pasta.FiatPastaFpOpp,
			from: pasta.FiatPastaFpFromMontgomery, to: pasta.FiatPastaFpToMontgomery, copy: pasta.FiatPastaFpCopy, nz: pasta.FiatPastaFpNonZero,
			sel: func(o *w4, c uint64, a, b w4) { pasta.FiatPastaFpSelectZnz(o, pasta.FiatPastaFpUint1(c), a, b) },
			toB: pasta.FiatPastaFpToBytes, fromB: pasta.FiatPastaFpFromBytes, one: pasta.FiatPastaFpSetOne, pre: pasta.FiatPastaFpDivStepPreComp,
			msat: pasta.FiatPastaFpMSat, div: pasta.FiatPastaFpDivStep, eq: pasta.FiatPastaFpEquals,
			hAdd: F(pasta.FieldAdd), hSub: F(pasta.FieldSub), hMul: F(pasta.FieldMul), hSq: F1(pasta.FieldSq), hNeg: F1(pasta.FieldNegate), hCopy: F1(pasta.FieldCopy),
			hEq: func(a, b w4) bool {
				var x, y pasta.Field
				x.Set(a)
				y.Set(b)
				return pasta.FieldEq(x, y) == 1
			},
			hHex: func(s string) (w4, bool) {
				var x pasta.Field
				ok := pasta.FieldFromHex(&x, s)
				return x.ToU64Array(), ok
			},
			toMontBE: pasta.BigEndianBytesToFpMontgomeryArray, fromMontBE: pasta.FpMontgomeryArrayToBigEndianBytes,
			addC: func(o, c *uint64, n, a, b uint64) {
				var t pasta.FiatPastaFpUint1
				pasta.FiatPastaFpAddCarryXU64(o, &t, pasta.FiatPastaFpUint1(n), a, b)
				*c = uint64(t)
			},
			subB: func(o, c *uint64, n, a, b uint64) {
				var t pasta.FiatPastaFpUint1
				pasta.FiatPastaFpSubBorrowXU64(o, &t, pasta.FiatPastaFpUint1(n), a, b)
				*c = uint64(t)
			},
			mulX: pasta.FiatPastaFpMulXU64,
			cmov: func(o *uint64, n, a, b uint64) { pasta.FiatPastaFpCmovznzU64(o, pasta.FiatPastaFpUint1(n), a, b) }},
		{name: "Fq", m: hx("40000000000000000000000000000000224698fc0994a8dd8c46eb2100000001"),
			add: pasta.FiatPastaFqAdd, sub: pasta.FiatPastaFqSub, mul: pasta.FiatPastaFqMul, sq: pasta.FiatPastaFqSquare, opp: pasta.FiatPastaFqOpp,
			from: pasta.FiatPastaFqFromMontgomery, to: pasta.FiatPastaFqToMontgomery, copy: pasta.FiatPastaFqCopy, nz: pasta.FiatPastaFqNonZero,
			sel: func(o *w4, c uint64, a, b w4) { pasta.FiatPastaFqSelectZnz(o, pasta.FiatPastaFqUint1(c), a, b) },
			toB: pasta.FiatPastaFqToBytes, fromB: pasta.FiatPastaFqFromBytes, one: pasta.FiatPastaFqSetOne, pre: pasta.FiatPastaFqDivStepPreComp,
			msat: pasta.FiatPastaFqMSat, div: pasta.FiatPastaFqDivStep, eq: pasta.FiatPastaFqEquals,
			hAdd: S(pasta.ScalarAdd), hSub: S(pasta.ScalarSub), hMul: S(pasta.ScalarMul), hSq: S1(pasta.ScalarSq), hNeg: S1(pasta.ScalarNegate), hCopy: S1(pasta.ScalarCopy),
			hEq: func(a, b w4) bool {
				var x, y pasta.Scalar
				x.Set(a)
				y.Set(b)
				return pasta.ScalarEq(x, y)
			},
			hHex: func(s string) (w4, bool) {
				var x pasta.Scalar
				ok := pasta.ScalarFromHex(&x, s)
				return x.ToU64Array(), ok
			},
			toMontBE: pasta.BigEndianBytesToFqMontgomeryArray, fromMontBE: pasta.FqMontgomeryArrayToBigEndianBytes,
			addC: func(o, c *uint64, n, a, b uint64) {
				var t pasta.FiatPastaFqUint1
				pasta.FiatPastaFqAddCarryXU64(o, &t, pasta.FiatPastaFqUint1(n), a, b)
				*c = uint64(t)
			},
			subB: func(o, c *uint64, n, a, b uint64) {
				var t pasta.FiatPastaFqUint1
				pasta.FiatPastaFqSubBorrowXU64(o, &t, pasta.FiatPastaFqUint1(n), a, b)
				*c = uint64(t)
			},
			mulX: pasta.FiatPastaFqMulXU64,
			cmov: func(o *uint64, n, a, b uint64) { pasta.FiatPastaFqCmovznzU64(o, pasta.FiatPastaFqUint1(n), a, b) }},
	}
}

func fiat(r *Rec) {
	for _, f := range fields() {
		fiatField(r, f)
	}
}

func fiatField(r *Rec, f *fld) {
	m := f.m
	R := mod(pow2(256), m)
	Ri := new(big.Int).ModInverse(R, m)
	special := []*big.Int{bi(0), bi(1), bi(2), sub(m, bi(1)), sub(m, bi(2)), R, mod(mul(R, R), m), sub(m, R), Ri, sub(pow2(254), bi(1)), pow2(254)}
	for k := uint(64); k < 256; k += 64 {
		special = append(special, pow2(k), sub(pow2(k), bi(1)), sub(m, pow2(k)), sub(pow2(254), pow2(k)))
	}
	one := func() *big.Int {
		switch r.Rng.Intn(6) {
		case 0:
			return mod(special[r.Rng.Intn(len(special))], m)
		case 1, 2:
			return mod(pattern(r, 254), m)
		case 3:
			return mod(near(r, special[r.Rng.Intn(len(special))]), m)
		}
		return rnd(r, m)
	}
	rec := func(op string, in M, g func(o M)) {
		in["F"], in["op"] = f.name, op
		call(r, in, g)
	}
	bin := func(op string, a, b *big.Int, g func(*w4, w4, w4), h func(w4, w4) w4) {
		rec(op, M{"a": b32(a), "b": b32(b)}, func(o M) {
			var d w4
			if r.Rng.Intn(4) == 0 && h != nil {
				d = h(toW(a), toW(b))
			} else if r.Rng.Intn(2) == 0 { // over an operand
				d = toW(a)
				g(&d, d, toW(b))
			} else {
				d = w4{1, 2, 3, 4}
				g(&d, toW(a), toW(b))
			}
			o["out"] = be(d[:])
		})
	}
	un := func(op string, a *big.Int, g func(*w4, w4), h func(w4) w4) {
		rec(op, M{"a": b32(a)}, func(o M) {
			var d w4
			if r.Rng.Intn(4) == 0 && h != nil {
				d = h(toW(a))
			} else {
				d = toW(a)
				if r.Rng.Intn(2) == 0 {
					d = w4{1, 2, 3, 4}
				}
				g(&d, toW(a))
			}
			o["out"] = be(d[:])
		})
	}
	// all pairs of the special operands
	for i, a := range special {
		if r.Skip(i) {
			continue
		}
		for _, b := range special {
			a, b := mod(a, m), mod(b, m)
			bin("Add", a, b, f.add, f.hAdd)
			bin("Sub", a, b, f.sub, f.hSub)
			bin("Mul", a, b, f.mul, f.hMul)
		}
		a := mod(a, m)
		un("Square", a, f.sq, f.hSq)
		un("Opp", a, f.opp, f.hNeg)
		un("FromMontgomery", a, f.from, nil)
		un("ToMontgomery", a, f.to, nil)
	}
	n := r.Scale(6000, 200000) / r.Parts
	for i := 0; i < n; i++ {
		a, b := one(), one()
		bin("Mul", a, b, f.mul, f.hMul)
		// a product that ends near 0 or near the modulus
		if inv := new(big.Int).ModInverse(a, m); inv != nil {
			t := mod(near(r, bi(0)), m)
			bin("Mul", a, mod(mul(mul(t, R), inv), m), f.mul, f.hMul)
		}
		un("Square", one(), f.sq, f.hSq)
		un("ToMontgomery", one(), f.to, nil)
		un("FromMontgomery", one(), f.from, nil)
		if i%2 == 0 {
			c, d := one(), one()
			if i%4 == 0 {
				d = mod(near(r, sub(bi(0), c)), m)
			}
			bin("Add", c, d, f.add, f.hAdd)
			if i%4 == 0 {
				d = mod(near(r, c), m)
			}
			bin("Sub", c, d, f.sub, f.hSub)
			un("Opp", c, f.opp, f.hNeg)
			rec("Equals", M{"a": b32(c), "b": b32(d)}, func(o M) { o["out"] = flag1(f.eq(toW(c), toW(d)) && f.hEq(toW(c), toW(d))) })
			rec("Equals", M{"a": b32(c), "b": b32(c)}, func(o M) { o["out"] = flag1(f.eq(toW(c), toW(c)) && f.hEq(toW(c), toW(c))) })
			// differing in one word only
			e := mod(add(c, mul(bi(int64(1+r.Rng.Intn(5))), pow2(uint(64*r.Rng.Intn(4)+r.Rng.Intn(60))))), m)
			rec("Equals", M{"a": b32(c), "b": b32(e)}, func(o M) { o["out"] = flag1(f.eq(toW(c), toW(e)) || f.hEq(toW(c), toW(e))) })
			z := one()
			if i%4 == 0 {
				z = mod(pow2(uint(r.Rng.Intn(255))), m)
			}
			rec("NonZero", M{"a": b32(z)}, func(o M) { var x uint64; f.nz(&x, toW(z)); o["out"] = be([]uint64{x}) })
			rec("ToBytes", M{"a": b32(c)}, func(o M) { var x [32]uint8; f.toB(&x, toW(c)); o["out"] = x[:] })
			lb := le32b(c)
			rec("FromBytes", M{"a": lb[:]}, func(o M) { var x w4; f.fromB(&x, lb); o["out"] = be(x[:]) })
			rec("SelectZnz", M{"a": b32(c), "b": b32(d), "n": i / 2 % 2}, func(o M) {
				var x w4
				f.sel(&x, uint64(i/2%2), toW(c), toW(d))
				o["out"] = be(x[:])
			})
			rec("ToMontBE", M{"a": b32(c)}, func(o M) { x := f.toMontBE(b32(c)); o["out"] = be(x[:]) })
			rec("FromMontBE", M{"a": b32(c)}, func(o M) { o["out"] = f.fromMontBE(toW(c)) })
			// words
			ws := []uint64{0, 1, 2, ^uint64(0), ^uint64(0) - 1, 1 << 63, 1<<63 - 1, 1 << 32, 1<<32 - 1, r.Rng.Uint64(), r.Rng.Uint64()}
			x, y, k := ws[r.Rng.Intn(len(ws))], ws[r.Rng.Intn(len(ws))], uint64(r.Rng.Intn(2))
			in := func() M { return M{"a": be([]uint64{x}), "b": be([]uint64{y}), "n": int(k)} }
			rec("AddCarryX", in(), func(o M) { var d, c uint64; f.addC(&d, &c, k, x, y); o["out"], o["carry"] = be([]uint64{d}), int(c) })
			rec("SubBorrowX", in(), func(o M) { var d, c uint64; f.subB(&d, &c, k, x, y); o["out"], o["carry"] = be([]uint64{d}), int(c) })
			rec("MulX", in(), func(o M) { var d, c uint64; f.mulX(&d, &c, x, y); o["out"], o["hi"] = be([]uint64{d}), be([]uint64{c}) })
			rec("Cmovznz", in(), func(o M) { var d uint64; f.cmov(&d, k, x, y); o["out"] = be([]uint64{d}) })
		}
		// one division step from arbitrary states
		sgn := func() *big.Int {
			v := []*big.Int{one(), rnd(r, pow2(318)), pattern(r, 318), bi(int64(r.Rng.Intn(3))), m}[r.Rng.Intn(5)]
			if r.Rng.Intn(2) == 0 {
				v = new(big.Int).Neg(v)
			}
			return v
		}
		d := []uint64{0, 1, 2, ^uint64(0), 1<<63 + 1, 1<<63 - 1, uint64(r.Rng.Intn(800)), -uint64(r.Rng.Intn(800))}[r.Rng.Intn(8)]
		fs := sgn()
		if fs.Bit(0) == 0 { // f is odd in every division step
			fs.Add(fs, bi(1))
		}
		fv, gv, v, rr := toW5(fs), toW5(sgn()), toW(one()), toW(one())
		rec("DivStep", M{"d": be([]uint64{d}), "f": be(fv[:]), "g": be(gv[:]), "v": be(v[:]), "r": be(rr[:])}, func(o M) {
			var d2 uint64
			var f2, g2 w5
			var v2, r2 w4
			f.div(&d2, &f2, &g2, &v2, &r2, d, fv, gv, v, rr)
			o["d2"], o["f2"], o["g2"], o["v2"], o["r2"] = be([]uint64{d2}), be(f2[:]), be(g2[:]), be(v2[:]), be(r2[:])
		})
		if i%20 == 0 {
			un("DivStepInv", one(), f.bernsteinYang, nil)
		}
		hexIn := [][]byte{le(pattern(r, 254)), le(rnd(r, pow2(256))), le(near(r, m)), le(sub(pow2(254), bi(1))), le(pow2(254)), r.Bytes(31), r.Bytes(33), {}}[r.Rng.Intn(8)]
		if i%5 == 0 {
			rec("FromHex", M{"a": hexIn}, func(o M) {
				x, ok := f.hHex(hex.EncodeToString(hexIn))
				o["out"], o["ok"] = be(x[:]), flag1(ok)
			})
		}
		if f.name == "Fq" && i%5 == 0 {
			wv := toW(pattern(r, 256))
			rec("FromWords", M{"a": be(wv[:])}, func(o M) {
				var s pasta.Scalar
				pasta.ScalarFromWords(&s, wv)
				x := s.ToU64Array()
				o["out"] = be(x[:])
			})
		}
		if f.name == "Fp" {
			fpOnly(r, f, i, one, rec, un)
		}
	}
	rec("SetOne", M{}, func(o M) { x := w4{9, 9, 9, 9}; f.one(&x); o["out"] = be(x[:]) })
	rec("MSat", M{}, func(o M) { x := w5{9, 9, 9, 9, 9}; f.msat(&x); o["out"] = be(x[:]) })
	rec("DivStepPreComp", M{}, func(o M) { x := w4{9, 9, 9, 9}; f.pre(&x); o["out"] = be(x[:]) })
}

// bernsteinYang is the inversion that DivStep, DivStepPreComp and MSat are made
// for (out = a^-1 as the numbers are, without regard to Montgomery factors).
func (f *fld) bernsteinYang(out *w4, a w4) {
	var one, v, rr, pre w4
	var fv, gv w5
	f.one(&one)
	rr = one
	f.msat(&fv)
	copy(gv[:], a[:])
	d := uint64(1)
	for i := 0; i < 738; i++ {
		var d2 uint64
		var f2, g2 w5
		var v2, r2 w4
		f.div(&d2, &f2, &g2, &v2, &r2, d, fv, gv, v, rr)
		d, fv, gv, v, rr = d2, f2, g2, v2, r2
	}
	if fv[4]>>63 == 1 {
		f.opp(&v, v)
	}
	f.pre(&pre)
	f.mul(out, v, pre)
	f.from(out, *out)
}

func fpOnly(r *Rec, f *fld, i int, one func() *big.Int, rec func(string, M, func(M)), un func(string, *big.Int, func(*w4, w4), func(w4) w4)) {
	m := f.m
	R := mod(pow2(256), m)
	a := one()
	z := one()
	if i%2 == 0 {
		z = []*big.Int{bi(0), bi(1), R, add(R, bi(1)), sub(R, bi(1)), pow2(64), pow2(128), pow2(192)}[r.Rng.Intn(8)]
	}
	rec("EqualsZero", M{"a": b32(z)}, func(o M) { o["out"] = flag1(pasta.FiatPastaFpEqualsZero(toW(z))) })
	rec("EqualsOne", M{"a": b32(z)}, func(o M) { o["out"] = flag1(pasta.FiatPastaFpEqualsOne(toW(z))) })
	rec("IsOdd", M{"a": b32(a)}, func(o M) { var x pasta.Field; x.Set(toW(a)); o["out"] = flag1(pasta.FieldIsOdd(x)) })
	if i%5 == 0 {
		un("Inv", a, pasta.FiatPastaFpInv, func(a w4) w4 {
			var x, c pasta.Field
			x.Set(a)
			pasta.FieldInv(&c, x)
			return c.ToU64Array()
		})
		e := rnd(r, pow2(uint(1+r.Rng.Intn(256))))
		rec("Pow", M{"a": b32(a), "e": b32(e)}, func(o M) {
			bits := []bool{}
			for j := e.BitLen() - 1; j >= 0; j-- {
				bits = append(bits, e.Bit(j) == 1)
			}
			var x w4
			pasta.FiatPastaFpPow(&x, toW(a), bits, len(bits))
			o["out"] = be(x[:])
		})
		k := r.Rng.Intn(256)
		rec("Pow", M{"a": b32(a), "e": b32(bi(int64(k)))}, func(o M) {
			var x, c pasta.Field
			x.Set(toW(a))
			pasta.FieldPow(&c, x, uint8(k))
			w := c.ToU64Array()
			o["out"] = be(w[:])
		})
	}
	if i%10 == 0 {
		// squares, non-squares, and roots of unity of two-power order
		s := a
		switch r.Rng.Intn(3) {
		case 0:
			s = mod(mul(a, a), m)
		case 1:
			odd := new(big.Int).Rsh(sub(m, bi(1)), 32)
			g := new(big.Int).Exp(bi(5), odd, m)
			s = new(big.Int).Exp(g, pow2(uint(r.Rng.Intn(33))), m)
			s = mod(mul(s, R), m)
		}
		rec("LegendRe", M{"a": b32(s)}, func(o M) { o["out"] = pasta.FiatPastaFpLegendRe(toW(s)) })
		rec("Sqrt", M{"a": b32(s)}, func(o M) {
			var x w4
			o["ok"] = flag1(pasta.FiatPastaFpSqrt(&x, toW(s)))
			o["out"] = be(x[:])
		})
	}
}

func b32(x *big.Int) []byte { return x.FillBytes(make([]byte, 32)) }
func le32b(x *big.Int) (o [32]byte) {
	for i, v := range b32(x) {
		o[31-i] = v
	}
	return
}
func le(x *big.Int) []byte { o := le32b(mod(x, pow2(256))); return o[:] }
