package main

import (
	"bufio"
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"os"
	"strconv"
	"strings"
	"testing/iotest"

	. "aa/core"

	"github.com/blocktree/go-owcrypt/bls12_381"
	"github.com/blocktree/go-owcrypt/bls12_381/bls"
	"github.com/blocktree/go-owcrypt/eddsa/edwards25519"
	"github.com/blocktree/go-owcrypt/pasta"
	"github.com/drand/kyber"
)

func init() { gens["C28"] = genGroup }

type gev struct {
	Op      string
	D, A, B int
	K, M, X string
	As      []int
	Ks      []string
}
type gprog struct {
	F    string
	Init []string
	Ev   []gev
}

// gargs are an event's arguments.
type gargs struct {
	d, a, b int
	k, m    *big.Int
	x, dom  []byte
	as      []int
	ks      []*big.Int
}

// machine is the real code: three registers and the operations on them.
type machine interface {
	load(i int, plain []byte)
	see(i int) []byte
	do(op string, e gargs) (ok bool, out string)
}

func tf(b bool) string { return fmt.Sprint(b) }

// Package bls, G1.
type mG1 struct {
	g *bls.G1
	r [4]*bls.PointG1
}

func (m *mG1) load(i int, plain []byte) {
	p, err := m.g.FromBytes(plain)
	if err != nil {
		panic(err)
	}
	m.r[i] = p
}
func (m *mG1) see(i int) []byte {
	q := *m.r[i]
	return bls.NewG1().ToBytes(&q)
}

// twice is the answer of a call made twice.
func twice(p, q *bls.PointG1, err, again error) (*bls.PointG1, error) {
	if err == nil && again == nil && !bls.NewG1().Equal(p, q) {
		return q, nil
	}
	if err == nil {
		err = again
	}
	return p, err
}

func (m *mG1) do(op string, e gargs) (bool, string) {
	g, r := m.g, &m.r
	own := func() *bls.PointG1 { // the point that an operation in place works on
		if e.d == e.a {
			return r[e.a]
		}
		q := *r[e.a]
		r[e.d] = &q
		return &q
	}
	set := func(p *bls.PointG1, err error) (bool, string) {
		if err == nil {
			r[e.d] = p
		}
		return err == nil, ""
	}
	switch op {
	case "rescale":
		q := *r[e.a]
		z := new(big.Int).SetBytes(e.x)
		f := fm(new(big.Int).Mul(z, z))
		q[0].SetBig(fm(new(big.Int).Mul(q[0].Big(), f)))
		q[1].SetBig(fm(new(big.Int).Mul(q[1].Big(), fm(new(big.Int).Mul(f, z)))))
		q[2].SetBig(fm(new(big.Int).Mul(q[2].Big(), z)))
		r[e.d] = &q
	case "add":
		g.Add(r[e.d], r[e.a], r[e.b])
	case "sub":
		g.Sub(r[e.d], r[e.a], r[e.b])
	case "dbl":
		g.Double(r[e.d], r[e.a])
	case "neg":
		g.Neg(r[e.d], r[e.a])
	case "copy":
		if e.b == 1 {
			r[e.d].Set(r[e.a])
		} else {
			g.Copy(r[e.d], r[e.a])
		}
	case "affine":
		g.Affine(own())
	case "clear":
		g.ClearCofactor(own())
	case "mulcof":
		g.MulByCofactor(r[e.d], r[e.a])
	case "mul":
		g.MulScalar(r[e.d], r[e.a], e.k)
	case "zero":
		r[e.d] = g.Zero()
	case "one":
		r[e.d] = g.One()
	case "mexp":
		ps := make([]*bls.PointG1, len(e.as))
		for i, a := range e.as {
			ps[i] = r[a]
		}
		_, err := g.MultiExp(r[e.d], ps, e.ks)
		return err == nil, ""
	case "hash":
		p, err := g.HashToCurve(e.x, e.dom)
		q, again := g.HashToCurve(e.x, e.dom)
		return set(twice(p, q, err, again))
	case "encode":
		p, err := g.EncodeToPoint(e.x, e.dom)
		q, again := g.EncodeToPoint(e.x, e.dom)
		return set(twice(p, q, err, again))
	case "map":
		p, err := g.MapToCurve(e.x)
		q, again := g.MapToCurve(e.x)
		return set(twice(p, q, err, again))
	case "ofcomp":
		return set(g.FromCompressed(e.x))
	case "ofunc":
		return set(g.FromUncompressed(e.x))
	case "ofxy":
		return set(g.FromBytes(e.x))
	case "equal":
		return true, tf(g.Equal(r[e.a], r[e.b]))
	case "iszero":
		return true, tf(g.IsZero(r[e.a]))
	case "isin":
		return true, tf(g.InCorrectSubgroup(r[e.a]))
	case "ison":
		return true, tf(g.IsOnCurve(r[e.a]))
	case "comp":
		return true, hex.EncodeToString(g.ToCompressed(r[e.a]))
	case "unc":
		return true, hex.EncodeToString(g.ToUncompressed(r[e.a]))
	case "xy":
		return true, hex.EncodeToString(g.ToBytes(r[e.a]))
	default:
		panic("harness: " + op)
	}
	return true, ""
}

// Package bls, G2.
type mG2 struct {
	g *bls.G2
	r [4]*bls.PointG2
}

func (m *mG2) load(i int, plain []byte) {
	p, err := m.g.FromBytes(plain)
	if err != nil {
		panic(err)
	}
	m.r[i] = p
}
func (m *mG2) see(i int) []byte {
	q := *m.r[i]
	return bls.NewG2(nil).ToBytes(&q)
}
func twice2(p, q *bls.PointG2, err, again error) (*bls.PointG2, error) {
	if err == nil && again == nil && !bls.NewG2(nil).Equal(p, q) {
		return q, nil
	}
	if err == nil {
		err = again
	}
	return p, err
}

func (m *mG2) do(op string, e gargs) (bool, string) {
	g, r := m.g, &m.r
	own := func() *bls.PointG2 {
		if e.d == e.a {
			return r[e.a]
		}
		q := *r[e.a]
		r[e.d] = &q
		return &q
	}
	set := func(p *bls.PointG2, err error) (bool, string) {
		if err == nil {
			r[e.d] = p
		}
		return err == nil, ""
	}
	switch op {
	case "rescale":
		q := *r[e.a]
		z := f2{new(big.Int).SetBytes(e.x[:48]), new(big.Int).SetBytes(e.x[48:])}
		by := z
		for _, i := range []int{2, 0, 1} { // Z z, X z^2, Y z^3
			v := f2{q[i][0].Big(), q[i][1].Big()}.mul(by)
			q[i][0].SetBig(v.a)
			q[i][1].SetBig(v.b)
			by = by.mul(z)
		}
		r[e.d] = &q
	case "add":
		g.Add(r[e.d], r[e.a], r[e.b])
	case "sub":
		g.Sub(r[e.d], r[e.a], r[e.b])
	case "dbl":
		g.Double(r[e.d], r[e.a])
	case "neg":
		g.Neg(r[e.d], r[e.a])
	case "copy":
		if e.b == 1 {
			r[e.d].Set(r[e.a])
		} else {
			g.Copy(r[e.d], r[e.a])
		}
	case "affine":
		g.Affine(own())
	case "clear":
		g.ClearCofactor(own())
	case "mul":
		g.MulScalar(r[e.d], r[e.a], e.k)
	case "zero":
		r[e.d] = g.Zero()
	case "one":
		r[e.d] = g.One()
	case "mexp":
		ps := make([]*bls.PointG2, len(e.as))
		for i, a := range e.as {
			ps[i] = r[a]
		}
		_, err := g.MultiExp(r[e.d], ps, e.ks)
		return err == nil, ""
	case "hash":
		p, err := g.HashToCurve(e.x, e.dom)
		q, again := g.HashToCurve(e.x, e.dom)
		return set(twice2(p, q, err, again))
	case "encode":
		p, err := g.EncodeToCurve(e.x, e.dom)
		q, again := g.EncodeToCurve(e.x, e.dom)
		return set(twice2(p, q, err, again))
	case "ofcomp":
		return set(g.FromCompressed(e.x))
	case "ofunc":
		return set(g.FromUncompressed(e.x))
	case "ofxy":
		return set(g.FromBytes(e.x))
	case "equal":
		return true, tf(g.Equal(r[e.a], r[e.b]))
	case "iszero":
		return true, tf(g.IsZero(r[e.a]))
	case "isin":
		return true, tf(g.InCorrectSubgroup(r[e.a]))
	case "ison":
		return true, tf(g.IsOnCurve(r[e.a]))
	case "comp":
		return true, hex.EncodeToString(g.ToCompressed(r[e.a]))
	case "unc":
		return true, hex.EncodeToString(g.ToUncompressed(r[e.a]))
	case "xy":
		return true, hex.EncodeToString(g.ToBytes(r[e.a]))
	default:
		panic("harness: " + op)
	}
	return true, ""
}

// kyber's points of either group.
type mKyber struct {
	g2 bool
	r  [4]kyber.Point
}
type hashable interface{ Hash(m []byte) kyber.Point }
type groupChecked interface{ IsInCorrectGroup() bool }

// plainOf finds the plain form of a compressed point, once for each point.
var plainOf = map[string][]byte{}

func plain1(p *pt) []byte {
	if p == nil {
		return make([]byte, 96)
	}
	return Cat(b48(p.x), b48(p.y))
}
func plain2(p *pt2) []byte {
	if p == nil {
		return make([]byte, 192)
	}
	return Cat(b48(p.x.b), b48(p.x.a), b48(p.y.b), b48(p.y.a))
}
func (m *mKyber) group() kyber.Group {
	if m.g2 {
		return bls12_381.NewGroupG2()
	}
	return bls12_381.NewGroupG1()
}
func (m *mKyber) load(i int, plain []byte) {
	p := m.group().Point()
	var c []byte
	if allZero(plain) {
		m.r[i] = p.Null()
		return
	}
	n := func(k int) *big.Int { return new(big.Int).SetBytes(plain[48*k : 48*k+48]) }
	if m.g2 {
		c = g2enc(&pt2{f2{n(1), n(0)}, f2{n(3), n(2)}})
	} else {
		c = g1enc(&pt{n(0), n(1)})
	}
	plainOf[string(c)] = plain
	if err := p.UnmarshalBinary(c); err != nil {
		panic(err)
	}
	m.r[i] = p
}
func (m *mKyber) see(i int) []byte {
	c, err := m.r[i].Clone().MarshalBinary()
	if err != nil {
		panic(err)
	}
	if s, ok := plainOf[string(c)]; ok {
		return s
	}
	var s []byte
	if c[0] == 0xc0 {
		s = make([]byte, 2*len(c))
	} else if m.g2 {
		s = plain2(g2dec(c))
	} else {
		d := append([]byte{}, c...)
		d[0] &= 0x1f
		if p := g1.lift(new(big.Int).SetBytes(d), 0); p != nil {
			if g1enc(p)[0]&0x20 != c[0]&0x20 {
				p = g1.neg(p)
			}
			s = plain1(p)
		}
	}
	plainOf[string(c)] = s
	return s
}

type fixedStream struct{ b []byte }

func (s *fixedStream) XORKeyStream(dst, src []byte) {
	for i := range src {
		dst[i] = src[i] ^ s.b[i]
	}
	s.b = s.b[len(src):]
}

func (m *mKyber) do(op string, e gargs) (bool, string) {
	r := &m.r
	ret := func(p kyber.Point) (bool, string) {
		if p != r[e.d] {
			panic("not the receiver")
		}
		return true, ""
	}
	scalar := func() kyber.Scalar {
		if e.d == 2 {
			return m.group().Scalar().SetBytes(e.k.Bytes())
		}
		return bls12_381.NewScalar(e.k.Bytes())
	}
	switch op {
	case "add":
		return ret(r[e.d].Add(r[e.a], r[e.b]))
	case "sub":
		return ret(r[e.d].Sub(r[e.a], r[e.b]))
	case "neg":
		return ret(r[e.d].Neg(r[e.a]))
	case "set":
		return ret(r[e.d].Set(r[e.a]))
	case "clone":
		r[e.d] = r[e.a].Clone()
	case "zero":
		r[e.d] = r[e.d].Null()
	case "one":
		r[e.d] = r[e.d].Base()
	case "mul":
		return ret(r[e.d].Mul(scalar(), r[e.a]))
	case "mulbase":
		return ret(r[e.d].Mul(scalar(), nil))
	case "khash":
		return ret(r[e.d].(hashable).Hash(e.x))
	case "kpick":
		return ret(r[e.d].Pick(&fixedStream{e.x}))
	case "ofcomp":
		if e.d == 2 {
			in := bytes.NewReader(e.x)
			var from io.Reader = in
			if len(e.x) > 1 && len(e.x)%2 == 0 && e.x[len(e.x)-1]&1 == 0 { // the input arrives byte by byte
				from = iotest.OneByteReader(in)
			}
			n, err := r[e.d].UnmarshalFrom(from)
			if err == nil && (n != r[e.d].MarshalSize() || in.Len() != len(e.x)-n) {
				panic("wrong number of bytes read")
			}
			return err == nil, ""
		}
		return r[e.d].UnmarshalBinary(e.x) == nil, ""
	case "equal":
		return true, tf(r[e.a].Equal(r[e.b]))
	case "isin":
		return true, tf(r[e.a].(groupChecked).IsInCorrectGroup())
	case "comp":
		if e.d == 2 {
			var b bytes.Buffer
			if n, err := r[e.a].MarshalTo(&b); err != nil || n != b.Len() || n != r[e.a].MarshalSize() {
				return true, "size"
			}
			return true, hex.EncodeToString(b.Bytes())
		}
		b, err := r[e.a].MarshalBinary()
		if err != nil {
			return true, err.Error()
		}
		return true, hex.EncodeToString(b)
	default:
		panic("harness: " + op)
	}
	return true, ""
}

// Package pasta.
type mPasta struct{ r [4]pasta.Group }

func (m *mPasta) load(i int, plain []byte) {
	var a pasta.Affine
	if !allZero(plain) {
		if err := a.FromBigEndianBytes(plain); err != nil {
			panic(err)
		}
	}
	pasta.AffineToGroup(&m.r[i], a)
}
func (m *mPasta) see(i int) []byte {
	var a pasta.Affine
	pasta.AffineFromGroup(&a, m.r[i])
	return a.ToBigEndianBytes()
}
func (m *mPasta) do(op string, e gargs) (bool, string) {
	r := &m.r
	aff := func(i int) (a pasta.Affine) { pasta.AffineFromGroup(&a, r[i]); return }
	put := func(a pasta.Affine) { pasta.AffineToGroup(&r[e.d], a) }
	scalar := func() (k pasta.Scalar) {
		k.Set(pasta.BigEndianBytesToFqMontgomeryArray(b32(curves["PASTA"].mn(e.k))))
		return
	}
	var t pasta.Affine
	switch op {
	case "rescale":
		z := new(big.Int).SetBytes(e.x)
		by := z
		p := curves["PASTA"].p
		q := r[e.a]
		for _, x := range []*pasta.Field{&q.Z, &q.X, &q.Y} {
			v := new(big.Int).Mul(new(big.Int).SetBytes(x.ToBigEndianBytes()), by)
			*x = limbs(v.Mod(v, p))
			by = new(big.Int).Mod(new(big.Int).Mul(by, z), p)
		}
		r[e.d] = q
	case "add":
		pasta.GroupAdd(&r[e.d], r[e.a], r[e.b])
	case "dbl":
		pasta.GroupDbl(&r[e.d], r[e.a])
	case "neg":
		pasta.GroupNegate(&r[e.d], r[e.a])
	case "aadd":
		pasta.AffineAdd(&t, aff(e.a), aff(e.b))
		put(t)
	case "aneg":
		t = aff(e.a)
		pasta.AffineNegate(&t, t)
		put(t)
	case "affine":
		put(aff(e.a))
	case "mul":
		pasta.GroupScalarMul(&r[e.d], scalar(), r[e.a])
	case "amul":
		pasta.AffineScalarMul(&t, scalar(), aff(e.a))
		put(t)
	case "one":
		pasta.GroupOne(&r[e.d])
	case "ofcomp":
		var c pasta.Compressed
		if c.FromBigEndianBytes(e.x) != nil || !pasta.Decompress(&t, c) {
			return false, ""
		}
		put(t)
	case "ofxy":
		if t.FromBigEndianBytes(e.x) != nil {
			return false, ""
		}
		put(t)
	case "equal":
		return true, tf(pasta.AffineEq(aff(e.a), aff(e.b)))
	case "iszero":
		if pasta.AffineIsZero(aff(e.a)) != pasta.IsZero(r[e.a]) {
			return true, "differ"
		}
		return true, tf(pasta.IsZero(r[e.a]) == 1)
	case "ison":
		if pasta.AffineIsOnCurve(aff(e.a)) != (pasta.GroupIsOnCurve(r[e.a]) == 1) {
			return true, "differ"
		}
		return true, tf(pasta.GroupIsOnCurve(r[e.a]) == 1)
	case "comp":
		var c pasta.Compressed
		pasta.Compress(&c, aff(e.a))
		return true, hex.EncodeToString(c.ToBigEndianBytes())
	case "xy":
		return true, hex.EncodeToString(aff(e.a).ToBigEndianBytes())
	default:
		panic("harness: " + op)
	}
	return true, ""
}

// Package edwards25519.
type mEd struct {
	r [4]edwards25519.ExtendedGroupElement
}

func (m *mEd) load(i int, plain []byte) {
	var s [32]byte
	copy(s[:], plain)
	if !m.r[i].FromBytes(&s) {
		panic("load")
	}
}
func (m *mEd) see(i int) []byte {
	var s [32]byte
	q := m.r[i]
	q.ToBytes(&s)
	return s[:]
}
func (m *mEd) do(op string, e gargs) (bool, string) {
	r := &m.r
	put := func(p *edwards25519.ProjectiveGroupElement) {
		q := &r[e.d]
		edwards25519.FeMul(&q.X, &p.X, &p.Z)
		edwards25519.FeMul(&q.Y, &p.Y, &p.Z)
		edwards25519.FeMul(&q.T, &p.X, &p.Y)
		edwards25519.FeMul(&q.Z, &p.Z, &p.Z)
	}
	scalar := func(k *big.Int) *[32]byte {
		var s [32]byte
		if k != nil {
			copy(s[:], le32(k))
		}
		return &s
	}
	k, m2 := scalar(e.k), scalar(e.m)
	k0, m0 := *k, *m2
	var p edwards25519.ProjectiveGroupElement
	var c edwards25519.CompletedGroupElement
	switch op {
	case "rescale":
		q := r[e.a]
		z := new(big.Int).SetBytes(e.x)
		for _, x := range []*edwards25519.FieldElement{&q.X, &q.Y, &q.Z, &q.T} {
			var b [32]byte
			edwards25519.FeToBytes(&b, x)
			v := new(big.Int).Mul(fromLE(b[:]), z)
			copy(b[:], le32(v.Mod(v, edP)))
			edwards25519.FeFromBytes(x, &b)
		}
		r[e.d] = q
	case "dbl":
		r[e.a].Double(&c)
		c.ToExtended(&r[e.d])
	case "pdbl":
		r[e.a].ToProjective(&p)
		p.Double(&c)
		c.ToProjective(&p)
		put(&p)
	case "copy":
		var s, s2 [32]byte
		r[e.a].ToProjective(&p)
		p.ToBytes(&s)
		r[e.a].ToBytes(&s2)
		if s != s2 {
			return true, "differ"
		}
		return r[e.d].FromBytes(&s), ""
	case "zero":
		if e.b == 0 {
			r[e.d].Zero()
		} else {
			p.Zero()
			put(&p)
		}
	case "mulbase":
		edwards25519.GeScalarMultBase(&r[e.d], k)
	case "mulbaseadd":
		edwards25519.GeDoubleScalarMultVartime(&p, k, &r[e.a], m2)
		put(&p)
	case "muladd":
		edwards25519.GePointAddVarTime(&p, k, &r[e.a], m2, &r[e.b])
		put(&p)
	case "ofxy":
		var s [32]byte
		copy(s[:], e.x)
		q := r[e.d]
		if !q.FromBytes(&s) {
			return false, ""
		}
		r[e.d] = q
	case "xy":
		var s [32]byte
		r[e.a].ToBytes(&s)
		return true, hex.EncodeToString(s[:])
	default:
		panic("harness: " + op)
	}
	if *k != k0 || *m2 != m0 {
		panic("scalar changed")
	}
	return true, ""
}

func allZero(b []byte) bool {
	for _, x := range b {
		if x != 0 {
			return false
		}
	}
	return true
}

// gworld makes the values that the classes of a program stand for.
type gworld struct {
	r    *Rec
	f    string
	n    *big.Int
	base interface{}
}

func newGroupWorld(r *Rec, f string) *gworld {
	w := &gworld{r: r, f: f, n: blsR}
	switch f {
	case "pa":
		w.n = curves["PASTA"].n
	case "ed":
		w.n = edL
	}
	w.base = w.subgroup()
	return w
}
func (w *gworld) fam() string {
	switch w.f {
	case "k1":
		return "g1"
	case "k2":
		return "g2"
	}
	return w.f
}

// pool holds some points of each group: making them is slow.
var pool = map[string][]interface{}{}

func (w *gworld) subgroup() interface{} {
	f := w.fam()
	if len(pool[f]) < 24 {
		k := plus(new(big.Int).Mod(new(big.Int).SetBytes(w.r.Bytes(40)), sub(w.n, bi(1))), bi(1))
		var p interface{}
		switch f {
		case "g1":
			p = g1.mulG(k)
		case "g2":
			p = g2mul(k, g2Gen())
		case "pa":
			p = curves["PASTA"].mulG(k)
		case "ed":
			p = emulB(k)
		}
		pool[f] = append(pool[f], p)
		return p
	}
	return pool[f][w.r.Rng.Intn(24)]
}
func g2Gen() *pt2 {
	return &pt2{f2{hx("024aa2b2f08f0a91260805272dc51051c6e47ad4fa403b02b4510b647ae3d1770bac0326a805bbefd48056c8c121bdb8"),
		hx("13e02b6052719f607dacd3a088274f65596bd0d09920b61ab5da61bbdc7f5049334cf11213945d57e5ac7d055d042b7e")},
		f2{hx("0ce5d527727d6e118cc9cdc6da2e351aadfd9baa8cbdd3a76d429a695160d12c923ac9cc3baca289e193548608b82801"),
			hx("0606c4a02ea734cc32acd2b02bc28b99cb3e287e85a763af267492ab572e99ab3f370d275cec1da1aaa9075ff05f79be")}}
}
func (w *gworld) point(c string) interface{} {
	switch w.fam() {
	case "g1":
		P := w.base.(*pt)
		switch c {
		case "O":
			return (*pt)(nil)
		case "G":
			return g1.g
		case "P":
			return P
		case "N":
			return g1.neg(P)
		case "D":
			return g1.add(P, P)
		case "Q":
			return w.subgroup()
		case "T":
			if len(pool["T1"]) < 10 {
				pool["T1"] = append(pool["T1"], g1any(w.r))
			}
			return pool["T1"][w.r.Rng.Intn(len(pool["T1"]))]
		case "S":
			return &pt{bi(0), bi(2)}
		}
	case "g2":
		P := w.base.(*pt2)
		switch c {
		case "O":
			return (*pt2)(nil)
		case "G":
			return g2Gen()
		case "P":
			return P
		case "N":
			return g2neg(P)
		case "D":
			return g2add(P, P)
		case "Q":
			return w.subgroup()
		case "T":
			if len(pool["T2"]) < 10 {
				pool["T2"] = append(pool["T2"], g2any(w.r))
			}
			return pool["T2"][w.r.Rng.Intn(len(pool["T2"]))]
		}
	case "pa":
		P := w.base.(*pt)
		C := curves["PASTA"]
		switch c {
		case "O":
			return (*pt)(nil)
		case "G":
			return C.g
		case "P":
			return P
		case "N":
			return C.neg(P)
		case "D":
			return C.add(P, P)
		case "Q":
			return w.subgroup()
		}
	case "ed":
		P := w.base.(*epoint)
		switch c {
		case "O":
			return &epoint{bi(0), bi(1)}
		case "G":
			return edB
		case "P":
			return P
		case "N":
			return eneg(P)
		case "D":
			return eadd(P, P)
		case "Q":
			return w.subgroup()
		case "T":
			t := torsion()
			return eadd(P, t[1+w.r.Rng.Intn(len(t)-1)])
		case "S":
			t := torsion()
			return t[w.r.Rng.Intn(len(t))]
		}
	}
	panic("class " + c)
}
func (w *gworld) plain(p interface{}) []byte {
	switch w.fam() {
	case "g1":
		return plain1(p.(*pt))
	case "g2":
		return plain2(p.(*pt2))
	case "pa":
		if p.(*pt) == nil {
			return make([]byte, 64)
		}
		return xy(p.(*pt))
	}
	return eenc(p.(*epoint))
}
func (w *gworld) compressed(p interface{}) []byte {
	switch w.fam() {
	case "g1":
		return g1enc(p.(*pt))
	case "g2":
		return g2enc(p.(*pt2))
	}
	if p.(*pt) == nil {
		return make([]byte, 33)
	}
	return comp(p.(*pt))
}

func (w *gworld) scalar(c string) *big.Int {
	two := func(e uint) *big.Int { return new(big.Int).Lsh(bi(1), e) }
	switch c {
	case "", "0":
		return bi(0)
	case "1":
		return bi(1)
	case "2":
		return bi(2)
	case "3":
		return bi(3)
	case "small":
		return bi(int64(w.r.Rng.Intn(16)))
	case "n-1":
		return sub(w.n, bi(1))
	case "n":
		return w.n
	case "n+1":
		return plus(w.n, bi(1))
	case "half":
		return new(big.Int).Rsh(w.n, uint(w.r.Rng.Intn(3)))
	case "rnd":
		return new(big.Int).Mod(new(big.Int).SetBytes(w.r.Bytes(40)), w.n)
	case "top":
		return sub(two(255), bi(1))
	case "sparse":
		return plus(two(uint(w.r.Rng.Intn(255))), two(uint(w.r.Rng.Intn(255))))
	case "dense":
		k := sub(two(uint(240+w.r.Rng.Intn(15))), bi(1))
		return k.SetBit(k, w.r.Rng.Intn(240), 0)
	case "wide":
		return plus(two(299), new(big.Int).SetBytes(w.r.Bytes(37)))
	}
	panic("scalar " + c)
}

// number adds p to the i-th coordinate of an encoding, keeping the flags of the first.
func addP(s []byte, n int, p *big.Int, i int, flags byte) []byte {
	t := append([]byte{}, s...)
	fl := byte(0)
	if i == 0 {
		fl = t[0] & flags
		t[0] &^= flags
	}
	x := plus(new(big.Int).SetBytes(t[i*n:i*n+n]), p)
	b := x.Bytes()
	if len(b) > n {
		return s
	}
	for j := range t[i*n : i*n+n] {
		t[i*n+j] = 0
	}
	copy(t[i*n+n-len(b):], b)
	if i == 0 && t[0]&flags != 0 {
		return s
	}
	t[0] |= fl
	return t
}

// encoding makes the input of a decoder.
func (w *gworld) encoding(op, form string) []byte {
	fam, r := w.fam(), w.r
	P := w.point([]string{"P", "Q", "G", "N"}[r.Rng.Intn(4)])
	enc := func(p interface{}) []byte {
		switch op {
		case "ofcomp":
			return w.compressed(p)
		case "ofunc":
			s := w.plain(p)
			if allZero(s) {
				s[0] = 0x40
			}
			return s
		}
		return w.plain(p)
	}
	var s []byte
	edForms := map[string]bool{"good": true, "inf": true, "sign": true, "sub": true, "off": true, "random": true}
	if fam == "ed" && !edForms[form] {
		form = "good"
	}
	s = append(s, enc(P)...)
	size, p := 48, blsP
	at := 0 // the byte that has the flags
	if fam == "pa" {
		size, p = 32, curves["PASTA"].p
		if op == "ofcomp" {
			at = 1
		}
	}
	switch form {
	case "good":
	case "inf":
		if op == "ofxy" && fam == "pa" {
			return make([]byte, 64)
		}
		return append([]byte{}, enc(w.point("O"))...)
	case "sign":
		switch {
		case fam == "ed":
			s[31] ^= 0x80
		case fam == "pa":
			s[0] ^= 1
		default:
			s[0] ^= 0x20
		}
	case "sub":
		c := "T"
		if fam == "pa" {
			c = "D"
		} else if fam == "g1" && r.Rng.Intn(2) == 0 {
			c = "S"
		}
		s = append([]byte{}, enc(w.point(c))...)
	case "off":
		if n := r.Rng.Intn(3); n > 0 && op != "ofcomp" {
			switch fam {
			case "g1":
				ps := g1.near(r)
				return enc(ps[r.Rng.Intn(len(ps))])
			case "pa":
				ps := curves["PASTA"].near(r)
				return enc(ps[r.Rng.Intn(len(ps))])
			case "g2":
				q := *P.(*pt2)
				f := []f2{{bi(0), bi(1)}, {sub(blsP, bi(1)), bi(1)}, {bi(2), bi(0)}, {bi(1), bi(1)}}[r.Rng.Intn(4)]
				q.y = q.y.mul(f)
				return enc(&q)
			}
		}
		s[len(s)-1-r.Rng.Intn(8)] ^= byte(1 << uint(r.Rng.Intn(8)))
		if fam == "ed" {
			for {
				s = r.Bytes(32)
				s[31] &= 0x7f
				if y := fromLE(s); y.Cmp(edP) < 0 && elift(y, 0) == nil {
					break
				}
			}
		}
	case "unred":
		n := (len(s) - at) / size
		return append(s[:at:at], addP(s[at:], size, p, r.Rng.Intn(n), map[bool]byte{true: 0xe0, false: 0}[fam != "pa"])...)
	case "infx":
		if fam == "pa" {
			s[0] = 4
		} else {
			s[0] |= 0x40
		}
	case "flags":
		if fam == "pa" {
			s[0] = byte(r.Rng.Intn(256))
		} else {
			s[0] = s[0]&0x1f | byte(r.Rng.Intn(8))<<5
		}
	case "notcomp":
		if fam == "pa" {
			s[0] = 0
		} else {
			s[0] ^= 0x80
		}
	case "random":
		for {
			s = r.Bytes(len(s))
			if fam != "ed" {
				break
			}
			s[31] &= 0x7f
			if fromLE(s).Cmp(edP) < 0 {
				break
			}
		}
	case "short":
		return s[:len(s)-1]
	case "longer":
		return append(s, byte(r.Rng.Intn(2)))
	case "nil":
		return nil
	default:
		panic("form " + form)
	}
	return s
}

func (w *gworld) input(op, x string) []byte {
	r := w.r
	nul, aug := []byte(blsDst["BLSN"]), []byte(blsDst["BLSA"])
	switch op {
	case "ofcomp", "ofunc", "ofxy":
		return w.encoding(op, x)
	case "kpick":
		return r.Bytes(32)
	case "map":
		switch x {
		case "0":
			return make([]byte, 48)
		case "1":
			return b48(bi(1))
		case "p-1":
			return b48(sub(blsP, bi(1)))
		case "p":
			return b48(blsP)
		case "ones":
			return bytes.Repeat([]byte{0xff}, 48)
		case "rnd":
			return b48(new(big.Int).Mod(new(big.Int).SetBytes(r.Bytes(60)), blsP))
		case "exc":
			u := new(big.Int).ModSqrt(fm(new(big.Int).Neg(new(big.Int).ModInverse(bi(11), blsP))), blsP)
			if u == nil {
				u = bi(7)
			}
			return b48(u)
		case "len47":
			return make([]byte, 47)
		}
	case "hash", "encode", "khash":
		switch x {
		case "empty":
			return []byte{}
		case "short":
			return r.Bytes(1 + r.Rng.Intn(40))
		case "long":
			return r.Bytes(200 + r.Rng.Intn(200))
		case "tagN":
			return Cat(nul, r.Bytes(r.Rng.Intn(20)))
		case "tagA":
			return Cat(aug, r.Bytes(r.Rng.Intn(20)))
		case "tagNonly":
			return nul
		case "tagpart":
			return nul[:len(nul)-1]
		}
	case "rescale":
		return w.factor(x)
	case "add":
		return nil
	}
	return nil
}

// fieldOf is the prime and R of the field's Montgomery form.
func (w *gworld) fieldOf() (p, R *big.Int) {
	switch w.fam() {
	case "pa":
		return curves["PASTA"].p, new(big.Int).Lsh(bi(1), 256)
	case "ed":
		return edP, bi(1)
	}
	return blsP, new(big.Int).Lsh(bi(1), 384)
}

// factor makes the number by which the coordinates of a point are rescaled:
// "e", "-e", "he" (half of p, plus e) with e = a number or 2^i; with "m" in front
// the number is that of the Montgomery form, with "n" that of the norm in F_p^2.
func (w *gworld) factor(x string) []byte {
	p, R := w.fieldOf()
	num := func(x string) *big.Int {
		var e *big.Int
		neg, half := strings.HasPrefix(x, "-"), strings.HasPrefix(x, "h")
		x = strings.TrimLeft(x, "-h")
		if strings.HasPrefix(x, "2^") {
			i, _ := strconv.Atoi(x[2:])
			e = new(big.Int).Lsh(bi(1), uint(i))
		} else {
			e, _ = new(big.Int).SetString(x, 10)
		}
		if neg {
			e = sub(p, e)
		} else if half {
			e = plus(new(big.Int).Rsh(p, 1), e)
		}
		return e.Mod(e, p)
	}
	inv := new(big.Int).ModInverse(R, p)
	switch {
	case x == "rnd":
		return wide(new(big.Int).Add(new(big.Int).Mod(new(big.Int).SetBytes(w.r.Bytes(60)), sub(p, bi(1))), bi(1)), w.f)
	case x[0] == 'm':
		e := new(big.Int).Mul(num(x[1:]), inv)
		return wide(e.Mod(e, p), w.f)
	case x[0] == 'n': // the norm a^2 + b^2 of a + b i in Montgomery form
		e := new(big.Int).Mul(num(x[1:]), inv)
		for b := int64(3); ; b++ {
			d := sub(e, bi(b*b))
			if a := new(big.Int).ModSqrt(d.Mod(d, p), p); a != nil {
				return Cat(b48(a), b48(bi(b)))
			}
		}
	}
	return wide(num(x), w.f)
}
func wide(x *big.Int, f string) []byte {
	if f == "g1" {
		return b48(x)
	} else if f == "g2" {
		return Cat(b48(x), make([]byte, 48))
	}
	return b32(x)
}
func (w *gworld) domain(c string) []byte {
	switch c {
	case "std":
		return []byte(blsDst["BLSN"])
	case "short":
		return []byte("a")
	case "255", "256", "300":
		n := map[string]int{"255": 255, "256": 256, "300": 300}[c]
		return w.r.Bytes(n)
	}
	return nil
}

func genGroup(r *Rec) {
	fd, err := os.Open(os.Getenv("SCENARIOS"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	defer fd.Close()
	sc := bufio.NewScanner(fd)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for i := 0; sc.Scan(); i++ {
		if r.Skip(i) {
			continue
		}
		var p gprog
		if err := json.Unmarshal(sc.Bytes(), &p); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		r.Write(runGroup(r, p))
		r.N++
	}
}

func runGroup(r *Rec, p gprog) M {
	w := newGroupWorld(r, p.F)
	var m machine
	switch p.F {
	case "g1":
		m = &mG1{g: bls.NewG1()}
	case "g2":
		m = &mG2{g: bls.NewG2(nil)}
	case "k1", "k2":
		m = &mKyber{g2: p.F == "k2"}
	case "pa":
		m = &mPasta{}
	case "ed":
		m = &mEd{}
	}
	try := func(f func()) (st string) {
		defer func() {
			if x := recover(); x != nil {
				st = fmt.Sprint("PANIC ", x)
			}
		}()
		f()
		return "OK"
	}
	var start []string
	for i, c := range p.Init {
		s := w.plain(w.point(c))
		start = append(start, hex.EncodeToString(s))
		if st := try(func() { m.load(i+1, s) }); st != "OK" {
			start[i] = ""
		}
	}
	rec := M{"op": "Group", "f": p.F, "start": start}
	regs := append([]string{}, start...)
	evs := []M{}
	big32 := func(k *big.Int) []byte {
		if p.F == "ed" {
			return le32(k)
		}
		b := k.Bytes()
		if len(b) < 32 {
			b = Cat(make([]byte, 32-len(b)), b)
		}
		return b
	}
	for _, e := range p.Ev {
		a := gargs{d: e.D, a: e.A, b: e.B, k: w.scalar(e.K), x: w.input(e.Op, e.X), as: e.As}
		o := M{"op": e.Op, "d": e.D, "a": e.A, "b": e.B, "k": hex.EncodeToString(big32(a.k)), "x": hex.EncodeToString(a.x), "m": "", "as": append([]int{}, e.As...)}
		if p.F == "ed" {
			a.m = w.scalar(e.M)
			o["m"] = hex.EncodeToString(big32(a.m))
		} else if e.Op == "hash" || e.Op == "encode" {
			a.dom = w.domain(e.M)
			o["m"] = hex.EncodeToString(a.dom)
		}
		ks := []string{}
		for _, k := range e.Ks {
			v := new(big.Int).Set(w.scalar(k))
			a.ks = append(a.ks, v)
			ks = append(ks, hex.EncodeToString(big32(v)))
		}
		o["ks"] = ks
		a.k = new(big.Int).Set(a.k)
		k0, x0, dom0 := new(big.Int).Set(a.k), append([]byte{}, a.x...), append([]byte{}, a.dom...)
		var ok bool
		var out string
		st := try(func() { ok, out = m.do(e.Op, a) })
		if st == "OK" {
			same := k0.Cmp(a.k) == 0 && bytes.Equal(x0, a.x) && bytes.Equal(dom0, a.dom)
			for i, k := range a.ks {
				same = same && hex.EncodeToString(big32(k)) == ks[i]
			}
			if !same {
				st = "MUTATED"
			}
		}
		after := make([]string, len(regs))
		for i := range regs {
			if s := try(func() { after[i] = hex.EncodeToString(m.see(i + 1)) }); s != "OK" && st == "OK" {
				st = s
			}
		}
		o["ok"], o["out"], o["st"], o["after"] = ok, out, st, after
		evs = append(evs, o)
		regs = after
		if st != "OK" {
			break
		}
	}
	rec["ev"] = evs
	return rec
}
