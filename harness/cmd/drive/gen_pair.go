package main

import (
	"bufio"
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"os"

	. "aa/core"

	"github.com/blocktree/go-owcrypt/bls12_381"
	"github.com/blocktree/go-owcrypt/bls12_381/bls"
	"github.com/drand/kyber"
	"github.com/drand/kyber/pairing"
)

func init() { gens["C29"] = genPair }

type pprog struct {
	F    string
	P, Q []string
	Ev   []gev
}

// pmachine is the real code: points, elements of the target group, an engine.
type pmachine interface {
	load(i int, p, q []byte)
	see(i int) (p, q, t []byte)
	do(op string, e gargs) (ok bool, out string)
}

// Package bls.
type pEng struct {
	e *bls.Engine
	p *mG1
	q *mG2
	t [4]*bls.E
}

func (m *pEng) load(i int, p, q []byte) {
	m.p.load(i, p)
	m.q.load(i, q)
	m.t[i] = m.e.GT().New()
}
func (m *pEng) see(i int) (p, q, t []byte) {
	return m.p.see(i), m.q.see(i), bls.NewGT().ToBytes(m.t[i])
}
func (m *pEng) do(op string, e gargs) (bool, string) {
	t, gt := &m.t, m.e.GT()
	same := func(x *bls.Engine) (bool, string) {
		if x != m.e {
			return true, "not the engine"
		}
		return true, ""
	}
	switch op {
	case "add":
		return same(m.e.AddPair(m.p.r[e.a], m.q.r[e.b]))
	case "inv":
		return same(m.e.AddPairInv(m.p.r[e.a], m.q.r[e.b]))
	case "reset":
		return same(m.e.Reset())
	case "check":
		return true, tf(m.e.Check())
	case "result":
		t[e.d] = m.e.Result()
	case "pagain": // the same point, otherwise represented
		g, q := m.p.g, *m.p.r[e.a]
		g.Add(&q, &q, g.One())
		g.Sub(&q, &q, g.One())
		m.p.r[e.a] = &q
	case "qagain":
		g, q := m.q.g, *m.q.r[e.a]
		g.Add(&q, &q, g.One())
		g.Sub(&q, &q, g.One())
		m.q.r[e.a] = &q
	case "tmul":
		gt.Mul(t[e.d], t[e.a], t[e.b])
	case "tadd":
		gt.Add(t[e.d], t[e.a], t[e.b])
	case "tsub":
		gt.Sub(t[e.d], t[e.a], t[e.b])
	case "tsq":
		gt.Square(t[e.d], t[e.a])
	case "texp":
		gt.Exp(t[e.d], t[e.a], e.k)
	case "tinv":
		gt.Inverse(t[e.d], t[e.a])
	case "tset":
		if e.b == 1 {
			t[e.d].Set(t[e.a])
		} else {
			gt.Copy(t[e.d], t[e.a])
		}
	case "tone":
		if e.b == 1 {
			t[e.d].One()
		} else {
			t[e.d] = gt.One()
		}
	case "teq":
		if x := gt.Equal(t[e.a], t[e.b]); x != t[e.a].Equal(t[e.b]) {
			return true, "differ"
		}
		return true, tf(gt.Equal(t[e.a], t[e.b]))
	case "tisone":
		if gt.IsOne(t[e.a]) != t[e.a].IsOne() {
			return true, "differ"
		}
		return true, tf(gt.IsOne(t[e.a]))
	case "tvalid":
		return true, tf(gt.IsValid(t[e.a]))
	case "tto":
		return true, hex.EncodeToString(gt.ToBytes(t[e.a]))
	case "tfrom":
		x, err := gt.FromBytes(e.x)
		if err == nil {
			t[e.d] = x
		}
		return err == nil, ""
	default:
		panic("harness: " + op)
	}
	return true, ""
}

// The suite of package bls12_381.
type pSuite struct {
	s    pairing.Suite
	p, q *mKyber
	t    [4]kyber.Point
}

func (m *pSuite) load(i int, p, q []byte) {
	m.p.load(i, p)
	m.q.load(i, q)
	m.t[i] = m.s.GT().Point().Null()
}
func (m *pSuite) see(i int) (p, q, t []byte) {
	t, err := m.t[i].MarshalBinary()
	if err != nil {
		panic(err)
	}
	return m.p.see(i), m.q.see(i), t
}
func (m *pSuite) do(op string, e gargs) (bool, string) {
	t, p, q := &m.t, &m.p.r, &m.q.r
	ret := func(x kyber.Point) (bool, string) {
		if x != t[e.d] {
			return true, "not the receiver"
		}
		return true, ""
	}
	switch op {
	case "pair":
		t[e.d] = m.s.Pair(p[e.a], q[e.b])
	case "validate":
		return true, tf(m.s.ValidatePairing(p[e.as[0]], q[e.as[1]], p[e.as[2]], q[e.as[3]]))
	case "pagain", "qagain":
		r, g := p, m.s.G1()
		if op == "qagain" {
			r, g = q, m.s.G2()
		}
		x := g.Point().Add(r[e.a], g.Point().Base())
		r[e.a] = x.Sub(x, g.Point().Base())
	case "tmul":
		return ret(t[e.d].Add(t[e.a], t[e.b]))
	case "tdiv":
		return ret(t[e.d].Sub(t[e.a], t[e.b]))
	case "tset":
		return ret(t[e.d].Set(t[e.a]))
	case "tclone":
		t[e.d] = t[e.a].Clone()
	case "tone":
		return ret(t[e.d].Null())
	case "teq":
		return true, tf(t[e.a].Equal(t[e.b]))
	case "tto":
		if e.b == 1 {
			var b bytes.Buffer
			if n, err := t[e.a].MarshalTo(&b); err != nil || n != b.Len() || n != t[e.a].MarshalSize() {
				return true, "size"
			}
			return true, hex.EncodeToString(b.Bytes())
		}
		b, err := t[e.a].MarshalBinary()
		if err != nil {
			return true, err.Error()
		}
		return true, hex.EncodeToString(b)
	case "tfrom":
		if e.d == 3 && len(e.x) == 576 {
			n, err := t[e.d].UnmarshalFrom(bytes.NewReader(append(append([]byte{}, e.x...), 1)))
			if n != 576 {
				return true, "size"
			}
			return err == nil, ""
		}
		return t[e.d].UnmarshalBinary(e.x) == nil, ""
	default:
		panic("harness: " + op)
	}
	return true, ""
}

// pworld makes the points, with their logarithms.
type pworld struct {
	*gworld
	lp, lq []*big.Int
}

// f12 is the field with p^12 elements: coefficients of 1, w .. w^5, w^6 = 1 + i.
type f12 [6]f2

func (a f12) mul(b f12) (c f12) {
	var s [11]f2
	for i := range s {
		s[i] = f2{bi(0), bi(0)}
	}
	for i := range a {
		for j := range b {
			s[i+j] = s[i+j].add(a[i].mul(b[j]))
		}
	}
	for i := range c {
		c[i] = s[i]
		if i < 5 {
			c[i] = c[i].add(s[i+6].mul(f2{bi(1), bi(1)}))
		}
	}
	return c
}

var tpool, cpool [][]byte

// element is the encoding of some member of the target group.
func (w *pworld) element() []byte {
	if len(tpool) < 6 {
		k := plus(w.scalar("rnd"), bi(1))
		e := bls.NewEngine()
		x := e.AddPair(e.G1.One(), e.G2.One()).Result()
		e.GT().Exp(x, x, k)
		tpool = append(tpool, e.GT().ToBytes(x))
	}
	return append([]byte{}, tpool[w.r.Rng.Intn(len(tpool))]...)
}
func (w *pworld) member(form string) []byte {
	rnd := w.r.Rng
	num := func(i int, v *big.Int, s []byte) { copy(s[48*i:], b48(v)) }
	field := func() *big.Int { return fm(new(big.Int).SetBytes(w.r.Bytes(60))) }
	s := w.element()
	switch form {
	case "good":
	case "one", "zero", "minus":
		s = make([]byte, 576)
		if form == "one" {
			num(11, bi(1), s)
		} else if form == "minus" {
			num(11, sub(blsP, bi(1)), s)
		}
	case "field": // in the field with p elements
		s = make([]byte, 576)
		num(11, plus(field(), bi(2)), s)
	case "field2":
		s = make([]byte, 576)
		num(11, field(), s)
		num(10, field(), s)
	case "cyc": // in the cyclotomic subgroup
		if len(cpool) < 3 {
			var a f12
			for i := range a {
				a[i] = f2{field(), field()}
			}
			e := new(big.Int).Exp(blsP, bi(6), nil)
			e = e.Mul(sub(e, bi(1)), plus(new(big.Int).Mul(blsP, blsP), bi(1)))
			c := f12{{bi(1), bi(0)}, {bi(0), bi(0)}, {bi(0), bi(0)}, {bi(0), bi(0)}, {bi(0), bi(0)}, {bi(0), bi(0)}}
			for i := e.BitLen() - 1; i >= 0; i-- {
				c = c.mul(c)
				if e.Bit(i) == 1 {
					c = c.mul(a)
				}
			}
			for i, k := range []int{5, 3, 1, 4, 2, 0} {
				num(2*i, c[k].b, s)
				num(2*i+1, c[k].a, s)
			}
			cpool = append(cpool, s)
		}
		s = cpool[rnd.Intn(len(cpool))]
	case "random":
		for i := 0; i < 12; i++ {
			num(i, field(), s)
		}
	case "unred":
		return addP(s, 48, blsP, rnd.Intn(12), 0)
	case "flip":
		s[48*rnd.Intn(12)+8+rnd.Intn(40)] ^= byte(1 << uint(rnd.Intn(8)))
	case "short":
		return s[:575]
	case "longer":
		return append(s, 0)
	case "nil":
		return nil
	case "swap":
		i, j := rnd.Intn(6), rnd.Intn(5)
		if j >= i {
			j++
		}
		t := append([]byte{}, s[96*i:96*i+96]...)
		copy(s[96*i:], s[96*j:96*j+96])
		copy(s[96*j:], t)
	default:
		panic("form " + form)
	}
	return s
}

var logs1, logs2 []*big.Int
var pts1 []*pt
var pts2 []*pt2

func genPair(r *Rec) {
	fd, err := os.Open(os.Getenv("SCENARIOS"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	defer fd.Close()
	w := &pworld{gworld: newGroupWorld(r, "g1")}
	for i := 0; i < 12; i++ {
		k := plus(w.scalar("rnd"), bi(1))
		l := new(big.Int).ModInverse(k, blsR)
		logs1, logs2 = append(logs1, k), append(logs2, plus(w.scalar("rnd"), bi(1)))
		pts1, pts2 = append(pts1, g1.mulG(k)), append(pts2, g2mul(logs2[i], g2Gen()))
		invs = append(invs, l)
		pinv = append(pinv, g2mul(l, g2Gen()))
	}
	sc := bufio.NewScanner(fd)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for i := 0; sc.Scan(); i++ {
		if r.Skip(i) {
			continue
		}
		var p pprog
		if err := json.Unmarshal(sc.Bytes(), &p); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		r.Write(w.run(p))
		r.N++
	}
}

var invs []*big.Int
var pinv []*pt2

func (w *pworld) run(prog pprog) M {
	var m pmachine
	if prog.F == "eng" {
		m = &pEng{e: bls.NewEngine(), p: &mG1{g: bls.NewG1()}, q: &mG2{g: bls.NewG2(nil)}}
	} else {
		m = &pSuite{s: bls12_381.NewBLS12381Suite(), p: &mKyber{}, q: &mKyber{g2: true}}
	}
	try := func(f func()) (st string) {
		defer func() {
			if x := recover(); x != nil {
				st = fmt.Sprint("PANIC ", x)
			}
		}()
		f()
		return "OK"
	}
	rng := w.r.Rng
	ip, iq := rng.Intn(len(pts1)), rng.Intn(len(pts2))
	neg := func(k *big.Int) *big.Int { return new(big.Int).Mod(new(big.Int).Neg(k), blsR) }
	dbl := func(k *big.Int) *big.Int { return new(big.Int).Mod(plus(k, k), blsR) }
	point1 := func(c string) (*big.Int, *pt) {
		switch c {
		case "O":
			return bi(0), nil
		case "G":
			return bi(1), g1.g
		case "P":
			return logs1[ip], pts1[ip]
		case "N":
			return neg(logs1[ip]), g1.neg(pts1[ip])
		case "D":
			return dbl(logs1[ip]), g1.add(pts1[ip], pts1[ip])
		}
		i := rng.Intn(len(pts1))
		return logs1[i], pts1[i]
	}
	point2 := func(c string) (*big.Int, *pt2) {
		switch c {
		case "O":
			return bi(0), nil
		case "G":
			return bi(1), g2Gen()
		case "P":
			return logs2[iq], pts2[iq]
		case "N":
			return neg(logs2[iq]), g2neg(pts2[iq])
		case "D":
			return dbl(logs2[iq]), g2add(pts2[iq], pts2[iq])
		case "I":
			return invs[ip], pinv[ip]
		}
		i := rng.Intn(len(pts2))
		return logs2[i], pts2[i]
	}
	one := make([]byte, 576)
	one[575] = 1
	var ps, qs, ts, lp, lq []string
	st := "OK"
	for i := range prog.P {
		k, p := point1(prog.P[i])
		l, q := point2(prog.Q[i])
		p1, q1 := plain1(p), plain2(q)
		ps, qs, ts = append(ps, hex.EncodeToString(p1)), append(qs, hex.EncodeToString(q1)), append(ts, hex.EncodeToString(one))
		lp, lq = append(lp, hex.EncodeToString(b32(k))), append(lq, hex.EncodeToString(b32(l)))
		if s := try(func() { m.load(i+1, p1, q1) }); s != "OK" {
			st = s
		}
	}
	rec := M{"op": "Pair", "f": prog.F, "start": M{"p": append([]string{}, ps...), "q": append([]string{}, qs...), "t": append([]string{}, ts...), "lp": lp, "lq": lq, "acc": hex.EncodeToString(make([]byte, 32))}}
	evs := []M{}
	for _, e := range prog.Ev {
		a := gargs{d: e.D, a: e.A, b: e.B, k: new(big.Int).Set(w.scalar(e.K)), as: e.As}
		if e.Op == "tfrom" {
			a.x = w.member(e.X)
		}
		kb := a.k.Bytes()
		if len(kb) < 32 {
			kb = b32(a.k)
		}
		o := M{"op": e.Op, "d": e.D, "a": e.A, "b": e.B, "k": hex.EncodeToString(kb), "x": hex.EncodeToString(a.x), "as": append([]int{}, e.As...)}
		k0, x0 := new(big.Int).Set(a.k), append([]byte{}, a.x...)
		var ok bool
		var out string
		if st == "OK" {
			st = try(func() { ok, out = m.do(e.Op, a) })
		}
		if st == "OK" && (k0.Cmp(a.k) != 0 || !bytes.Equal(x0, a.x)) {
			st = "MUTATED"
		}
		for i := range ps {
			s := try(func() {
				p, q, t := m.see(i + 1)
				ps[i], qs[i], ts[i] = hex.EncodeToString(p), hex.EncodeToString(q), hex.EncodeToString(t)
			})
			if s != "OK" && st == "OK" {
				st = s
			}
		}
		o["ok"], o["out"], o["st"] = ok, out, st
		o["p"], o["q"], o["t"] = append([]string{}, ps...), append([]string{}, qs...), append([]string{}, ts...)
		evs = append(evs, o)
		if st != "OK" {
			break
		}
	}
	rec["ev"] = evs
	return rec
}
