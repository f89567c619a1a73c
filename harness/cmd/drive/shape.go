package main

import (
	"bufio"
	"encoding/json"
	"math/big"
	"os"
	"strings"

	. "aa/core"
)

func init() { gens["C25"] = genShapes }

// call is a scenario of ShapeScen.
type shapeCall struct {
	Op, Alg string
	Bad     [][]string
}

func readShapes(f func(i int, c shapeCall)) {
	fd, err := os.Open(os.Getenv("SCENARIOS"))
	if err != nil {
		panic(err)
	}
	defer fd.Close()
	sc := bufio.NewScanner(fd)
	for i := 0; sc.Scan(); i++ {
		var s string
		var c shapeCall
		if json.Unmarshal(sc.Bytes(), &s) != nil || json.Unmarshal([]byte(s), &c) != nil {
			panic(sc.Text())
		}
		f(i, c)
	}
}

var curveNames = map[string]string{"secp256k1": "K1", "secp256r1": "R1", "sm2_std": "SM2"}

type goods struct {
	r      *Rec
	m      map[string]M
	spoilt map[string]M
	notes  map[string]M
}

func newGoods(r *Rec) *goods {
	return &goods{r: r, m: map[string]M{}, spoilt: map[string]M{}, notes: map[string]M{}}
}

// base makes the good arguments of one function and selector.
func (g *goods) base(op, alg string) M {
	if m, ok := g.m[op+alg]; ok {
		return m
	}
	m := g.make(op, alg)
	g.m[op+alg] = m
	return m
}

func (g *goods) make(op, alg string) M {
	r := g.r
	in := M{"alg": alg}
	if strings.HasPrefix(op, "Part") {
		part(r, op, alg, in)
		return in
	}
	a := alg
	if op == "Add" || op == "Mul" || op == "MulBaseG_Add" {
		in = M{"name": alg}
		a = curveNames[alg]
	}
	if _, ok := curves[a]; !ok && a != "EDN" && a != "ED" && a != "X25519" && a != "KCDSA" && a != "BLSN" && a != "BLSA" {
		a = "SM2" // something plausible for selectors of other functions
	}
	c := curves[a]
	key := r.Bytes(32)
	if c != nil {
		key = b32(c.rnd(r))
	} else if a[0] == 'B' {
		key = b32(blsSk(r))
	}
	point := func() []byte {
		switch {
		case c != nil:
			return xy(c.mulG(c.rnd(r)))
		case a[0] == 'B':
			return GetB(r.Quiet("GenPubkey", M{"alg": "BLSN", "key": b32(blsSk(r))}), "out")
		case a == "X25519" || a == "KCDSA":
			return GetB(r.Quiet("GenPubkey", M{"alg": a, "key": r.Bytes(32)}), "out")
		}
		return eenc(emulB(new(big.Int).SetBytes(r.Bytes(32))))
	}
	msg := r.Bytes(32)
	var mm *mina
	if a == "PASTA" {
		mm = minaOf(r, 2, 1)
		msg = mm.json()
	}
	sm2 := curves["SM2"]
	switch op {
	case "GenPubkey":
		in["key"] = key
	case "Signature", "Verify", "RecoverPubkey":
		pub := GetB(r.Quiet("GenPubkey", M{"alg": a, "key": key}), "out")
		o := r.Quiet("Signature", M{"alg": a, "key": key, "id": []byte(nil), "msg": msg})
		sig := GetB(o, "out")
		v, _ := o["v"].(int)
		switch op {
		case "Signature":
			in["key"], in["id"], in["msg"] = key, []byte(nil), msg
		case "Verify":
			in["pub"], in["id"], in["msg"], in["sig"] = pub, []byte(nil), msg, sig
			if a[0] == 'B' {
				g.notes[op+alg] = M{"sk": key}
			}
		default:
			in["sig"], in["msg"] = Cat(sig, []byte{byte(v)}), msg
		}
		if mm != nil {
			in["mina"] = mm.note()["mina"]
		}
	case "AggregateSignatures":
		in["sigs"] = [][]byte{blsSign(r, "BLSN", blsSk(r), r.Bytes(9)), blsSign(r, "BLSN", blsSk(r), r.Bytes(9)), blsSign(r, "BLSA", blsSk(r), r.Bytes(9))}
	case "Encryption":
		d := sm2.rnd(r)
		in["pub"], in["plain"] = xy(sm2.mulG(d)), r.Bytes(40)
		g.notes[op+alg] = M{"d": b32(d)}
	case "Decryption":
		d := sm2.rnd(r)
		in["key"] = b32(d)
		in["cipher"], _ = sm2Encrypt(r, sm2.mulG(d), sm2.rnd(r), r.Bytes(40))
	case "KaInit2", "KaResp1", "KaRespE1", "KaResp2":
		A, B := sm2.party(r, 5), sm2.party(r, 9)
		rA, rB := sm2.rnd(r), sm2.rnd(r)
		g.notes[op+alg] = M{"la": b32(A.d), "lr": b32(rA)}
		RA, RB := xy(sm2.mulG(rA)), xy(sm2.mulG(rB))
		resp := M{"alg": "SM2", "idA": A.id, "idB": B.id, "dB": b32(B.d), "pubB": xy(B.pub), "pubA": xy(A.pub), "RA": RA, "keylen": 32, "rnd": b32(rB)}
		o := r.Quiet("KaRespE1", resp)
		switch op {
		case "KaInit2":
			in = M{"alg": alg, "idA": A.id, "idB": B.id, "dA": b32(A.d), "pubA": xy(A.pub), "pubB": xy(B.pub), "rA": b32(rA), "RA": RA, "RB": RB, "SB": GetB(o, "S2"), "keylen": 32}
		case "KaResp2":
			in["SA"], in["SB"] = GetB(o, "S1"), GetB(o, "S1")
		default:
			resp["alg"] = alg
			if op == "KaResp1" {
				delete(resp, "rnd")
			}
			in = resp
		}
	case "Point_mulBaseG":
		in["k"] = key
	case "Point_mulBaseG_add", "Point_mul", "Mul", "MulBaseG_Add":
		in["p"], in["k"] = point(), key
	case "Point_add", "Add":
		in["p"], in["q"] = point(), point()
	case "X_to_Ed":
		in["p"] = GetB(r.Quiet("GenPubkey", M{"alg": "X25519", "key": r.Bytes(32)}), "out")
	case "PointCompress", "Ed_to_X":
		in["p"] = point()
	case "PointDecompress":
		if c == nil {
			c = sm2
		}
		in["p"] = comp(c.mulG(c.rnd(r)))
	case "Hash":
		in["data"], in["len"] = r.Bytes(50), 32
	case "Hmac":
		in["key"], in["data"] = r.Bytes(20), r.Bytes(50)
	}
	return in
}

// shaped is the argument x made into the given shape.
func shaped(r *Rec, alg, kind, shape string, x []byte) []byte {
	le := alg == "EDN" || alg == "ED" || alg == "X25519" || alg == "KCDSA"
	bls := alg == "BLSN" || alg == "BLSA"
	c := curves[alg]
	if c == nil {
		if c = curves[curveNames[alg]]; c == nil {
			c = curves["SM2"]
		}
	}
	n := len(x)
	cp := append([]byte{}, x...)
	flip := func(lo, hi int) []byte {
		if hi > n {
			hi = n
		}
		if hi > lo {
			cp[lo+r.Rng.Intn(hi-lo)] ^= 1 << uint(r.Rng.Intn(8))
		}
		return cp
	}
	order, prime := c.n, c.p
	num := b32
	if le {
		order, prime, num = edL, edP, le32
	}
	if bls {
		order, prime = hx("73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001"), blsP
	}
	switch shape {
	case "nil":
		return nil
	case "empty":
		return []byte{}
	case "byte":
		return r.Bytes(1)
	case "short":
		if n == 0 {
			return []byte{}
		}
		return cp[:n-1]
	case "long":
		return append(cp, 0)
	case "double":
		return append(cp, cp...)
	case "zero":
		return make([]byte, n)
	case "ones":
		for i := range cp {
			cp[i] = 0xff
		}
		return cp
	case "random":
		return r.Bytes(n)
	case "huge":
		return r.Bytes(9000)
	case "spare":
		return append(make([]byte, 0, 500), cp...)
	case "flip":
		return flip(0, n)
	case "one":
		return num(bi(1))
	case "order":
		if kind == "signature" || kind == "signature65" {
			copy(cp, num(order))
			return cp
		}
		return num(order)
	case "order-1":
		return num(sub(order, bi(1)))
	case "order+1":
		return num(plus(order, bi(1)))
	// signatures
	case "twin":
		if n >= 64 {
			copy(cp[32:64], num(new(big.Int).Mod(sub(order, new(big.Int).SetBytes(cp[32:64])), order)))
		}
		return cp
	case "swapped":
		if n >= 64 {
			copy(cp, Cat(x[n/2:], x[:n/2]))
		}
		return cp
	case "r0":
		for i := 0; i < n/2; i++ {
			cp[i] = 0
		}
		return cp
	case "s0":
		for i := n / 2; i < n; i++ {
			cp[i] = 0
		}
		return cp
	case "v2", "vff":
		if n > 64 {
			cp[64] = map[string]byte{"v2": 2, "vff": 255}[shape]
		}
		return cp
	// ciphertexts
	case "c1":
		return flip(1, 65)
	case "c3":
		return flip(65, 97)
	case "head":
		if n > 97 {
			return cp[:97]
		}
		return cp
	case "tail":
		if n > 1 {
			return cp[1:]
		}
		return cp
	case "prefix":
		if n > 0 {
			cp[0] ^= 7
		}
		return cp
	case "offcurve":
		if n > 65 {
			cp[64] ^= 1
		}
		return cp
	}
	// points
	switch shape {
	case "off":
		if bls { // on the curve, outside the subgroup
			for {
				if p := blsAnyOnCurve(r); p != nil {
					return g1enc(p)
				}
			}
		}
		if le {
			for {
				y := fromLE(r.Bytes(32))
				y.SetBit(y, 255, 0)
				if elift(y, 0) == nil {
					return le32(y)
				}
			}
		}
		return flip(n-1, n)
	case "unreduced":
		if bls {
			b := g1enc(&pt{bi(0), bi(2)})
			copy(b, b48(blsP))
			b[0] |= 0x80
			return b
		}
		if le {
			return le32(plus(prime, bi(1)))
		}
		if kind == "compressed" {
			copy(cp[1:], b32(plus(prime, bi(1))))
			return cp
		}
		if n >= 64 {
			l := c.lift(bi(1), 0)
			if l == nil {
				l = c.lift(bi(2), 0)
			}
			if l == nil {
				l = c.lift(bi(3), 0)
			}
			if l != nil {
				return Cat(b32(plus(l.x, prime)), b32(l.y))
			}
		}
		return cp
	case "infinity":
		if bls {
			b := make([]byte, 48)
			b[0] = 0xc0
			return b
		}
		if le {
			return le32(bi(1))
		}
		return []byte{0}
	case "torsion":
		if le {
			t := torsion()
			return eenc(t[r.Rng.Intn(len(t))])
		}
		return cp
	case "other":
		if c != nil && !le && !bls {
			p := c.mulG(c.rnd(r))
			if kind == "compressed" {
				return comp(p)
			}
			return xy(p)
		}
		return cp
	case "negated":
		if !le && !bls && n == 64 {
			return xy(c.neg(&pt{new(big.Int).SetBytes(cp[:32]), new(big.Int).SetBytes(cp[32:])}))
		}
		if n > 0 {
			cp[n-1] ^= 0x80
		}
		return cp
	case "full":
		return Cat([]byte{4}, cp)
	case "hybrid":
		return Cat([]byte{6 + cp[n-1]&1}, cp)
	case "compressed":
		if !le && !bls && n == 64 {
			return Cat([]byte{2 + cp[63]&1}, cp[:32])
		}
		return cp
	}
	panic("shape " + kind + " " + shape)
}

func blsAnyOnCurve(r *Rec) *pt {
	x := new(big.Int).Mod(new(big.Int).SetBytes(r.Bytes(60)), blsP)
	y := new(big.Int).ModSqrt(fm(plus(new(big.Int).Exp(x, bi(3), blsP), bi(4))), blsP)
	if y == nil {
		return nil
	}
	return &pt{x, y}
}

func listShape(r *Rec, l [][]byte, shape string) [][]byte {
	l = append([][]byte{}, l...)
	inf := make([]byte, 96)
	inf[0] = 0xc0
	switch shape {
	case "none":
		return [][]byte{}
	case "nilmember":
		l[1] = nil
	case "emptymember":
		l[1] = []byte{}
	case "shortmember":
		l[0] = l[0][:95]
	case "longmember":
		l[1] = append(append([]byte{}, l[1]...), 0)
	case "badlast":
		l[2] = r.Bytes(96)
	case "infinity":
		l[0] = inf
	case "one":
		return l[:1]
	case "many":
		for len(l) < 20 {
			l = append(l, l[0])
		}
	case "offcurve":
		l[1] = append([]byte{}, l[1]...)
		l[1][95] ^= 1
	case "subgroup":
		l[1] = g2enc(g2any(r))
	}
	return l
}

var lengths = map[string]int{"0": 0, "1": 1, "16": 16, "31": 31, "32": 32, "33": 33, "64": 64, "65": 65, "255": 255, "8192": 8192, "65535": 65535}

// build makes the arguments of a call.
func (g *goods) build(c shapeCall) (in, note M) {
	in = M{}
	note = M{}
	base := g.base(c.Op, c.Alg)
	for k, v := range g.notes[c.Op+c.Alg] {
		note[k] = v
	}
	for k, v := range base {
		if k == "mina" {
			note[k] = v
		} else {
			in[k] = v
		}
	}
	for _, b := range c.Bad {
		name, kind, shape := b[0], b[1], b[2]
		switch kind {
		case "length":
			in[name] = lengths[shape]
		case "list":
			l, _ := in[name].([][]byte)
			in[name] = listShape(g.r, l, shape)
		default:
			x := GetB(in, name)
			in[name] = shaped(g.r, c.Alg, kind, shape, x)
			if name == "msg" && string(in[name].([]byte)) != string(x) {
				delete(note, "mina") // not a message any more, or not certainly
				if shape == "flip" {
					note["maybe"] = 1
				}
			}
		}
	}
	return
}

// args are the arguments of a call, the same whenever asked for.
func (g *goods) args(c shapeCall) M {
	k, _ := json.Marshal(c)
	if m, ok := g.spoilt[string(k)]; ok {
		return m
	}
	in, _ := g.build(c)
	g.spoilt[string(k)] = in
	return in
}

// perform makes the call of a scenario.
func (g *goods) perform(c shapeCall) {
	in, note := g.build(c)
	g.r.Call(c.Op, in, note)
}

func genShapes(r *Rec) {
	g := newGoods(r)
	readShapes(func(i int, c shapeCall) {
		if r.Skip(i) {
			return
		}
		g.perform(c)
	})
}
