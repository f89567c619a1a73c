package main

import (
	"crypto/sha256"
	"encoding/binary"
	"math/big"
	"math/rand"
	"sync"

	. "aa/core"
	"aa/rnd"
)

func init() { gens["C04"] = genSession }

// question is a call, the same in every process of the run.
type question struct {
	op   string
	in   M
	note M
	show func(o M) []byte // the part of the result that shows the secret
}

func half(o M) []byte {
	if b := GetB(o, "out"); len(b) >= 32 {
		return b[:32]
	}
	return nil
}

func signing(alg string, key, msg []byte) question {
	return question{"Signature", M{"alg": alg, "key": key, "id": []byte(nil), "msg": msg}, M{}, half}
}

// questions are those of the randomised schemes.
func questions(g *rand.Rand) map[string][]question {
	fix := &Rec{Rng: g}
	q := map[string][]question{}
	for _, a := range weiAlgs {
		c := curves[a]
		for _, d := range []*big.Int{c.rnd(fix), bi(1), c.rnd(fix)} {
			for _, h := range [][]byte{fix.Bytes(32), make([]byte, 32)} {
				q[a] = append(q[a], signing(a, b32(d), h))
			}
		}
	}
	c := curves["SM2"]
	for i := range q["SM2"] {
		if i%3 == 2 {
			q["SM2"][i].in["id"] = []byte("1234567812345678")
		}
	}
	for _, a := range []string{"ED", "X25519"} {
		for i := 0; i < 3; i++ {
			k := fix.Bytes(32)
			if i == 1 {
				k = b32(bi(0))
				k[0] = 8
			}
			q[a] = append(q[a], signing(a, k, fix.Bytes(20)), signing(a, k, []byte{}))
		}
	}
	pc := curves["PASTA"]
	for i := 0; i < 3; i++ {
		d, m := pc.rnd(fix), minaOf(fix, 2, 1)
		s := signing("PASTA", b32(d), m.json())
		s.note = m.note()
		q["PASTA"] = append(q["PASTA"], s)
	}
	for i := 0; i < 3; i++ {
		d := c.rnd(fix)
		q["Encryption"] = append(q["Encryption"], question{"Encryption", M{"alg": "SM2", "pub": xy(c.mulG(d)), "plain": fix.Bytes(1 + 20*i)}, M{"d": b32(d)},
			func(o M) []byte {
				if b := GetB(o, "out"); len(b) > 65 {
					return b[1:65]
				}
				return nil
			}})
		A, B := c.party(fix, 8), c.party(fix, 16)
		in := M{"alg": "SM2", "idA": A.id, "idB": B.id, "dB": b32(B.d), "pubB": xy(B.pub), "pubA": xy(A.pub), "RA": xy(c.mulG(c.rnd(fix))), "keylen": 32}
		op := "KaResp1"
		if i == 2 {
			op, in["rnd"] = "KaRespE1", []byte(nil)
		}
		q["KaResp1"] = append(q["KaResp1"], question{op, in, M{}, func(o M) []byte { return GetB(o, "RB") }})
	}
	q["KaInit1"] = []question{{"KaInit1", M{"alg": "SM2"}, M{}, func(o M) []byte { return GetB(o, "tmpkey") }}}
	return q
}

// related are messages that an implementation could confuse.
func related(g *rand.Rand) (l [][]byte) {
	fix := &Rec{Rng: g}
	b := fix.Bytes(300)
	for _, n := range []int{0, 1, 31, 32, 33, 63, 64, 65, 96, 127, 128, 129, 300} {
		l = append(l, append([]byte{}, b[:n]...), append(append([]byte{}, b[:n]...), 0))
		if n > 0 {
			x := append([]byte{}, b[:n]...)
			x[n-1] ^= 1
			y := append([]byte{}, b[:n]...)
			y[0] ^= 0x80
			z := append([]byte{0}, b[:n]...)
			l = append(l, x, y, z)
		}
	}
	return append(l, make([]byte, 32), make([]byte, 64))
}

var sessionSchemes = []string{"K1", "R1", "SM2", "ED", "X25519", "PASTA", "Encryption", "KaInit1", "KaResp1"}

func genSession(r *Rec) {
	g := rand.New(rand.NewSource(20261119))
	qs := questions(g)
	msgs := related(g)
	scalar := func(n M, on bool) M {
		m := M{}
		for k, v := range n {
			m[k] = v
		}
		if on {
			m["scalar"] = 1
		}
		return m
	}
	all := func(n int, f func(r *Rec, i int)) {
		var wg sync.WaitGroup
		start := make(chan bool)
		rs := make([]*Rec, n)
		for i := range rs {
			rs[i] = r.Fork()
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				<-start
				f(rs[i], i)
			}(i)
		}
		close(start)
		wg.Wait()
		for _, x := range rs {
			r.Join(x)
		}
	}
	for _, s := range sessionSchemes {
		// the same question from many callers at once, then one after the other
		all(8, func(r *Rec, i int) {
			for j := 0; j < r.Scale(5, 100); j++ {
				r.Call(qs[s][0].op, qs[s][0].in, scalar(qs[s][0].note, j < 3))
			}
		})
		for j := 0; j < r.Scale(100, 2000); j++ {
			q := qs[s][j%len(qs[s])]
			r.Call(q.op, q.in, scalar(q.note, j < r.Scale(16, 200)))
		}
	}
	// callers of all schemes at once
	all(16, func(r *Rec, i int) {
		for j := 0; j < r.Scale(2, 20); j++ {
			for _, s := range sessionSchemes {
				q := qs[s][(i+j)%len(qs[s])]
				r.Call(q.op, q.in, q.note)
			}
		}
	})
	for _, a := range []string{"EDN", "KCDSA", "BLSN", "BLSA"} {
		bls := a[0] == 'B'
		keys := [][]byte{Hex("0102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f20"), sha(a, "a key"), sha(a, "another key")}
		if bls {
			for i := range keys {
				keys[i][0] = byte(i)
			}
		}
		all(4, func(r *Rec, i int) {
			for j, m := range msgs {
				for n, k := range keys {
					if bls && (j+n)%r.Scale(24, 6) != 0 || !bls && !r.Thorough() && (j+n+r.Part)%8 != 0 {
						continue
					}
					q := signing(a, k, m)
					r.Call(q.op, q.in, q.note)
				}
			}
		})
	}
	// what crypto/rand gives decides
	for i, s := range append(append([]string{}, sessionSchemes...), "EDN", "KCDSA", "BLSN", "BLSA") {
		if r.Skip(i) {
			continue
		}
		l := qs[s]
		if l == nil {
			k := sha(s, "a key")
			k[0] = 1
			l = []question{signing(s, k, []byte("message"))}
			l[0].show = func(o M) []byte { return GetB(o, "out") }
		}
		for j, q := range l {
			if j%2 == 1 || j > 1 && !r.Thorough() && s != "KaResp1" {
				continue
			}
			ask := func(flip int) (secret []byte, used int) {
				st := &stream{flip: flip}
				rnd.With(st, func() { secret = append([]byte{}, q.show(r.Quiet(q.op, q.in))...) })
				return secret, st.n
			}
			secret, used := ask(-1)
			secrets := [][]byte{secret}
			for b := 0; b < 8*used && b < 640 || used == 0 && b < 3; b++ {
				x, _ := ask(b)
				secrets = append(secrets, x)
			}
			r.Write(M{"op": "Influence", "what": s, "key": q.in["key"], "bytes": used, "secrets": secrets})
		}
	}
}

func sha(p ...string) []byte {
	h := sha256.New()
	for _, s := range p {
		h.Write([]byte(s))
	}
	return h.Sum(nil)
}

// stream is a fixed sequence of bytes of which one bit may be flipped.
type stream struct{ n, flip int }

func (s *stream) Read(p []byte) (int, error) {
	var c [8]byte
	for i := range p {
		binary.BigEndian.PutUint64(c[:], uint64(s.n/32))
		d := sha256.Sum256(c[:])
		p[i] = d[s.n%32]
		if s.flip >= 0 && s.flip/8 == s.n {
			p[i] ^= 1 << uint(s.flip%8)
		}
		s.n++
	}
	return len(p), nil
}
