package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"hash"
	"os"
	"strconv"

	. "aa/core"
	"github.com/blocktree/go-owcrypt/blake256"
	"github.com/blocktree/go-owcrypt/blake2s"
	"github.com/blocktree/go-owcrypt/blake512"
	"github.com/blocktree/go-owcrypt/sha3"
	sm3pkg "github.com/blocktree/go-owcrypt/sm3"
)

func init() { gens["C21"] = genStream }

// streamKind is one way of creating a hash object, and what the specification
// calls it.
type streamKind struct {
	rec   M
	block int
	limit int // length field of the padding, in bytes
	mk    func() interface{}
}

func plain(alg string, size, block, limit int, mk func() interface{}) streamKind {
	return streamKind{M{"alg": alg, "size": size, "salt": []byte{}}, block, limit, mk}
}

func b2rec(c *blake2s.Config) M {
	m := M{"alg": "BLAKE2S", "size": int(c.Size), "key": c.Key, "salt": c.Salt, "person": c.Person, "tree": "",
		"fanout": 0, "depth": 0, "leaf": []byte{}, "offset": []byte{}, "nodedepth": 0, "inner": 0}
	for _, k := range []string{"key", "salt", "person"} {
		if m[k].([]byte) == nil {
			m[k] = []byte{}
		}
	}
	if t := c.Tree; t != nil {
		m["tree"] = "node"
		if t.IsLastNode {
			m["tree"] = "last"
		}
		m["fanout"], m["depth"], m["nodedepth"], m["inner"] = int(t.Fanout), int(t.MaxDepth), int(t.NodeDepth), int(t.InnerHashSize)
		m["leaf"] = []byte{byte(t.LeafSize >> 24), byte(t.LeafSize >> 16), byte(t.LeafSize >> 8), byte(t.LeafSize)}
		o := []byte{}
		for i := 40; i >= 0; i -= 8 {
			o = append(o, byte(t.NodeOffset>>uint(i)))
		}
		if t.NodeOffset>>48 != 0 {
			o = append([]byte{byte(t.NodeOffset >> 48)}, o...)
		}
		m["offset"] = o
	}
	return m
}

func mess(b []byte) []byte { return append([]byte{}, b...) }

// b2 gives the library its own copy of the configuration, and overwrites it after.
func b2(c blake2s.Config) streamKind {
	return streamKind{b2rec(&c), 64, 0, func() interface{} {
		d := c
		if c.Key != nil {
			d.Key = mess(c.Key)
		}
		if c.Salt != nil {
			d.Salt = mess(c.Salt)
		}
		if c.Person != nil {
			d.Person = mess(c.Person)
		}
		if c.Tree != nil {
			t := *c.Tree
			d.Tree = &t
		}
		h, err := blake2s.New(&d)
		for _, b := range [][]byte{d.Key, d.Salt, d.Person} {
			for i := range b {
				b[i] ^= 0x55
			}
		}
		if d.Tree != nil {
			*d.Tree = blake2s.Tree{}
		}
		if err != nil {
			return nil
		}
		return h
	}}
}

func salted(alg string, size, block, limit int, salt []byte, f func([]byte) hash.Hash) streamKind {
	return streamKind{M{"alg": alg, "size": size, "salt": salt}, block, limit, func() interface{} {
		s := mess(salt)
		h := f(s)
		for i := range s {
			s[i] ^= 0x55
		}
		return h
	}}
}

func streamKinds(r *Rec) (hs, xs []streamKind) {
	h := func(f func() hash.Hash) func() interface{} { return func() interface{} { return f() } }
	hs = []streamKind{
		plain("SHA3", 28, 144, 0, h(sha3.New224)),
		plain("SHA3", 32, 136, 0, h(sha3.New256)),
		plain("SHA3", 48, 104, 0, h(sha3.New384)),
		plain("SHA3", 64, 72, 0, h(sha3.New512)),
		plain("KECCAK", 32, 136, 0, h(sha3.NewKeccak256)),
		plain("KECCAK", 64, 72, 0, h(sha3.NewKeccak512)),
		plain("SM3", 32, 64, 8, h(sm3pkg.New)),
		plain("BLAKE256", 32, 64, 8, h(blake256.New)),
		plain("BLAKE224", 28, 64, 8, h(blake256.New224)),
		plain("BLAKE512", 64, 128, 16, h(blake512.New)),
		plain("BLAKE384", 48, 128, 16, h(blake512.New384)),
		salted("BLAKE256", 32, 64, 8, r.Bytes(16), blake256.NewSalt),
		salted("BLAKE224", 28, 64, 8, r.Bytes(16), blake256.New224Salt),
		salted("BLAKE512", 64, 128, 16, r.Bytes(32), blake512.NewSalt),
		salted("BLAKE384", 48, 128, 16, r.Bytes(32), blake512.New384Salt),
		{b2rec(&blake2s.Config{Size: 32}), 64, 0, h(blake2s.New256)},
		{b2rec(&blake2s.Config{Size: 32}), 64, 0, func() interface{} { x, _ := blake2s.New(nil); return x }},
		b2(blake2s.Config{}),
		b2(blake2s.Config{Size: 1}),
		b2(blake2s.Config{Size: 20, Key: r.Bytes(1)}),
		b2(blake2s.Config{Size: 29, Key: r.Bytes(31), Salt: r.Bytes(8)}),
		b2(blake2s.Config{Size: 32, Key: r.Bytes(32), Salt: r.Bytes(8), Person: r.Bytes(8)}),
		b2(blake2s.Config{Size: 16, Person: r.Bytes(8)}),
		b2(blake2s.Config{Size: 8, Salt: r.Bytes(3), Person: r.Bytes(5)}),
		b2(blake2s.Config{Size: 32, Key: []byte{}, Salt: []byte{}, Person: []byte{}}),
		b2(blake2s.Config{Size: 32, Tree: &blake2s.Tree{Fanout: 2, MaxDepth: 2, LeafSize: 4096, NodeOffset: 1, InnerHashSize: 32}}),
		b2(blake2s.Config{Size: 32, Key: r.Bytes(16), Tree: &blake2s.Tree{Fanout: 0, MaxDepth: 255, LeafSize: 0x89abcdef, NodeOffset: 0xf1e2d3c4b5a6, NodeDepth: 7, InnerHashSize: 16, IsLastNode: true}}),
		b2(blake2s.Config{Size: 31, Salt: r.Bytes(8), Tree: &blake2s.Tree{Fanout: 255, MaxDepth: 3, NodeDepth: 2, IsLastNode: true}}),
	}
	for _, c := range []struct {
		n int
		k []byte
	}{{16, r.Bytes(32)}, {32, r.Bytes(7)}} {
		c := c
		hs = append(hs, streamKind{b2rec(&blake2s.Config{Size: uint8(c.n), Key: c.k}), 64, 0, func() interface{} {
			k := mess(c.k)
			x := blake2s.NewMAC(uint8(c.n), k)
			for i := range k {
				k[i]++
			}
			return x
		}})
	}
	xs = []streamKind{
		plain("SHAKE", 16, 168, 0, func() interface{} { return sha3.NewShake128() }),
		plain("SHAKE", 32, 136, 0, func() interface{} { return sha3.NewShake256() }),
	}
	return
}

// history performs events on hash objects and records them.
type history struct {
	r     *Rec
	kinds []streamKind
	objs  []interface{}
	ev    []M
}

func (h *history) do(m M, f func(m M)) M {
	h.r.N++
	m["st"] = "OK"
	func() {
		defer func() {
			if e := recover(); e != nil {
				m["st"] = "PANIC"
				m["panic"] = fmt.Sprint(e)
			}
		}()
		f(m)
	}()
	h.ev = append(h.ev, m)
	return m
}

func (h *history) create(k streamKind) int {
	h.do(M{"op": "New", "kind": k.rec}, func(m M) {
		o := k.mk()
		if o == nil {
			m["st"] = "REFUSED"
		}
		h.objs = append(h.objs, o)
		h.kinds = append(h.kinds, k)
	})
	return len(h.objs)
}

func (h *history) write(o int, p []byte) {
	h.do(M{"op": "Write", "obj": o, "p": p}, func(m M) {
		q := make([]byte, len(p), len(p)+16)
		copy(q, p)
		n, err := h.objs[o-1].(interface {
			Write([]byte) (int, error)
		}).Write(q)
		for i := range q[:cap(q)] {
			q[:cap(q)][i] ^= 0x3c // the object may not go on using p
		}
		m["out"] = n
		if err != nil {
			m["st"] = "ERROR"
		}
	})
}

// zeros writes n blocks of 64 zeros.
func (h *history) zeros(o, n int) {
	h.do(M{"op": "Zeros", "obj": o, "n": n}, func(m M) {
		q := make([]byte, 1<<20)
		for n *= 64; n > 0; {
			if len(q) > n {
				q = q[:n]
			}
			k, err := h.objs[o-1].(interface {
				Write([]byte) (int, error)
			}).Write(q)
			if err != nil || k != len(q) {
				m["st"] = "ERROR"
			}
			n -= len(q)
		}
	})
}

func (h *history) sum(o int, prefix []byte) {
	h.do(M{"op": "Sum", "obj": o, "p": prefix}, func(m M) {
		var in []byte
		if len(prefix) > 0 {
			in = append(make([]byte, 0, len(prefix)+h.r.Rng.Intn(2)*100), prefix...)
		}
		out := h.objs[o-1].(hash.Hash).Sum(in)
		m["out"] = mess(out)
		for i := range out[:cap(out)] {
			out[:cap(out)][i] ^= 0x3c
		}
	})
}

func (h *history) read(o, n int) {
	h.do(M{"op": "Read", "obj": o, "n": n}, func(m M) {
		b := make([]byte, n)
		k, err := h.objs[o-1].(sha3.ShakeHash).Read(b)
		m["out"] = mess(b)
		if err != nil || k != n {
			m["st"] = "ERROR"
		}
		for i := range b {
			b[i] ^= 0x3c
		}
	})
}

func (h *history) reset(o int) {
	h.do(M{"op": "Reset", "obj": o}, func(m M) { h.objs[o-1].(interface{ Reset() }).Reset() })
}

func (h *history) clone(o int) int {
	h.do(M{"op": "Clone", "obj": o}, func(m M) {
		h.objs = append(h.objs, h.objs[o-1].(sha3.ShakeHash).Clone())
		h.kinds = append(h.kinds, h.kinds[o-1])
	})
	return len(h.objs)
}

func (h *history) sizes(o int) {
	x := h.objs[o-1].(hash.Hash)
	h.do(M{"op": "Size", "obj": o}, func(m M) { m["out"] = x.Size() })
	h.do(M{"op": "BlockSize", "obj": o}, func(m M) { m["out"] = x.BlockSize() })
}

func (h *history) end() { h.r.Write(M{"op": "History", "ev": h.ev}) }

// sizeOf reads a size class.
func (k streamKind) sizeOf(r *Rec, c string) int {
	switch c {
	case "":
		return 0
	case "P":
		l := k.limit
		if l == 0 {
			l = 2
		}
		return k.block - l - r.Rng.Intn(3)
	case "B-1":
		return k.block - 1
	case "B":
		return k.block
	case "B+1":
		return k.block + 1
	case "2B":
		return 2 * k.block
	case "R":
		return r.Rng.Intn(2*k.block + 9)
	}
	n, _ := strconv.Atoi(c)
	return n
}

type scenEv struct{ Op, C string }

// event performs one event of a scenario on object o and returns the object
// that the next event is meant for.
func (h *history) event(o int, ev scenEv) int {
	k := h.kinds[o-1]
	n := k.sizeOf(h.r, ev.C)
	switch ev.Op {
	case "Write":
		h.write(o, h.r.Bytes(n))
	case "Sum":
		h.sum(o, h.r.Bytes(n%50))
	case "Read":
		h.read(o, n)
	case "Reset":
		h.reset(o)
	case "Clone":
		return h.clone(o)
	}
	return o
}

func genStream(r *Rec) {
	hs, xs := streamKinds(r)
	var scen []struct {
		Type string
		Ev   []scenEv
	}
	f, err := os.Open(os.Getenv("SCENARIOS"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		var s struct {
			Type string
			Ev   []scenEv
		}
		if json.Unmarshal(sc.Bytes(), &s) == nil {
			scen = append(scen, s)
		}
	}
	f.Close()
	finish := func(h *history) {
		for o := range h.objs {
			if h.kinds[o].rec["alg"] == "SHAKE" {
				h.read(o+1, 11)
			} else {
				h.sum(o+1, nil)
			}
		}
		h.end()
	}
	// every scenario, on a kind of object that changes from scenario to scenario
	for i, s := range scen {
		if r.Skip(i) {
			continue
		}
		ks := hs
		if s.Type == "xof" {
			ks = xs
		}
		h := &history{r: r}
		o := h.create(ks[(i/r.Parts+r.Part*7+i/64)%len(ks)])
		for _, ev := range s.Ev {
			o = h.event(o, ev)
		}
		finish(h)
	}
	// two scenarios interleaved on two objects, often of one kind
	for i := 0; i < r.Scale(40, 400); i++ {
		a, b := scen[r.Rng.Intn(len(scen))], scen[r.Rng.Intn(len(scen))]
		pick := func(t string) streamKind {
			if t == "xof" {
				return xs[r.Rng.Intn(len(xs))]
			}
			return hs[r.Rng.Intn(len(hs))]
		}
		h := &history{r: r}
		ka := pick(a.Type)
		kb := pick(b.Type)
		if a.Type == b.Type && i%2 == 0 {
			kb = ka
		}
		oa, ob := h.create(ka), h.create(kb)
		for j := range a.Ev {
			oa = h.event(oa, a.Ev[j])
			if j < len(b.Ev) {
				ob = h.event(ob, b.Ev[j])
			}
		}
		finish(h)
	}
	// byte by byte, with a sum after every byte
	for i, k := range hs {
		if r.Skip(i) {
			continue
		}
		h := &history{r: r}
		o := h.create(k)
		h.sizes(o)
		lim := k.block + 20
		if r.Thorough() {
			lim = 2*k.block + 20
		}
		for n := 0; n <= lim; n++ {
			h.sum(o, nil)
			h.write(o, r.Bytes(1))
		}
		h.sum(o, []byte("prefix"))
		h.reset(o)
		h.sizes(o)
		h.sum(o, nil)
		h.end()
		// the same lengths in one write to a fresh object
		for n := 0; n <= lim; n += r.Scale(5, 1) {
			h := &history{r: r}
			o := h.create(k)
			h.write(o, r.Bytes(n))
			h.sum(o, nil)
			h.end()
		}
	}
	// random cuts of longer messages
	for i := 0; i < r.Scale(20, 300); i++ {
		k := hs[r.Rng.Intn(len(hs))]
		h := &history{r: r}
		o := h.create(k)
		for j := 0; j < 3+r.Rng.Intn(9); j++ {
			h.write(o, r.Bytes(r.Rng.Intn(3*k.block)))
			if r.Rng.Intn(4) == 0 {
				h.sum(o, r.Bytes(r.Rng.Intn(5)))
			}
		}
		h.sum(o, nil)
		h.end()
	}
	// one long message
	for i, k := range hs {
		if r.Skip(i) || !r.Thorough() && i%7 != 0 {
			continue
		}
		h := &history{r: r}
		o := h.create(k)
		for _, n := range []int{1, 4095, 4096, 1 << 13} {
			h.write(o, r.Bytes(n))
		}
		h.sum(o, nil)
		h.end()
	}
	// messages longer than a counter of 32 bits holds: the bits of SM3 and BLAKE, the
	// bytes of BLAKE2s
	giant := func(k streamKind, n int, tail ...int) {
		h := &history{r: r}
		o := h.create(k)
		h.zeros(o, n)
		for _, t := range tail {
			h.write(o, r.Bytes(t))
			h.sum(o, nil)
		}
		h.reset(o)
		h.write(o, r.Bytes(70))
		h.sum(o, nil)
		h.end()
	}
	for i, k := range []int{6, 7, 11, 8, 15, 19, 25} {
		if i%r.Parts != r.Part || !r.Thorough() && (i == 3 || i > 4) || hs[k].rec["alg"] == "BLAKE2S" && (strconv.IntSize == 32 || len(hs[k].rec["key"].([]byte)) > 0) {
			continue
		}
		n := 1 << 23
		if hs[k].rec["alg"] == "BLAKE2S" {
			n = 1 << 26
		}
		giant(hs[k], n-2, 1, 62, 1, 1, 54, 1, 7, 1, 1, 54, 1, 1, 7, 1, 200)
	}
	// extendable output: many small reads against one large one
	for i, k := range xs {
		if r.Skip(i) {
			continue
		}
		for _, n := range []int{0, 1, k.block - 1, k.block, k.block + 1, 333} {
			h := &history{r: r}
			o := h.create(k)
			h.write(o, r.Bytes(n))
			c := h.clone(o)
			h.read(c, 3*k.block+5)
			for t := 0; t < 2*k.block; {
				m := r.Rng.Intn(70)
				h.read(o, m)
				t += m
				if r.Rng.Intn(8) == 0 {
					o = h.clone(o)
				}
			}
			h.reset(c)
			h.write(c, []byte("again"))
			finish(h)
		}
	}
	one := func(kind M, p []byte, n int, f func(p []byte) []byte) {
		r.N++
		m := M{"op": "OneShot", "kind": kind, "p": p, "n": n, "st": "OK"}
		func() {
			defer func() {
				if e := recover(); e != nil {
					m["st"] = "PANIC"
				}
			}()
			m["out"] = f(mess(p))
		}()
		r.Write(m)
	}
	for i := 0; i < r.Scale(180, 360); i++ {
		if r.Skip(i) {
			continue
		}
		p := r.Bytes(i)
		switch {
		case i/r.Parts%8 == 0:
			one(M{"alg": "SHA3", "size": 28}, p, 0, func(p []byte) []byte { d := sha3.Sum224(p); return d[:] })
		case i/r.Parts%8 == 1:
			one(M{"alg": "SHA3", "size": 32}, p, 0, func(p []byte) []byte { d := sha3.Sum256(p); return d[:] })
		case i/r.Parts%8 == 2:
			one(M{"alg": "SHA3", "size": 48}, p, 0, func(p []byte) []byte { d := sha3.Sum384(p); return d[:] })
		case i/r.Parts%8 == 3:
			one(M{"alg": "SHA3", "size": 64}, p, 0, func(p []byte) []byte { d := sha3.Sum512(p); return d[:] })
		case i/r.Parts%8 == 4:
			one(M{"alg": "SHAKE", "size": 16}, p, 2*i, func(p []byte) []byte { d := make([]byte, 2*i); sha3.ShakeSum128(d, p); return d })
		case i/r.Parts%8 == 5:
			one(M{"alg": "SHAKE", "size": 32}, p, 2*i, func(p []byte) []byte { d := make([]byte, 2*i); sha3.ShakeSum256(d, p); return d })
		case i/r.Parts%8 == 6:
			one(M{"alg": "SM3", "size": 32}, p, 0, sm3pkg.Sm3Sum)
		default:
			one(b2rec(&blake2s.Config{Size: 32}), p, 0, func(p []byte) []byte { d := blake2s.Sum256(p); return d[:] })
		}
	}
	// configurations BLAKE2s does not have
	if r.Part == 0 {
		for _, c := range []blake2s.Config{
			{Size: 33}, {Size: 255}, {Size: 32, Key: r.Bytes(33)}, {Size: 32, Salt: r.Bytes(9)}, {Size: 32, Person: r.Bytes(9)},
			{Size: 32, Tree: &blake2s.Tree{InnerHashSize: 33}}, {Size: 32, Tree: &blake2s.Tree{NodeOffset: 1 << 48}},
		} {
			k := b2(c)
			r.N++
			if k.mk() == nil {
				r.Write(M{"op": "Refused", "kind": k.rec})
			} else {
				h := &history{r: r}
				h.create(k)
				h.end()
			}
		}
	}
}
