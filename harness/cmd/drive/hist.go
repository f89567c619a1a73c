package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/big"
	"os"

	. "aa/core"
)

func init() {
	gens["hist"] = genHist
	gens["C27"] = genLong
}

// world holds the components that the calls of one history are made of.  The
// name of a component is that of its dimension, followed by a value.
type world struct {
	r     *Rec
	c     map[string][]byte
	minas map[string]*mina
	memo  map[string][]byte
}

func newWorld(r *Rec) *world {
	return &world{r, map[string][]byte{}, map[string]*mina{}, map[string][]byte{}}
}

// comp is the component of dimension d for selector a.
func (w *world) comp(a, d, v string) []byte {
	if d == "len" {
		return []byte(map[bool]string{true: "20", false: "32"}[v == "oth"])
	}
	if v == "nil" {
		return nil
	}
	base, ok := w.c[d]
	if !ok {
		n := 32
		switch {
		case d == "id" || d == "id2":
			n = 1 + w.r.Rng.Intn(40)
		case d == "data":
			n = 2 + w.r.Rng.Intn(180)
		}
		base = w.r.Bytes(n)
		if n == 32 && d != "msg" { // a number below every order, read either way
			base[0], base[31] = base[0]&7, base[31]&7
		}
		w.c[d] = base
		o := w.r.Bytes(n)
		if n == 32 && d != "msg" {
			o[0], o[31] = o[0]&7, o[31]&7
		}
		w.c[d+"oth"] = o
	}
	b := append([]byte{}, base...)
	n := len(b)
	switch v {
	case "", "bad": // what is bad is how it is passed on
		return b
	case "oth":
		return w.c[d+"oth"]
	case "head": // the same beginning
		b[n-1] ^= byte(1 + n%7)
	case "tail": // the same end
		b[0] ^= byte(1 + n%7)
	case "ext":
		b = append(b, 0)
	case "neg":
		switch c := curves[a]; {
		case c != nil:
			return b32(sub(c.n, new(big.Int).SetBytes(b)))
		case a == "ED":
			return le32(sub(edL, fromLE(b)))
		case a == "BLSN" || a == "BLSA":
			return b32(sub(blsR, new(big.Int).SetBytes(b)))
		}
		b[31] ^= 1
	default:
		panic(d + v)
	}
	return b
}

func (w *world) mina(v string) *mina {
	m, ok := w.minas[v]
	if ok {
		return m
	}
	switch v {
	case "":
		m = minaOf(w.r, 2, 2)
	case "oth":
		m = minaOf(w.r, 2, 2)
	case "head":
		m = w.mina("").with(func(c *mina) { c.suf[1] = elem(w.r) })
	case "tail":
		m = w.mina("").with(func(c *mina) { c.iv[0] = elem(w.r) })
	case "ext":
		m = w.mina("").with(func(c *mina) { c.suf = append(c.suf, make([]byte, 32)) })
	}
	w.minas[v] = m
	return m
}

// derived remembers what is derived from components, so that equal calls have
// equal arguments.
func (w *world) derived(f func() []byte, name ...interface{}) []byte {
	k := fmt.Sprint(name...)
	if b, ok := w.memo[k]; ok {
		return b
	}
	b := f()
	w.memo[k] = b
	return b
}

type histCall struct {
	Op, Alg string
	With    json.RawMessage
	Mine    bool
	with    map[string]string
}

// call makes the arguments of a call, and the notes for its record.
func (w *world) call(h histCall) (in, note M) {
	r := w.r
	in = M{"alg": h.Alg}
	note = M{}
	a := h.Alg
	if _, ok := curveNames[a]; ok {
		in = M{"name": a}
		a = curveNames[a]
	}
	c := curves[a]
	text := "msg"
	if h.Op == "Hash" || h.Op == "Hmac" || h.Op == "Encryption" || h.Op == "Decryption" {
		text = "data"
	}
	val := func(d string) string { return h.with[d] }
	get := func(d string) []byte {
		if d == "msg" {
			return w.comp(a, text, val(d))
		}
		return w.comp(a, d, val(d))
	}
	num := func(d string) *big.Int { return new(big.Int).SetBytes(get(d)) }
	pubOf := func(key []byte) []byte {
		return w.derived(func() []byte {
			if c != nil {
				return xy(c.mulG(new(big.Int).SetBytes(key)))
			}
			if a == "ED" {
				return eenc(emulB(fromLE(key)))
			}
			return GetB(r.Quiet("GenPubkey", M{"alg": a, "key": key}), "out")
		}, "pub", a, key)
	}
	// the arguments made of a key: the private key, or the public one
	scalar := func(d string) []byte {
		k := get(d)
		if val(d) == "bad" {
			switch {
			case c != nil:
				k = b32(plus(c.n, new(big.Int).SetBytes(k[17:]))) // not below the order
			case a == "BLSN" || a == "BLSA":
				k = b32(plus(blsR, new(big.Int).SetBytes(k)))
			case a == "ED":
				k = le32(plus(edL, fromLE(k)))
			default:
				k = k[:31]
			}
		}
		return k
	}
	point := func(d string) []byte {
		p := append([]byte{}, pubOf(get(d))...)
		if val(d) == "bad" {
			p[len(p)-1] ^= 1
		}
		return p
	}
	id := func(v string) []byte {
		if a != "SM2" {
			return nil
		}
		return w.comp(a, "id", v)
	}
	message := func(v string) []byte {
		if a == "PASTA" {
			return w.mina(v).json()
		}
		return w.comp(a, "msg", v)
	}
	// sign signs with the components of the given values; 65 bytes, the last one v
	sign := func(key, ident, msg string) []byte {
		return w.derived(func() []byte {
			o := r.Quiet("Signature", M{"alg": a, "key": w.comp(a, "key", key), "id": id(ident), "msg": message(msg)})
			v, _ := o["v"].(int)
			return Cat(GetB(o, "out"), []byte{byte(v)})
		}, "sig", a, key, ident, msg)
	}
	signature := func(size int) []byte {
		s := []byte{}
		switch val("sig") {
		case "":
			s = sign(val("key"), val("id"), val("msg"))
			if len(s) < 64 {
				s = sign("", "", "")
			}
		case "base":
			s = sign("", "", "")
		case "oth":
			s = sign("oth", "", "oth")
		}
		if size > 0 {
			return s
		}
		return s[:len(s)-1]
	}
	switch h.Op {
	case "GenPubkey":
		in["key"] = scalar("key")
	case "Signature":
		in["key"], in["id"], in["msg"] = scalar("key"), id(val("id")), message(val("msg"))
	case "Verify":
		in["pub"], in["id"], in["msg"], in["sig"] = point("key"), id(val("id")), message(val("msg")), signature(0)
		note["sk"] = get("key")
	case "RecoverPubkey":
		// a signature of the digest itself
		h.with = map[string]string{"key": val("key"), "msg": val("msg"), "sig": val("sig"), "id": "nil"}
		if h.with["sig"] == "" && val("msg") == "ext" {
			h.with["sig"] = "base"
		}
		s := M{"": M{"key": val("key"), "msg": val("msg")}, "base": M{"key": "", "msg": ""}, "oth": M{"key": "oth", "msg": "oth"}}[h.with["sig"]].(M)
		in["sig"], in["msg"] = sign(s["key"].(string), "nil", s["msg"].(string)), message(val("msg"))
	case "AggregateSignatures":
		s := func(k []byte, m string) []byte {
			return w.derived(func() []byte {
				return GetB(r.Quiet("Signature", M{"alg": "BLSN", "key": k, "id": []byte(nil), "msg": w.comp(a, "msg", m)}), "out")
			}, "agg", k, m)
		}
		in["sigs"] = [][]byte{s(get("key"), val("msg")), s(get("key2"), "")}
	case "Encryption":
		in["pub"], in["plain"] = point("key"), get("msg")
		note["d"] = get("key")
	case "Decryption":
		ciph := func(key, msg string) []byte {
			return w.derived(func() []byte {
				k := w.comp(a, "key", key)
				c1, _ := sm2Encrypt(r, c.mulG(new(big.Int).SetBytes(k)), new(big.Int).SetBytes(w.comp(a, "eph", "")), w.comp(a, "data", msg))
				return c1
			}, "cipher", key, msg)
		}
		in["key"] = scalar("key")
		switch val("sig") {
		case "":
			in["cipher"] = ciph(val("key"), val("msg"))
		case "base":
			in["cipher"] = ciph("", "")
		case "oth":
			in["cipher"] = ciph("oth", "oth")
		}
	case "KaInit2", "KaResp1", "KaRespE1":
		n := 32
		if val("len") == "oth" {
			n = 20
		}
		resp := func(v func(d string) string, n int) M {
			g := func(d string) []byte { return w.comp(a, d, v(d)) }
			return M{"alg": a, "idA": g("id"), "idB": g("id2"), "dB": g("key2"), "pubB": pubOf(g("key2")), "pubA": pubOf(g("key")),
				"RA": pubOf(g("eph")), "keylen": n, "rnd": g("eph2")}
		}
		in = resp(val, n)
		in["dB"], in["pubB"], in["pubA"], in["RA"], in["rnd"] = scalar("key2"), pubOf(get("key2")), point("key"), point("eph"), scalar("eph2")
		note["la"], note["lr"] = get("key"), get("eph")
		if h.Op == "KaRespE1" {
			break
		}
		if h.Op == "KaResp1" {
			delete(in, "rnd")
			break
		}
		from := val
		switch val("sig") {
		case "base":
			from = func(string) string { return "" }
		case "oth":
			from = func(string) string { return "oth" }
		}
		sb := w.derived(func() []byte { return GetB(r.Quiet("KaRespE1", resp(from, 32)), "S2") }, "S2", from("key"), from("key2"), from("eph"), from("eph2"), from("id"), from("id2"))
		in = M{"alg": a, "idA": in["idA"], "idB": in["idB"], "dA": scalar("key"), "pubA": pubOf(get("key")), "pubB": point("key2"), "rA": scalar("eph"), "RA": pubOf(get("eph")),
			"RB": point("eph2"), "SB": sb, "keylen": n}
	case "KaResp2":
		in["SA"], in["SB"] = w.comp(a, "msg", ""), w.comp(a, "msg", "")
	case "Point_mulBaseG":
		in["k"] = scalar("key")
	case "Point_mulBaseG_add", "Point_mul", "Mul", "MulBaseG_Add":
		in["p"], in["k"] = point("key"), scalar("key2")
	case "Point_add", "Add":
		in["p"], in["q"] = point("key"), point("key2")
	case "PointCompress", "X_to_Ed", "Ed_to_X":
		switch h.Op {
		case "X_to_Ed":
			a = "X25519"
		case "Ed_to_X":
			a = "ED"
		}
		in["p"] = point("key")
	case "PointDecompress":
		in["p"] = comp(c.mulG(num("key")))
		if val("key") == "bad" {
			in["p"].([]byte)[0] ^= 4
		}
	case "Hash":
		in["data"], in["len"] = get("msg"), 32
		if val("len") == "oth" {
			in["len"] = 20
		}
	case "Hmac":
		in["key"], in["data"] = get("id"), get("msg")
	}
	if a == "PASTA" && (h.Op == "Signature" || h.Op == "Verify") {
		note["mina"] = w.mina(val("msg")).note()["mina"]
	}
	return
}

// reused are buffers that a caller uses again for each of its calls.
type reused map[string][]byte

func (b reused) fill(in M) map[string][]byte {
	s := map[string][]byte{}
	for _, a := range Slices(in) {
		if a.B == nil {
			continue
		}
		if cap(b[a.K]) < len(a.B) {
			b[a.K] = make([]byte, 0, len(a.B)+64)
		}
		m := b[a.K][:cap(b[a.K])]
		for i := range m {
			m[i] = 0xEE
		}
		s[a.K] = m[:copy(m, a.B)]
	}
	return s
}

func readHistories(f func(i int, cs []histCall)) {
	fd, err := os.Open(os.Getenv("SCENARIOS"))
	if err != nil {
		panic(err)
	}
	defer fd.Close()
	sc := bufio.NewScanner(fd)
	for i := 0; sc.Scan(); i++ {
		var s string
		var h struct{ Calls []histCall }
		if json.Unmarshal(sc.Bytes(), &s) != nil || json.Unmarshal([]byte(s), &h) != nil {
			panic(sc.Text())
		}
		for j := range h.Calls {
			h.Calls[j].with = map[string]string{}
			json.Unmarshal(h.Calls[j].With, &h.Calls[j].with) // [] when empty
		}
		f(i, h.Calls)
	}
}

// once records m unless it has been recorded before.
func once(r *Rec, seen map[string]bool, m M) {
	b, _ := json.Marshal(Encoded(m))
	if !seen[string(b)] {
		seen[string(b)] = true
		r.Write(m)
	}
}

// genHist makes the calls of each history with components of its own, either
// in new memory or in buffers that are used again.
func genHist(r *Rec) {
	readHistories(func(i int, cs []histCall) {
		if r.Skip(i) {
			return
		}
		for mode := 0; mode < 2; mode++ {
			if !r.Thorough() && mode != (i/r.Parts+int(r.Seed))%2 {
				continue
			}
			w := newWorld(r)
			seen := map[string]bool{}
			bufs := reused{}
			// the arguments first: what comes between the calls counts as well
			ins, notes := make([]M, len(cs)), make([]M, len(cs))
			for j, c := range cs {
				ins[j], notes[j] = w.call(c)
			}
			for j, c := range cs {
				in, note := ins[j], notes[j]
				var out M
				if mode == 0 {
					out = r.Quiet(c.Op, in)
				} else {
					out = r.Bare(c.Op, in, bufs.fill(in))
				}
				if c.Mine {
					once(r, seen, merge(M{"op": c.Op, "mod": "", "alias": ""}, in, note, out))
				}
			}
		}
	})
}

// genLong makes all histories one after the other with the same components: one
// long history, in which each call follows each other one.
func genLong(r *Rec) {
	w := newWorld(r)
	seen := map[string]bool{}
	bufs := reused{}
	type made struct{ in, note M }
	calls := map[string]made{}
	var all [][]histCall
	readHistories(func(i int, cs []histCall) {
		if !r.Skip(i) {
			all = append(all, cs)
		}
	})
	r.Rng.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	if !r.Thorough() {
		all = all[:len(all)/3]
	}
	// a copy for each call: the arguments' lists are the caller's as well
	args := func(c histCall) (M, M) {
		k := c.Op + c.Alg + string(c.With)
		m, ok := calls[k]
		if !ok {
			m.in, m.note = w.call(c)
			calls[k] = m
		}
		return m.in, m.note
	}
	for _, cs := range all {
		for _, c := range cs {
			args(c)
		}
	}
	for n, cs := range all {
		for _, c := range cs {
			in, note := args(c)
			var out M
			if n%2 == 0 {
				out = r.Quiet(c.Op, in)
			} else {
				out = r.Bare(c.Op, in, bufs.fill(in))
			}
			once(r, seen, merge(M{"op": c.Op, "mod": "", "alias": ""}, in, note, out))
		}
	}
}
