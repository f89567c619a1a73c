package main

import (
	"bufio"
	"bytes"
	"encoding/hex"
	"encoding/json"
	"os"
	"sort"

	. "aa/core"
)

func init() { gens["C23"] = genMemory }

// heap is the memory of a caller: buffers, and what it has put into them.
type heap struct {
	r    *Rec
	bufs [][]byte
	want [][]byte
	last int // first buffer that the last call made
	ev   []M
}

func (h *heap) add(b []byte) int {
	h.bufs = append(h.bufs, b)
	h.want = append(h.want, append([]byte{}, b...))
	return len(h.bufs)
}

func (h *heap) alloc(b []byte) int {
	h.ev = append(h.ev, M{"do": "Alloc", "hex": append([]byte{}, b...)})
	return h.add(append(make([]byte, 0, len(b)), b...))
}

func (h *heap) poke(i int, f func(b []byte)) {
	f(h.bufs[i-1])
	h.want[i-1] = append([]byte{}, h.bufs[i-1]...)
	h.ev = append(h.ev, M{"do": "Poke", "buf": i, "hex": h.want[i-1]})
}

type view struct{ buf, off, n int }

func (h *heap) slice(v view) []byte { return h.bufs[v.buf-1][v.off : v.off+v.n] }

// place puts arguments into the memory.
func (h *heap) place(args []Slice, layout string) map[string]view {
	vs := map[string]view{}
	junk := func(n int) []byte {
		b := h.r.Bytes(n)
		for i := range b {
			b[i] |= 1
		}
		return b
	}
	switch layout {
	case "packed", "reversed":
		l := append([]Slice{}, args...)
		if layout == "reversed" {
			for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
				l[i], l[j] = l[j], l[i]
			}
		}
		mem := junk(3)
		for _, a := range l {
			if a.B != nil {
				vs[a.K] = view{0, len(mem), len(a.B)}
				mem = append(mem, a.B...)
			}
		}
		id := h.alloc(append(mem, junk(70)...))
		for k, v := range vs {
			v.buf = id
			vs[k] = v
		}
	default:
	next:
		for _, a := range args {
			if a.B == nil {
				continue
			}
			if layout == "reuse" {
				for i, b := range h.bufs {
					if at := bytes.Index(b, a.B); at >= 0 {
						vs[a.K] = view{i + 1, at, len(a.B)}
						continue next
					}
				}
			}
			mem := append([]byte{}, a.B...)
			if layout == "spare" {
				mem = append(mem, junk(130)...)
			}
			vs[a.K] = view{h.alloc(mem), 0, len(a.B)}
		}
	}
	return vs
}

func (h *heap) call(op string, in M, layout string) {
	ss, ev := h.prepare(op, in, layout)
	h.note(ev, h.r.Bare(op, in, ss))
}

// prepare puts the arguments of a call into the memory.
func (h *heap) prepare(op string, in M, layout string) (map[string][]byte, M) {
	args := Slices(in)
	vs := h.place(args, layout)
	ss := map[string][]byte{}
	where := M{}
	for _, a := range args {
		where[a.K] = []int{}
		if v, ok := vs[a.K]; ok {
			ss[a.K] = h.slice(v)
			where[a.K] = []int{v.buf, v.off, v.n}
		}
	}
	ev := M{"do": "Call", "op": op, "alg": GetS(in, "alg") + GetS(in, "name"), "args": where, "num": in["keylen"]}
	if n, ok := in["len"]; ok {
		ev["num"] = n
	}
	if ev["num"] == nil {
		ev["num"] = 0
	}
	return ss, ev
}

// note records what a call did.
func (h *heap) note(call M, out M) {
	ev := merge(call)
	changed := []int{}
	for i := range h.bufs {
		if !bytes.Equal(h.bufs[i], h.want[i]) {
			changed = append(changed, i+1)
			h.want[i] = append([]byte{}, h.bufs[i]...)
		}
	}
	h.last = len(h.bufs)
	at, rets, fresh := []int{}, []string{}, []string{}
	for _, o := range Slices(out) {
		if o.B == nil {
			rets = append(rets, "nil")
			continue
		}
		rets = append(rets, hex.EncodeToString(o.B))
		full := o.B[:cap(o.B)]
		id := 0
		for i, b := range h.bufs {
			if Overlap(full, b) {
				id = i + 1
			}
		}
		if id == 0 {
			id = h.add(full)
			fresh = append(fresh, hex.EncodeToString(full))
		}
		at = append(at, id)
	}
	val := []int{}
	for _, k := range []string{"v", "inf"} {
		if x, ok := out[k].(int); ok {
			val = append(val, x)
		}
	}
	ev["changed"], ev["rets"], ev["at"], ev["new"], ev["val"], ev["st"] = changed, rets, at, fresh, val, out["st"]
	h.ev = append(h.ev, ev)
}

func (h *heap) end() { h.r.Write(M{"op": "Memory", "ev": h.ev}) }

type memStep struct {
	Op, Alg, Layout string
	Bad             [][]string
}

func genMemory(r *Rec) {
	g := newGoods(r)
	do := func(h *heap, s memStep) {
		if s.Op != "overwrite" {
			h.call(s.Op, g.args(shapeCall{s.Op, s.Alg, s.Bad}), s.Layout)
			return
		}
		first := 0
		if s.Alg == "results" {
			first = h.last
		}
		for i := first; i < len(h.bufs); i++ {
			h.poke(i+1, func(b []byte) {
				for j := range b {
					b[j] ^= 0xA5
				}
			})
		}
	}
	f, err := os.Open(os.Getenv("SCENARIOS"))
	if err != nil {
		panic(err)
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	calls := map[string]memStep{}
	for i := 0; sc.Scan(); i++ {
		var str string
		var s struct{ Steps []memStep }
		if json.Unmarshal(sc.Bytes(), &str) != nil || json.Unmarshal([]byte(str), &s) != nil {
			panic(sc.Text())
		}
		if s.Steps[0].Bad == nil || len(s.Steps[0].Bad) == 0 {
			calls[s.Steps[0].Op+s.Steps[0].Alg] = s.Steps[0]
		}
		if r.Skip(i) {
			continue
		}
		h := &heap{r: r}
		for _, st := range s.Steps {
			do(h, st)
		}
		h.end()
	}
	// longer histories
	var names []string
	for k := range calls {
		names = append(names, k)
	}
	sort.Strings(names)
	layouts := []string{"tight", "spare", "packed", "reversed", "reuse", "reuse"}
	for i := 0; i < r.Scale(10, 100); i++ {
		h := &heap{r: r}
		var some []string
		for j := 0; j < 5; j++ {
			some = append(some, names[r.Rng.Intn(len(names))])
		}
		for j := 0; j < 25; j++ {
			if r.Rng.Intn(5) == 0 {
				do(h, memStep{Op: "overwrite", Alg: "results"})
				continue
			}
			s := calls[some[r.Rng.Intn(len(some))]]
			s.Layout = layouts[r.Rng.Intn(len(layouts))]
			do(h, s)
		}
		h.end()
	}
}
