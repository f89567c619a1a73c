// Package core executes calls of the library and records them, one JSON object
// per call, as the trace that TLC checks against the specification.
//
// Every byte slice handed to the library is a fresh copy with canary bytes
// before it and in the spare capacity behind it.  After the call the recorder
// notes which arguments were changed ("mod") and which results share memory
// with an argument or with an earlier result ("alias"), and overwrites both
// arguments and results, so that a library that keeps a reference to either
// behaves differently afterwards.
package core

import (
	"bufio"
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strings"
	"sync/atomic"
	"time"
	"unsafe"
)

type M = map[string]interface{}

// Op performs one library call.
type Op func(a *Args, out M)

var Ops = map[string]Op{}

type buf struct {
	name   string
	mem    []byte // whole allocation
	off, n int
	want   []byte
	isNil  bool
	s      []byte
}

type Args struct {
	in   M
	bufs []*buf
	fill byte
}

const pad = 96

func (a *Args) guard(name string, b []byte, tight bool) []byte {
	if b == nil {
		return nil
	}
	spare := pad
	if tight {
		spare = 0
	}
	g := &buf{name: name, off: 32, n: len(b)}
	g.mem = make([]byte, 32+len(b)+spare)
	for i := range g.mem {
		g.mem[i] = a.fill
	}
	copy(g.mem[32:], b)
	g.want = append([]byte{}, g.mem...)
	g.s = g.mem[32 : 32+len(b) : 32+len(b)+spare]
	a.bufs = append(a.bufs, g)
	return g.s
}

// B returns the named byte argument (nil when absent).
func (a *Args) B(name string) []byte {
	for _, g := range a.bufs {
		if g.name == name {
			return g.s
		}
	}
	return nil
}

// L returns the named list of byte strings.
func (a *Args) L(name string) [][]byte {
	v, ok := a.in[name].([][]byte)
	if !ok || v == nil {
		return nil
	}
	r := make([][]byte, len(v))
	for i := range v {
		r[i] = a.B(fmt.Sprintf("%s.%d", name, i))
	}
	return r
}

func (a *Args) S(name string) string { s, _ := a.in[name].(string); return s }
func (a *Args) I(name string) int {
	switch v := a.in[name].(type) {
	case int:
		return v
	case float64:
		return int(v)
	}
	return 0
}

// Rec records calls.  A Rec belongs to one goroutine.
type Rec struct {
	f        *os.File
	w        *bufio.Writer
	cur      *os.File
	mem      *bytes.Buffer
	N        int
	Rng      *rand.Rand
	Mute     bool // perform calls without recording
	Keep     bool // keep results (do not overwrite them)
	started  atomic.Int64
	opname   atomic.Value
	recent   [][]byte
	Tier     string
	Prop     string
	Distinct map[string]bool
	NoWatch  bool
	Part     int
	Parts    int
	Seed     int64
}

func New(path string, seed int64) *Rec {
	f, err := os.Create(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	r := &Rec{f: f, w: bufio.NewWriterSize(f, 1<<20), Rng: rand.New(rand.NewSource(seed))}
	r.cur, _ = os.Create(path + ".current")
	return r
}

// Watch ends the process with a HANG record when one call takes longer than d.
func (r *Rec) Watch(d time.Duration) {
	go func() {
		for {
			time.Sleep(500 * time.Millisecond)
			s := r.started.Load()
			if s != 0 && time.Now().UnixNano()-s > int64(d) {
				os.WriteFile(r.f.Name()+".hang", []byte("hang"), 0644)
				os.Exit(9)
			}
		}
	}()
}

// Fork makes a recorder for another goroutine; Join adds what it recorded.
func (r *Rec) Fork() *Rec {
	b := new(bytes.Buffer)
	return &Rec{mem: b, w: bufio.NewWriter(b), Rng: rand.New(rand.NewSource(r.Rng.Int63())), Tier: r.Tier, Prop: r.Prop, NoWatch: true, Part: r.Part, Parts: r.Parts}
}
func (r *Rec) Join(f *Rec) {
	f.w.Flush()
	r.w.Write(f.mem.Bytes())
	r.N += f.N
}

func (r *Rec) Close() {
	r.w.Flush()
	r.f.Close()
	if r.cur != nil {
		r.cur.Close()
		os.Remove(r.f.Name() + ".current")
	}
}

func enc(v interface{}) interface{} {
	switch x := v.(type) {
	case []byte:
		if x == nil {
			return "nil"
		}
		return hex.EncodeToString(x)
	case [][]byte:
		l := make([]interface{}, len(x))
		for i := range x {
			l[i] = enc(x[i])
		}
		return l
	case []M:
		l := make([]interface{}, len(x))
		for i := range x {
			l[i] = encM(x[i])
		}
		return l
	case M:
		return encM(x)
	case nil:
		return "nil"
	}
	return v
}

func encM(m M) M {
	r := M{}
	for k, v := range m {
		r[k] = enc(v)
	}
	return r
}

func overlap(a, b []byte) bool {
	a, b = a[:cap(a)], b[:cap(b)]
	if len(a) == 0 || len(b) == 0 {
		return false
	}
	a0, b0 := uintptr(unsafe.Pointer(&a[0])), uintptr(unsafe.Pointer(&b[0]))
	return a0 < b0+uintptr(len(b)) && b0 < a0+uintptr(len(a))
}

func lists(m M) (r []struct {
	k string
	b []byte
}) {
	add := func(k string, b []byte) {
		r = append(r, struct {
			k string
			b []byte
		}{k, b})
	}
	keys := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		switch x := m[k].(type) {
		case []byte:
			add(k, x)
		case [][]byte:
			for i := range x {
				add(fmt.Sprintf("%s.%d", k, i), x[i])
			}
		}
	}
	return
}

// Call performs op on in and returns the results; extra fields in note are
// recorded as they are.
func (r *Rec) Call(op string, in M, note M) M {
	f, ok := Ops[op]
	if !ok {
		fmt.Fprintln(os.Stderr, "no such operation:", op)
		os.Exit(3)
	}
	r.N++
	if !r.Mute && !r.NoWatch {
		line, _ := json.Marshal(encM(merge(M{"op": op}, in, note)))
		r.cur.Truncate(0)
		r.cur.WriteAt(line, 0)
	}
	a := &Args{in: in, fill: byte(0xC0 + r.N%61)}
	tight := r.N%4 == 3
	for _, e := range lists(in) {
		a.guard(e.k, e.b, tight)
	}
	out := M{}
	if !r.NoWatch {
		r.started.Store(time.Now().UnixNano())
	}
	func() {
		defer func() {
			if e := recover(); e != nil {
				out["st"] = "PANIC"
				out["panic"] = fmt.Sprint(e)
			}
		}()
		f(a, out)
	}()
	if !r.NoWatch {
		r.started.Store(0)
	}
	// arguments
	mod, alias := []string{}, []string{}
	for _, g := range a.bufs {
		for i := range g.mem {
			if g.mem[i] != g.want[i] {
				mod = append(mod, g.name)
				break
			}
		}
	}
	outs := lists(out)
	for i, e := range outs {
		if e.b == nil {
			continue
		}
		for _, g := range a.bufs {
			if overlap(e.b, g.mem) {
				alias = append(alias, e.k+"~"+g.name)
			}
		}
		for _, o := range r.recent {
			if overlap(e.b, o) {
				alias = append(alias, e.k+"~earlier")
			}
		}
		for _, o := range outs[:i] {
			if o.b != nil && overlap(e.b, o.b) {
				alias = append(alias, e.k+"~"+o.k)
			}
		}
	}
	rec := M{}
	for k, v := range out {
		switch x := v.(type) {
		case []byte:
			if x != nil {
				rec[k] = append([]byte{}, x...)
			} else {
				rec[k] = x
			}
		case [][]byte:
			l := make([][]byte, len(x))
			for i := range x {
				if x[i] != nil {
					l[i] = append([]byte{}, x[i]...)
				}
			}
			rec[k] = l
		default:
			rec[k] = v
		}
	}
	// overwrite what the library might still refer to
	for _, e := range outs {
		if e.b != nil {
			full := e.b[:cap(e.b)]
			for i := range full {
				full[i] ^= 0xA5
			}
			if len(r.recent) >= 256 {
				r.recent = r.recent[1:]
			}
			if len(full) > 0 {
				r.recent = append(r.recent, full)
			}
		}
	}
	for _, g := range a.bufs {
		for i := range g.mem {
			g.mem[i] = 0x5A
		}
	}
	if !r.Mute {
		r.write(merge(M{"op": op, "mod": strings.Join(mod, ","), "alias": strings.Join(alias, ",")}, in, note, rec))
	}
	return rec
}

// Bare performs op on the given slices as they are.
func (r *Rec) Bare(op string, in M, slices map[string][]byte) M {
	a := &Args{in: in}
	for _, e := range lists(in) {
		a.bufs = append(a.bufs, &buf{name: e.k, s: slices[e.k]})
	}
	r.N++
	out := M{}
	if !r.NoWatch {
		line, _ := json.Marshal(encM(merge(M{"op": op}, in)))
		r.cur.Truncate(0)
		r.cur.WriteAt(line, 0)
		r.started.Store(time.Now().UnixNano())
	}
	func() {
		defer func() {
			if e := recover(); e != nil {
				out["st"] = "PANIC"
				out["panic"] = fmt.Sprint(e)
			}
		}()
		Ops[op](a, out)
	}()
	if !r.NoWatch {
		r.started.Store(0)
	}
	return out
}

// Encoded is m as it is recorded.
func Encoded(m M) M { return encM(m) }

// Slice is a named byte string among arguments or results.
type Slice struct {
	K string
	B []byte
}

// Slices are the byte strings of m, in the order of their names.
func Slices(m M) (l []Slice) {
	for _, e := range lists(m) {
		l = append(l, Slice{e.k, e.b})
	}
	return
}

// Overlap tells whether two slices share memory, spare capacity included.
func Overlap(a, b []byte) bool { return overlap(a, b) }

func merge(ms ...M) M {
	r := M{}
	for _, m := range ms {
		for k, v := range m {
			r[k] = v
		}
	}
	return r
}

func (r *Rec) write(m M) {
	b, err := json.Marshal(encM(m))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	r.w.Write(b)
	r.w.WriteByte('\n')
}

// Write records a composite record.
func (r *Rec) Write(m M) { r.write(m) }

// Do performs and records a call; Quiet performs it without recording.
func (r *Rec) Do(op string, in M) M { return r.Call(op, in, nil) }
func (r *Rec) Quiet(op string, in M) M {
	m := r.Mute
	r.Mute = true
	defer func() { r.Mute = m }()
	return r.Call(op, in, nil)
}

func (r *Rec) Bytes(n int) []byte {
	b := make([]byte, n)
	r.Rng.Read(b)
	return b
}

func (r *Rec) Thorough() bool { return r.Tier == "thorough" }

// Scale is q in the quick tier and t in the thorough tier.
func (r *Rec) Scale(q, t int) int {
	if r.Thorough() {
		return t
	}
	return q
}

// Skip tells whether case i belongs to another part of a divided run.
func (r *Rec) Skip(i int) bool { return r.Parts > 1 && i%r.Parts != r.Part }

func GetB(m M, k string) []byte { b, _ := m[k].([]byte); return b }
func GetS(m M, k string) string { s, _ := m[k].(string); return s }
func Ok(m M) bool               { return GetS(m, "st") == "SUCCESS" }
func Cat(bs ...[]byte) []byte {
	r := []byte{}
	for _, b := range bs {
		r = append(r, b...)
	}
	return r
}
func Hex(s string) []byte {
	b, err := hex.DecodeString(s)
	if err != nil {
		panic(err)
	}
	return b
}
