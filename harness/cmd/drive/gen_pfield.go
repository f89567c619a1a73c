package main

import (
	"bufio"
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"strconv"
	"strings"

	. "aa/core"

	"github.com/blocktree/go-owcrypt/pasta"
)

func init() { gens["C31"] = genPField }

type pfev struct {
	Op         string
	D, A, B, N int
	X          string
}
type pfprog struct {
	F    string
	Init []string
	Ev   []pfev
}

// pastaMachine is the real code over package pasta's numbers or sponges.
type pastaMachine interface {
	load(i int, s []byte)
	see(i int) []byte
	do(e pfev, x []byte) (ok bool, out string)
}

// Field elements.
type mFp struct{ r [4]pasta.Field }

func (m *mFp) load(i int, s []byte) { m.r[i].Set(pasta.BigEndianBytesToFpMontgomeryArray(s)) }
func (m *mFp) see(i int) []byte     { return pasta.FpMontgomeryArrayToBigEndianBytes(m.r[i].ToU64Array()) }
func (m *mFp) do(e pfev, x []byte) (bool, string) {
	r := &m.r
	switch e.Op {
	case "add":
		pasta.FieldAdd(&r[e.D], r[e.A], r[e.B])
	case "sub":
		pasta.FieldSub(&r[e.D], r[e.A], r[e.B])
	case "mul":
		pasta.FieldMul(&r[e.D], r[e.A], r[e.B])
	case "sq":
		pasta.FieldSq(&r[e.D], r[e.A])
	case "neg":
		pasta.FieldNegate(&r[e.D], r[e.A])
	case "inv":
		pasta.FieldInv(&r[e.D], r[e.A])
	case "pow":
		pasta.FieldPow(&r[e.D], r[e.A], uint8(e.N))
	case "copy":
		pasta.FieldCopy(&r[e.D], r[e.A])
	case "text":
		return pasta.FieldFromHex(&r[e.D], string(x)), ""
	case "bytes":
		r[e.D].Set(pasta.BigEndianBytesToFpMontgomeryArray(x))
	case "eq":
		return true, tf(pasta.FieldEq(r[e.A], r[e.B]) == 1)
	case "odd":
		return true, tf(pasta.FieldIsOdd(r[e.A]))
	case "show":
		return true, hex.EncodeToString(pasta.FpMontgomeryArrayToBigEndianBytes(r[e.A]))
	default:
		panic("harness: " + e.Op)
	}
	return true, ""
}

// Scalars.
type mFq struct{ r [4]pasta.Scalar }

func (m *mFq) load(i int, s []byte) { m.r[i].Set(pasta.BigEndianBytesToFqMontgomeryArray(s)) }
func (m *mFq) see(i int) []byte     { return pasta.FqMontgomeryArrayToBigEndianBytes(m.r[i].ToU64Array()) }
func (m *mFq) do(e pfev, x []byte) (bool, string) {
	r := &m.r
	switch e.Op {
	case "add":
		pasta.ScalarAdd(&r[e.D], r[e.A], r[e.B])
	case "sub":
		pasta.ScalarSub(&r[e.D], r[e.A], r[e.B])
	case "mul":
		pasta.ScalarMul(&r[e.D], r[e.A], r[e.B])
	case "sq":
		pasta.ScalarSq(&r[e.D], r[e.A])
	case "neg":
		pasta.ScalarNegate(&r[e.D], r[e.A])
	case "copy":
		pasta.ScalarCopy(&r[e.D], r[e.A])
	case "text":
		return pasta.ScalarFromHex(&r[e.D], string(x)), ""
	case "words":
		var b [32]byte
		copy(b[:], x)
		pasta.ScalarFromWords(&r[e.D], pasta.BytesArrayToU64Array(b))
	case "bytes":
		r[e.D].Set(pasta.BigEndianBytesToFqMontgomeryArray(x))
	case "eq":
		return true, tf(pasta.ScalarEq(r[e.A], r[e.B]))
	case "show":
		return true, hex.EncodeToString(pasta.FqMontgomeryArrayToBigEndianBytes(r[e.A]))
	default:
		panic("harness: " + e.Op)
	}
	return true, ""
}

// Sponges.
type mSp struct{ r [4]pasta.PoseidonCtx }

func fieldsOf(x []byte) (l []pasta.Field) {
	for ; len(x) >= 32; x = x[32:] {
		l = append(l, pasta.Field(pasta.BigEndianBytesToFpMontgomeryArray(x[:32])))
	}
	return
}
func (m *mSp) load(i int, s []byte) {
	switch string(s) {
	case "new":
		m.r[i] = pasta.NewPoseidonCtx3W()
	case "main":
		m.r[i] = pasta.Poseidon3WInit(pasta.MainnetIV3W[:])
	case "test":
		m.r[i] = pasta.Poseidon3WInit(pasta.TestnetIV3W[:])
	default:
		m.r[i] = pasta.Poseidon3WInit(fieldsOf(s))
	}
}
func (m *mSp) see(i int) []byte {
	var s []byte
	for k := 0; k < 3; k++ {
		s = Cat(s, pasta.FpMontgomeryArrayToBigEndianBytes(m.r[i].State[k]))
	}
	return append(s, byte(m.r[i].Absorbed))
}
func (m *mSp) do(e pfev, x []byte) (bool, string) {
	r := &m.r
	xs := fieldsOf(x)
	spoil := func() { // the caller's slice is the caller's
		for i := range xs {
			xs[i] = pasta.FieldThree
		}
	}
	switch e.Op {
	case "new", "main", "test":
		m.load(e.D, []byte(e.Op))
	case "init":
		r[e.D] = pasta.Poseidon3WInit(xs)
		spoil()
	case "copy":
		r[e.D] = r[e.A]
	case "absorb":
		pasta.PoseidonUpdate(&r[e.D], xs)
		spoil()
	case "digest":
		return true, hex.EncodeToString(pasta.PoseidonDigest(&r[e.D]))
	case "permute":
		if e.A == 0 {
			r[e.D].PerMutation(&r[e.D])
		} else {
			pasta.PerMutation3W(&r[e.D])
		}
	case "mds":
		pasta.MatrixMul(&r[e.D].State, pasta.MdsMatrix3W, 3)
	case "message", "json":
		mm := pasta.MinaMessage{}
		copy(mm.SpongeIV[:], xs[:3])
		if e.Op == "json" {
			mm.TransactionPrefix, mm.TransactionSuffix = xs[3:3+(len(xs)-3)/2], xs[3+(len(xs)-3)/2:]
			m2, err := pasta.NewMinaMessage(mm.ToBytes())
			if err != nil {
				return true, err.Error()
			}
			var s []byte
			for _, l := range [][]pasta.Field{m2.SpongeIV[:], m2.TransactionPrefix, m2.TransactionSuffix} {
				for _, f := range l {
					s = Cat(s, pasta.FpMontgomeryArrayToBigEndianBytes(f))
				}
			}
			return true, hex.EncodeToString(s)
		}
		n := 3 + e.A
		mm.TransactionPrefix, mm.TransactionSuffix = xs[3:n], xs[n+3:]
		return true, hex.EncodeToString(pasta.MessageHash(x[32*n:32*n+64], xs[n+2], mm))
	default:
		panic("harness: " + e.Op)
	}
	return true, ""
}

// pfNumber is a number below n of a class; those with an m are such that the
// Montgomery form has that shape.
func pfNumber(r *Rec, n *big.Int, c string) *big.Int {
	two := func(e uint) *big.Int { return new(big.Int).Lsh(bi(1), e) }
	mod := func(x *big.Int) *big.Int { return new(big.Int).Mod(x, n) }
	if strings.HasPrefix(c, "m") {
		var x *big.Int
		switch c[1:] {
		case "low":
			x = two(uint(r.Rng.Intn(64)))
		case "high":
			x = two(uint(192 + r.Rng.Intn(62)))
		case "ones":
			x = sub(two(uint(64*(1+r.Rng.Intn(3)))), bi(1))
		default:
			x = pfNumber(r, n, c[1:])
		}
		return mod(new(big.Int).Mul(x, new(big.Int).ModInverse(two(256), n)))
	}
	switch c {
	case "0":
		return bi(0)
	case "1":
		return bi(1)
	case "2":
		return bi(2)
	case "p-1":
		return sub(n, bi(1))
	case "p-2":
		return sub(n, bi(2))
	case "half":
		return new(big.Int).Rsh(n, 1)
	case "half+1":
		return plus(new(big.Int).Rsh(n, 1), bi(1))
	case "low":
		return two(uint(r.Rng.Intn(128)))
	case "high":
		return two(uint(128 + r.Rng.Intn(126)))
	case "rnd":
		return mod(new(big.Int).SetBytes(r.Bytes(40)))
	}
	panic("number " + c)
}

// pfText is a text of a class, or 32 bytes for the operations that take bytes.
func pfText(r *Rec, n *big.Int, op, c string) []byte {
	ones := func(k uint) *big.Int { return sub(new(big.Int).Lsh(bi(1), k), bi(1)) }
	v := map[string]*big.Int{"0": bi(0), "1": bi(1), "p-1": sub(n, bi(1)), "p": n, "p+1": plus(n, bi(1)),
		"254bits": ones(254), "255bits": ones(255), "256bits": ones(256)}[c]
	if strings.HasPrefix(c, "near") { // next to the modulus, digit by digit
		ks := around(n)
		i, _ := strconv.Atoi(c[4:])
		v = ks[i*len(ks)/64]
	}
	if v == nil {
		v = pfNumber(r, n, "rnd")
	}
	le := le32(v)
	switch op {
	case "bytes":
		return b32(v)
	case "words":
		return le
	}
	s := hex.EncodeToString(le)
	switch c {
	case "upper":
		s = strings.ToUpper(s)
	case "mixed":
		s = strings.ToUpper(s[:31]) + s[31:]
	case "0x":
		s = "0x" + s[2:]
	case "31":
		s = s[2:]
	case "33":
		s += "00"
	case "odd":
		s = s[:63]
	case "empty":
		s = ""
	case "letter":
		s = s[:20] + "g" + s[21:]
	case "spaces":
		s = s[:20] + "  " + s[22:]
	}
	return []byte(s)
}

func genPField(r *Rec) {
	fd, err := os.Open(os.Getenv("SCENARIOS"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	defer fd.Close()
	sc := bufio.NewScanner(fd)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for i := 0; sc.Scan(); i++ {
		if r.Skip(i) {
			continue
		}
		var p pfprog
		if err := json.Unmarshal(sc.Bytes(), &p); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		r.Write(runPField(r, p))
		r.N++
	}
}

func runPField(r *Rec, p pfprog) M {
	n := curves["PASTA"].p
	var m pastaMachine
	switch p.F {
	case "fp":
		m = &mFp{}
	case "fq":
		m, n = &mFq{}, curves["PASTA"].n
	case "sp":
		m = &mSp{}
	}
	try := func(f func()) (st string) {
		defer func() {
			if x := recover(); x != nil {
				st = fmt.Sprint("PANIC ", x)
			}
		}()
		f()
		return "OK"
	}
	list := func(k int, c string) (s []byte) {
		for i := 0; i < k; i++ {
			s = Cat(s, b32(pfNumber(r, n, c)))
		}
		return
	}
	start := []string{}
	for i, c := range p.Init {
		s := []byte(c)
		var want []byte
		switch {
		case p.F != "sp":
			s = b32(pfNumber(r, n, c))
			want = s
		case c == "rnd":
			s = list(3, "rnd")
			want = Cat(s, []byte{0})
		}
		if st := try(func() { m.load(i+1, s) }); st != "OK" {
			panic(st)
		}
		if want == nil {
			want = m.see(i + 1)
		}
		start = append(start, hex.EncodeToString(want))
	}
	evs := []M{}
	for _, e := range p.Ev {
		var x []byte
		switch {
		case p.F != "sp":
			if e.Op == "text" || e.Op == "bytes" || e.Op == "words" {
				x = pfText(r, n, e.Op, e.X)
			}
		case e.Op == "absorb" || e.Op == "init":
			x = list(e.N, e.X)
		case e.Op == "json":
			x = list(e.N+3, e.X)
		case e.Op == "message":
			C := curves["PASTA"]
			P := C.mulG(plus(bi(1), new(big.Int).SetBytes(r.Bytes(8))))
			x = Cat(list(3+e.A, e.X), xy(P), list(1+e.N, e.X))
		}
		o := M{"op": e.Op, "d": e.D, "a": e.A, "b": e.B, "n": e.N, "x": hex.EncodeToString(x)}
		x0 := append([]byte{}, x...)
		var ok bool
		var out string
		st := try(func() { ok, out = m.do(e, x) })
		if st == "OK" && !bytes.Equal(x0, x) {
			st = "MUTATED"
		}
		after := make([]string, len(start))
		for i := range start {
			if s := try(func() { after[i] = hex.EncodeToString(m.see(i + 1)) }); s != "OK" && st == "OK" {
				st = s
			}
		}
		o["ok"], o["out"], o["st"], o["after"] = ok, out, st, after
		evs = append(evs, o)
		if st != "OK" {
			break
		}
	}
	return M{"op": "PField", "f": p.F, "start": start, "ev": evs}
}
