package main

import (
	"bytes"
	"fmt"
	"hash"
	"math/big"
	"unsafe"

	. "aa/core"

	"github.com/blocktree/go-owcrypt/blake256"
	"github.com/blocktree/go-owcrypt/blake2s"
	"github.com/blocktree/go-owcrypt/blake512"
	"github.com/blocktree/go-owcrypt/bls12_381"
	"github.com/blocktree/go-owcrypt/bls12_381/bls"
	"github.com/blocktree/go-owcrypt/eddsa"
	"github.com/blocktree/go-owcrypt/pasta"
	"github.com/blocktree/go-owcrypt/sha3"
	sm3pkg "github.com/blocktree/go-owcrypt/sm3"
	"github.com/drand/kyber"
)

// fieldsIn looks at memory as a slice of numbers, with the room behind it.
func fieldsIn(b []byte) (l []pasta.Field) {
	n := len(b) / 32
	b = b[:cap(b)]
	if len(b) < 32 {
		return nil
	}
	type slice struct {
		p        unsafe.Pointer
		len, cap int
	}
	*(*slice)(unsafe.Pointer(&l)) = slice{unsafe.Pointer(&b[0]), n, len(b) / 32}
	return l
}

// Functions of the packages below, on the caller's memory.
func init() {
	give := func(o M, outs ...[]byte) {
		for i, b := range outs {
			o[fmt.Sprintf("o%d", i)] = b
		}
		o["st"] = "RETURNED"
	}
	refused := func(o M, err error) bool {
		if err != nil {
			o["st"] = "REFUSED"
		}
		return err != nil
	}
	Ops["PartMinaHash"] = func(a *Args, o M) {
		mm := pasta.MinaMessage{TransactionPrefix: fieldsIn(a.B("pre")), TransactionSuffix: fieldsIn(a.B("suf"))}
		var x [4]uint64
		x[0] = uint64(len(a.B("r")))
		give(o, pasta.MessageHash(a.B("pub"), x, mm))
	}
	Ops["PartPoseidon"] = func(a *Args, o M) {
		ctx := pasta.Poseidon3WInit(fieldsIn(a.B("iv")))
		pasta.PoseidonUpdate(&ctx, fieldsIn(a.B("xs")))
		x := ctx
		give(o, pasta.PoseidonDigest(&ctx), pasta.PoseidonDigest(&x))
	}
	Ops["PartMinaMessage"] = func(a *Args, o M) {
		m, err := pasta.NewMinaMessage(a.B("json"))
		if !refused(o, err) {
			give(o, m.ToBytes(), m.ToBytes())
		}
	}
	Ops["PartAffine"] = func(a *Args, o M) {
		var p pasta.Affine
		if !refused(o, p.FromBigEndianBytes(a.B("p"))) {
			var c pasta.Compressed
			pasta.Compress(&c, p)
			give(o, p.ToBigEndianBytes(), p.X.ToBigEndianBytes(), c.ToBigEndianBytes(), c.ToBigEndianBytes())
		}
	}
	Ops["PartNumber"] = func(a *Args, o M) {
		p, q := pasta.BigEndianBytesToFpMontgomeryArray(a.B("x")), pasta.BigEndianBytesToFqMontgomeryArray(a.B("x"))
		give(o, pasta.FpMontgomeryArrayToBigEndianBytes(p), pasta.FqMontgomeryArrayToBigEndianBytes(q))
	}
	Ops["PartG1"] = func(a *Args, o M) {
		g := bls.NewG1()
		p, err := g.FromBytes(a.B("p"))
		if a.S("alg") == "uncompressed" {
			p, err = g.FromUncompressed(a.B("p"))
		} else if a.S("alg") == "compressed" {
			p, err = g.FromCompressed(a.B("p"))
		}
		if !refused(o, err) {
			give(o, g.ToBytes(p), g.ToCompressed(p), g.ToUncompressed(p), g.ToCompressed(p))
		}
	}
	Ops["PartG2"] = func(a *Args, o M) {
		g := bls.NewG2(nil)
		p, err := g.FromBytes(a.B("p"))
		if a.S("alg") == "uncompressed" {
			p, err = g.FromUncompressed(a.B("p"))
		} else if a.S("alg") == "compressed" {
			p, err = g.FromCompressed(a.B("p"))
		}
		if !refused(o, err) {
			give(o, g.ToBytes(p), g.ToCompressed(p), g.ToUncompressed(p), g.ToCompressed(p))
		}
	}
	Ops["PartGT"] = func(a *Args, o M) {
		g := bls.NewGT()
		p, err := g.FromBytes(a.B("p"))
		if !refused(o, err) {
			give(o, g.ToBytes(p), g.ToBytes(p))
		}
	}
	Ops["PartHash"] = func(a *Args, o M) {
		g, h := bls.NewG1(), bls.NewG2(nil)
		switch a.S("alg") {
		case "G1":
			p, err := g.HashToCurve(a.B("msg"), a.B("dom"))
			if !refused(o, err) {
				give(o, g.ToCompressed(p))
			}
		case "E1":
			p, err := g.EncodeToPoint(a.B("msg"), a.B("dom"))
			if !refused(o, err) {
				give(o, g.ToCompressed(p))
			}
		case "G2":
			p, err := h.HashToCurve(a.B("msg"), a.B("dom"))
			if !refused(o, err) {
				give(o, h.ToCompressed(p))
			}
		case "E2":
			p, err := h.EncodeToCurve(a.B("msg"), a.B("dom"))
			if !refused(o, err) {
				give(o, h.ToCompressed(p))
			}
		}
	}
	Ops["PartMap"] = func(a *Args, o M) {
		g := bls.NewG1()
		p, err := g.MapToCurve(a.B("u"))
		if !refused(o, err) {
			give(o, g.ToCompressed(p))
		}
	}
	Ops["PartMultiExp"] = func(a *Args, o M) {
		g := bls.NewG1()
		names := []string{"k1", "k2", "k3"}
		var ks, was []*big.Int
		var ps, before []*bls.PointG1
		for i, n := range names {
			k := new(big.Int).SetBytes(a.B(n))
			ks, was = append(ks, k), append(was, k)
			p := g.New()
			g.MulScalar(p, g.One(), big.NewInt(int64(i+2)))
			ps, before = append(ps, p), append(before, p)
		}
		r, err := g.MultiExp(g.New(), ps, ks)
		for i, n := range names { // what became of the numbers is written where they came from
			x := append(make([]byte, len(a.B(n))), ks[i].Bytes()...)
			y := append(make([]byte, len(a.B(n))), was[i].Bytes()...)
			z := append(make([]byte, len(a.B(n))), new(big.Int).SetBytes(a.B(n)).Bytes()...)
			if !bytes.Equal(x, z) || !bytes.Equal(y, z) || ps[i] != before[i] {
				for j := range a.B(n) {
					a.B(n)[j]++
				}
			}
		}
		if !refused(o, err) {
			give(o, g.ToCompressed(r))
		}
	}
	Ops["PartKyber"] = func(a *Args, o M) {
		var p kyber.Point = bls12_381.NewGroupG1().Point()
		if a.S("alg") == "G2" {
			p = bls12_381.NewGroupG2().Point()
		}
		err := p.UnmarshalBinary(a.B("p"))
		if refused(o, err) {
			return
		}
		s := bls12_381.NewScalar(a.B("k"))
		x, _ := p.MarshalBinary()
		p.Mul(s, p)
		y, _ := p.MarshalBinary()
		z, _ := s.MarshalBinary()
		give(o, x, y, z)
	}
	Ops["PartKyberHash"] = func(a *Args, o M) {
		if a.S("alg") == "G1" {
			x, _ := bls12_381.NullOwcryptG1().Hash(a.B("msg")).MarshalBinary()
			give(o, x)
		} else {
			x, _ := bls12_381.NullOwcryptG2().Hash(a.B("msg")).MarshalBinary()
			give(o, x)
		}
	}
	Ops["PartXKeygen"] = func(a *Args, o M) {
		P, s := make([]byte, 32), make([]byte, 32)
		eddsa.Keygen(P, s, a.B("k"))
		give(o, P, s)
	}
	Ops["PartXCurve"] = func(a *Args, o M) {
		Z := make([]byte, 32)
		eddsa.Curve(Z, a.B("k"), a.B("u"))
		give(o, Z)
	}
	Ops["PartXSign"] = func(a *Args, o M) {
		v := make([]byte, 32)
		eddsa.Sign(v, a.B("h"), a.B("x"), a.B("s"))
		give(o, v)
	}
	Ops["PartXVerify"] = func(a *Args, o M) {
		Y := make([]byte, 32)
		eddsa.Verify(Y, a.B("v"), a.B("h"), a.B("u"))
		give(o, Y)
	}
	Ops["PartXCanon"] = func(a *Args, o M) {
		give(o)
		o["v"] = 0
		for i, b := range []bool{eddsa.IsCanonicalSignature(a.B("v")), eddsa.IsCanonicalPublicKey(a.B("u")), eddsa.IsPoint(a.B("u"))} {
			if b {
				o["v"] = o["v"].(int) + 1<<uint(i)
			}
		}
	}
	Ops["PartStream"] = func(a *Args, o M) {
		var h hash.Hash
		switch a.S("alg") {
		case "SHA3":
			h = sha3.New256()
		case "KECCAK":
			h = sha3.NewKeccak512()
		case "SM3":
			h = sm3pkg.New()
		case "BLAKE256":
			h = blake256.NewSalt(a.B("salt"))
		case "BLAKE512":
			h = blake512.NewSalt(Cat(a.B("salt"), a.B("salt")))
		case "BLAKE2S":
			var err error
			h, err = blake2s.New(&blake2s.Config{Size: 32, Key: a.B("salt"), Salt: a.B("person"), Person: a.B("person")})
			if refused(o, err) {
				return
			}
		case "MAC":
			h = blake2s.NewMAC(20, a.B("salt"))
		}
		h.Write(a.B("data"))
		x := h.Sum(nil)
		h.Write(a.B("more"))
		y := h.Sum(nil)
		h.Reset()
		h.Write(a.B("more"))
		give(o, x, y, h.Sum(nil))
	}
	Ops["PartSums"] = func(a *Args, o M) {
		d := a.B("data")
		s1, s2, s3, s4, s5 := sha3.Sum224(d), sha3.Sum256(d), sha3.Sum384(d), sha3.Sum512(d), blake2s.Sum256(d)
		x, y := make([]byte, 40), make([]byte, 200)
		sha3.ShakeSum128(x, d)
		sha3.ShakeSum256(y, d)
		give(o, sm3pkg.Sm3Sum(d), s1[:], s2[:], s3[:], s4[:], s5[:], x, y)
	}
}

// part makes good arguments of a function above.
func part(r *Rec, op, alg string, in M) {
	switch op {
	case "PartMinaHash":
		in["pub"], in["r"], in["pre"], in["suf"] = fieldsText(r, 2), r.Bytes(1), fieldsText(r, 3), fieldsText(r, 2)
	case "PartPoseidon":
		in["iv"], in["xs"] = fieldsText(r, 3), fieldsText(r, 5)
	case "PartMinaMessage":
		in["json"] = pasta.MinaMessage{TransactionPrefix: fieldsIn(fieldsText(r, 2)), TransactionSuffix: fieldsIn(fieldsText(r, 1))}.ToBytes()
	case "PartAffine":
		p := curves["PASTA"].mulG(curves["PASTA"].rnd(r))
		in["p"] = append(b32(p.x), b32(p.y)...)
	case "PartNumber":
		in["x"] = fieldsText(r, 1)
	case "PartG1", "PartG2", "PartKyber":
		g, h := bls.NewG1(), bls.NewG2(nil)
		k := blsSk(r)
		P, Q := g.New(), h.New()
		g.MulScalar(P, g.One(), k)
		h.MulScalar(Q, h.One(), k)
		short := alg == "compressed" || op == "PartKyber"
		switch {
		case alg == "G2" || op == "PartG2":
			if in["p"] = h.ToBytes(Q); short {
				in["p"] = h.ToCompressed(Q)
			}
		case short:
			in["p"] = g.ToCompressed(P)
		default:
			in["p"] = g.ToBytes(P)
		}
		if op == "PartKyber" {
			in["k"] = b32(blsSk(r))
		}
	case "PartGT":
		in["p"] = make([]byte, 576)
		e := bls.NewEngine()
		copy(GetB(in, "p"), bls.NewGT().ToBytes(e.AddPair(bls.NewG1().One(), bls.NewG2(nil).One()).Result()))
	case "PartHash":
		in["msg"], in["dom"] = r.Bytes(20), r.Bytes(43)
	case "PartKyberHash":
		in["msg"] = r.Bytes(33)
	case "PartMap":
		in["u"] = b48(fm(new(big.Int).SetBytes(r.Bytes(48))))
	case "PartMultiExp":
		in["k1"], in["k2"], in["k3"] = r.Bytes(32), r.Bytes(31), r.Bytes(9)
	case "PartXKeygen":
		in["k"] = r.Bytes(32)
	case "PartXCurve":
		in["k"], in["u"] = r.Bytes(32), r.Bytes(32)
	case "PartXSign":
		in["h"], in["x"], in["s"] = r.Bytes(32), r.Bytes(32), le32(new(big.Int).Mod(new(big.Int).SetBytes(r.Bytes(32)), edL))
	case "PartXVerify":
		in["v"], in["h"], in["u"] = r.Bytes(32), r.Bytes(32), GetB(r.Quiet("GenPubkey", M{"alg": "X25519", "key": r.Bytes(32)}), "out")
	case "PartXCanon":
		in["v"], in["u"] = r.Bytes(32), r.Bytes(32)
	case "PartStream":
		in["data"], in["more"] = r.Bytes(70), r.Bytes(150)
		in["salt"], in["person"] = r.Bytes(16), r.Bytes(8)
	case "PartSums":
		in["data"] = r.Bytes(100)
	default:
		panic("harness: " + op)
	}
}

// fieldsText is n reduced numbers.
func fieldsText(r *Rec, n int) (b []byte) {
	for ; n > 0; n-- {
		x := r.Bytes(32)
		x[0] &= 0x3f
		x[31] &= 0x3f // reduced from either end
		b = append(b, x...)
	}
	return
}
