package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/big"
	"strings"

	crypto "github.com/proximax-storage/go-xpx-crypto"

	"verifmon/ref"
)

func init() {
	register(&Prop{
		ID:   "C13",
		Rule: "a case is one digest compared with an independent implementation of the standard; non-trivial when (function, input) is new; every input length in a range is visited",
		Fams: func(t *Tier) []Fam {
			return []Fam{
				{Name: "every-length", N: t.N(4400, 20000), Fn: c13length, Floor: map[string]int64{"hash": 20000}},
				{Name: "all-short", N: 257, Fn: c13short, Floor: map[string]int64{"short": 5 * 65793}},
				{Name: "contents", N: t.N(120000, 1500000), Fn: c13contents, Floor: map[string]int64{"msg:edges": 5000, "msg:hex": 2000}},
				{Name: "parts", N: t.N(60000, 600000), Fn: c13parts, Floor: map[string]int64{"parts:0": 50, "parts:empty": 1000, "parts:many": 100}},
				{Name: "long", N: t.N(64, 400), Fn: c13long},
				sizeFam(t, c13size),
				{Name: "vectors", N: 1, Fn: c13vectors},
				{Name: "history", N: t.N(60, 1500), Fn: focused([]int{12}, "history hash")},
				{Name: "repeated", N: 1, Fn: longOf(60000, 1000000, longHash)},
			}
		},
	})
	register(&Prop{
		ID:   "C15",
		Rule: "a case is one signature encoding or decoding compared with math/big and byte arithmetic; non-trivial when the input is new; accepted and refused inputs are both required",
		Fams: func(t *Tier) []Fam {
			return []Fam{
				{Name: "round-trip", N: t.N(200000, 2000000), Fn: c15round, Floor: map[string]int64{"sig:random": 1000, "sig:high-zeros": 1000, "sig:low-zeros": 500, "sig:constant": 500}},
				{Name: "lengths", N: 72 * 72, Fn: c15lengths, Floor: map[string]int64{"parts:accepted": 1, "parts:refused": 5000}},
				{Name: "bytes", N: t.N(1200, 12000), Fn: c15bytes, Floor: map[string]int64{"bytes:accepted": 5, "bytes:refused": 1000}},
				{Name: "integers", N: t.N(100000, 1000000), Fn: c15ints, Floor: map[string]int64{"ints:accepted": 5000, "ints:refused": 2000, "ints:nil": 100, "ints:negative": 500, "ints:large": 500}},
				{Name: "integer-edges", N: 700, Fn: c15edges},
			}
		},
	})
}

// ---- C13 ----

type hashFn struct {
	name string
	lib  func([]byte) ([]byte, error)
	ref  func([]byte) []byte
	size int
}

var hashes = []hashFn{
	{"SHA-256", crypto.HashesSha_256, ref.SHA256, 32},
	{"SHA3-256", crypto.HashesSha3_256, ref.SHA3_256, 32},
	{"SHA3-512", func(b []byte) ([]byte, error) { return crypto.HashesSha3_512(b) }, func(b []byte) []byte { return ref.SHA3_512(b) }, 64},
	{"Keccak-256", crypto.HashesKeccak_256, ref.Keccak256, 32},
	{"RIPEMD-160", crypto.HashesRipemd160, ref.Ripemd160, 20},
}

func (c *C) checkHash(h hashFn, in []byte) {
	got, err := h.lib(in)
	c.Eval([]byte(h.name), in)
	c.Hit("hash")
	c.Hit("hash:" + h.name)
	if want := h.ref(in); err != nil || !bytes.Equal(got, want) {
		c.Fail(h.name+" differs", "%s of %d bytes %s is %x (%v), want %x", h.name, len(in), hx(in), got, err, want)
	}
}

func c13length(c *C) {
	in := c.R.Bytes(c.Idx)
	for _, h := range hashes {
		c.checkHash(h, in)
	}
}

// c13short visits every input of up to two bytes.
func c13short(c *C) {
	if c.Idx == 256 {
		for _, h := range hashes {
			c.checkHash(h, []byte{})
			c.Hit("short")
			for v := 0; v < 256; v++ {
				c.checkHash(h, []byte{byte(v)})
				c.Hit("short")
			}
		}
		return
	}
	for v := 0; v < 256; v++ {
		for _, h := range hashes {
			c.checkHash(h, []byte{byte(c.Idx), byte(v)})
			c.Hit("short")
		}
	}
}

func c13contents(c *C) {
	g := c.guard(c.msg(c.msgLen(5000)))
	in := g.B
	if len(in) == 0 && c.R.Bool() {
		in = nil
	}
	if n := len(in); n > 0 && c.R.Intn(4) == 0 {
		// padding-like endings
		end := [][]byte{{0x80}, {0x06}, {0x01}, {0x86}, {0x81}, {0x06, 0x80}, {0x80, 0, 0, 0, 0, 0, 0, 0, 0}}[c.R.Intn(7)]
		if n >= len(end) {
			copy(in[n-len(end):], end)
			copy(g.want, g.full)
		}
	}
	h := hashes[c.R.Intn(len(hashes))]
	c.checkHash(h, in)
	g.check(c, h.name)
	c.Sample("%s of %d bytes", h.name, len(in))
}

func c13parts(c *C) {
	var parts [][]byte
	n := c.R.Intn(8)
	if c.R.Intn(8) == 0 {
		n = 8 + c.R.Intn(60)
		c.Hit("parts:many")
	}
	if c.Idx%997 == 0 { // numbers of parts at which counters wrap
		n = []int{100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1024, 1025, 4096, 65535, 65536, 65537}[c.Idx/997%17]
		c.Hit("parts:very-many")
	}
	if n == 0 {
		c.Hit("parts:0")
	}
	var all []byte
	for i := 0; i < n; i++ {
		var p []byte
		switch c.R.Intn(6) {
		case 0:
			c.Hit("parts:empty")
		case 1:
			p = []byte{}
			c.Hit("parts:empty")
		case 2:
			p = c.R.Bytes(1 + c.R.Intn(80))
		case 3:
			p = c.R.Bytes([]int{32, 64, 71, 72, 73, 144, 40}[c.R.Intn(7)])
		default:
			p = c.R.Bytes(c.R.Intn(300))
		}
		if i > 0 && c.R.Intn(5) == 0 {
			p = parts[c.R.Intn(i)] // the same slice twice
		}
		parts = append(parts, p)
		all = append(all, p...)
	}
	copies := make([][]byte, n)
	for i, p := range parts {
		copies[i] = append([]byte(nil), p...)
	}
	got, err := crypto.HashesSha3_512(parts...)
	c.Eval(append([][]byte{{byte(n)}}, parts...)...)
	if want := ref.SHA3_512(all); err != nil || !bytes.Equal(got, want) {
		lens := []int{}
		for _, p := range copies {
			lens = append(lens, len(p))
		}
		c.Fail("SHA3-512 of parts differs", "SHA3-512 of parts of lengths %v is %x (%v), want %x; concatenation %s", lens, got, err, want, hx(all))
	}
	for i := range parts {
		c.Check(bytes.Equal(parts[i], copies[i]), "argument changed", "part %d of %d was changed", i, n)
	}
}

func c13long(c *C) {
	n := 1<<uint(14+c.Idx%7) + c.R.Intn(300) - 150
	c.checkHash(hashes[c.Idx%len(hashes)], c.R.Bytes(n))
}

func c13vectors(c *C) {
	v := []struct{ in, want string }{
		{"", "e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855"},
		{"", "a7ffc6f8bf1ed76651c14756a061d662f580ff4de43b49fa82d80a4b80f8434a"},
		{"", "a69f73cca23a9ac5c8b567dc185a756e97c982164fe25859e0d1dcc1475c80a615b2123af1f5f94c11e3e9402c3ac558f500199d95b6d3e301758586281dcd26"},
		{"", "c5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470"},
		{"", "9c1185a5c5e9fc54612808977ee8f548b2258d31"},
		{"abc", "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad"},
		{"abc", "3a985da74fe225b2045c172d6bd390bd855f086e3e9d525b46bfe24511431532"},
		{"abc", "b751850b1a57168a5693cd924b6b096e08f621827444f70d884f5d0240d2712e10e116e9192af3c91a7ec57647e3934057340b4cf408d5a56592f8274eec53f0"},
		{"abc", "4e03657aea45a94fc7d47ba826c8d667c0d1e6e33a64a036ec44f58fa12d6c45"},
		{"abc", "8eb208f7e05d987a9b044a8e98c6b087f15a0bfc"},
	}
	for i, t := range v {
		h := hashes[i%5]
		got, err := h.lib([]byte(t.in))
		c.Eval([]byte(h.name), []byte(t.in))
		c.Check(err == nil && hex.EncodeToString(got) == t.want, h.name+" differs", "%s(%q) = %x (%v), want %s", h.name, t.in, got, err, t.want)
	}
	m := bytes.Repeat([]byte("a"), 1000000)
	for i, want := range []string{
		"cdc76e5c9914fb9281a1c7e284d73e67f1809a48a497200e046d39ccc7112cd0",
		"5c8875ae474a3634ba4fd55ec85bffd661f32aca75c6d699d0cdcb6c115891c1",
		"3c3a876da14034ab60627c077bb98f7e120a2a5370212dffb3385a18d4f38859ed311d0a9d5141ce9cc5c66ee689b266a8aa18ace8282a0e0db596c90b0a7b87",
		"", "52783243c1697bdbe16d37f97f68f08325dc1528"} {
		if want == "" {
			continue
		}
		got, err := hashes[i].lib(m)
		c.Eval([]byte(hashes[i].name), m)
		c.Check(err == nil && hex.EncodeToString(got) == want, hashes[i].name+" differs", "%s of a million 'a' is %x (%v), want %s", hashes[i].name, got, err, want)
	}
}

// ---- C15 ----

func (c *C) half() []byte {
	b := c.R.Bytes(32)
	switch c.R.Intn(8) {
	case 0:
		for i := 32 - 1 - c.R.Intn(31); i < 32; i++ {
			b[i] = 0
		}
		c.Hit("sig:high-zeros")
	case 1:
		for i := c.R.Intn(32); i >= 0; i-- {
			b[i] = 0
		}
		c.Hit("sig:low-zeros")
	case 2:
		v := []byte{0, 0xff, 0x80, 1}[c.R.Intn(4)]
		for i := range b {
			b[i] = v
		}
		c.Hit("sig:constant")
	case 3:
		for i := range b {
			b[i] = 0
		}
		b[c.R.Intn(32)] = 1 << uint(c.R.Intn(8))
		c.Hit("sig:one-bit")
	default:
		c.Hit("sig:random")
	}
	return b
}

func (c *C) sigIs(s *crypto.Signature, err error, R, S []byte, how string) {
	if err != nil || s == nil || !bytes.Equal(s.R, R) || !bytes.Equal(s.S, S) {
		c.Fail("signature encoding", "%s of R %x S %x gives %v, %v", how, R, S, s, err)
	}
}

func c15round(c *C) {
	R, S := c.half(), c.half()
	cp := func(b []byte) []byte { return append([]byte(nil), b...) }
	both := append(cp(R), S...)
	c.Eval(both)
	s, err := crypto.NewSignature(cp(R), cp(S))
	c.sigIs(s, err, R, S, "NewSignature")
	if c.R.Intn(8) == 0 {
		s = &crypto.Signature{R: cp(R), S: cp(S)}
	}
	c.Check(bytes.Equal(s.Bytes(), both), "Bytes", "Bytes of R %x S %x is %x", R, S, s.Bytes())
	c.Check(strings.EqualFold(s.String(), hex.EncodeToString(both)), "String", "String of R %x S %x is %q", R, S, s.String())
	rI, sI := s.GetR(), s.GetS()
	c.Check(rI.Cmp(ref.Big(R)) == 0 && sI.Cmp(ref.Big(S)) == 0, "GetR/GetS", "R %x S %x as integers: %x, %x", R, S, rI, sI)
	t, err := crypto.NewSignatureFromBytes(s.Bytes())
	c.sigIs(t, err, R, S, "Bytes round trip")
	hb, err := hex.DecodeString(s.String())
	c.Check(err == nil, "String", "String of R %x S %x is %q", R, S, s.String())
	t, err = crypto.NewSignatureFromBytes(hb)
	c.sigIs(t, err, R, S, "hex round trip")
	t, err = crypto.NewSignatureFromBigInt(rI, sI)
	c.sigIs(t, err, R, S, "integer round trip")
	t, err = crypto.NewSignatureFromBigInt(ref.Big(R), ref.Big(S))
	c.sigIs(t, err, R, S, "NewSignatureFromBigInt")
	c.Sample("R %x S %x", R, S)
}

func c15lengths(c *C) {
	r, s := c.Idx/72, c.Idx%72
	R, S := c.R.Bytes(r), c.R.Bytes(s)
	if r == 0 && c.R.Bool() {
		R = nil
	}
	if s == 0 && c.R.Bool() {
		S = nil
	}
	c.Eval([]byte{byte(r), byte(s)})
	noPanic(c, fmt.Sprintf("NewSignature with %d+%d bytes", r, s), func() {
		sig, err := crypto.NewSignature(R, S)
		if r == 32 && s == 32 {
			c.sigIs(sig, err, R, S, "NewSignature")
			c.Hit("parts:accepted")
		} else {
			c.Hit("parts:refused")
			c.Check(err != nil && sig == nil, "signature accepted", "NewSignature accepts %d+%d bytes", r, s)
		}
	})
}

func c15bytes(c *C) {
	n := c.Idx % 200
	if c.R.Intn(10) == 0 {
		n = 60 + c.R.Intn(10)
	}
	if c.R.plant != nil && c.R.Bool() {
		n = 64
	}
	g := c.guard(c.R.Bytes(n))
	b := g.B
	if n == 0 && c.R.Bool() {
		b = nil
	}
	c.Eval(b)
	noPanic(c, fmt.Sprintf("NewSignatureFromBytes with %d bytes", n), func() {
		sig, err := crypto.NewSignatureFromBytes(b)
		if n == 64 {
			c.sigIs(sig, err, b[:32], b[32:], "NewSignatureFromBytes")
			c.Hit("bytes:accepted")
		} else {
			c.Hit("bytes:refused")
			c.Check(err != nil && sig == nil, "signature accepted", "NewSignatureFromBytes accepts %d bytes", n)
		}
	})
	g.check(c, "NewSignatureFromBytes")
}

func inRange(v *big.Int) bool { return v != nil && v.Sign() >= 0 && v.BitLen() <= 256 }

func c15try(c *C, r, s *big.Int) {
	str := func(v *big.Int) string {
		if v == nil {
			return "nil"
		}
		return fmt.Sprintf("%x", v)
	}
	c.Eval([]byte(str(r)), []byte(str(s)))
	var r0, s0 *big.Int
	if r != nil {
		r0 = new(big.Int).Set(r)
	}
	if s != nil {
		s0 = new(big.Int).Set(s)
	}
	noPanic(c, fmt.Sprintf("NewSignatureFromBigInt(%s, %s)", str(r), str(s)), func() {
		sig, err := crypto.NewSignatureFromBigInt(r, s)
		if inRange(r) && inRange(s) {
			c.Hit("ints:accepted")
			c.sigIs(sig, err, ref.LE(r0, 32), ref.LE(s0, 32), "NewSignatureFromBigInt")
		} else {
			c.Hit("ints:refused")
			c.Check(err != nil && sig == nil, "signature accepted", "NewSignatureFromBigInt(%s, %s) gives %v, %v", str(r), str(s), sig, err)
		}
	})
	c.Check((r == nil || r.Cmp(r0) == 0) && (s == nil || s.Cmp(s0) == 0), "argument changed", "NewSignatureFromBigInt changed its arguments")
}

func (c *C) anyInt() *big.Int {
	switch c.R.Intn(12) {
	case 0:
		c.Hit("ints:nil")
		return nil
	case 1:
		c.Hit("ints:negative")
		return new(big.Int).Neg(new(big.Int).Add(one, ref.Big(c.R.Bytes(c.R.Intn(40)))))
	case 2:
		c.Hit("ints:large")
		return new(big.Int).Add(pow2(256+uint(c.R.Intn(300))), ref.Big(c.R.Bytes(c.R.Intn(33))))
	case 3:
		return ref.Big(c.R.Bytes(c.R.Intn(33)))
	case 4:
		return bn(int64(c.R.Intn(300)))
	case 5:
		return new(big.Int).Sub(pow2(uint(c.R.Intn(257))), bn(int64(c.R.Intn(2))))
	}
	return ref.Big(c.half())
}

func c15ints(c *C) { c15try(c, c.anyInt(), c.anyInt()) }

// c15edges: 2^k-1, 2^k, 2^k+1 and their negatives on either side.
func c15edges(c *C) {
	k := uint(c.Idx % 350)
	if c.Idx >= 350 {
		k += 200
	}
	for d := int64(-1); d <= 1; d++ {
		v := new(big.Int).Add(pow2(k), bn(d))
		good := ref.Big(c.R.Bytes(32))
		c15try(c, v, good)
		c15try(c, good, v)
		c15try(c, v, new(big.Int).Set(v))
		n := new(big.Int).Neg(v)
		c15try(c, n, good)
		c15try(c, good, n)
	}
	c15try(c, new(big.Int), new(big.Int))
}
