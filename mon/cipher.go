package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"io"
	"math/big"
	"runtime"
	"strings"
	"sync"

	crypto "github.com/proximax-storage/go-xpx-crypto"

	"verifmon/ref"
	"verifmon/ref/ed"
)

func init() {
	register(&Prop{
		ID:   "C08",
		Rule: "a case is one Encrypt followed by Decrypt with matching key pairs; non-trivial when the ciphertext is new; every message length of a range and every way to hold the keys is visited",
		Fams: func(t *Tier) []Fam {
			return []Fam{
				{Name: "every-length", N: t.N(530, 2100), Fn: c08length},
				{Name: "modes", N: t.N(900, 20000), Fn: c08modes, Floor: map[string]int64{"mode:both-full": 50, "mode:pub-only": 50, "mode:self": 50, "mode:literal": 50, "msg:nil": 1}},
				{Name: "endings", N: t.N(320, 4000), Fn: c08endings},
				{Name: "large", N: t.N(24, 160), Fn: c08large},
				sizeFam(t, c08size),
				{Name: "reuse", N: t.N(40, 800), Fn: c08reuse, Floor: map[string]int64{"reuse:out-of-order": 100}},
				{Name: "peers", N: t.N(200, 4000), Fn: c08peers},
				{Name: "history", N: t.N(60, 1500), Fn: focused([]int{5, 7, 8}, "history encrypt", "history decrypt")},
				{Name: "objects", N: t.N(200, 4000), Fn: objectsOf(4)},
				{Name: "repeated", N: 1, Fn: longOf(1200, 40000, longDecrypt)},
			}
		},
	})
	register(&Prop{
		ID:   "C09",
		Rule: "a case is one ciphertext of the library taken apart by an independent implementation, or one of the independent implementation decrypted by the library; non-trivial when the ciphertext is new",
		Fams: func(t *Tier) []Fam {
			return []Fam{
				{Name: "encrypt", N: t.N(1500, 40000), Fn: c09encrypt, Floor: map[string]int64{"peer:prime": 200, "peer:mixed": 100, "peer:small": 50, "peer:non-reduced": 30, "header:checked": 1000}},
				{Name: "decrypt", N: t.N(1500, 40000), Fn: c09decrypt, Floor: map[string]int64{"peer:prime": 200}},
				{Name: "default-source", N: t.N(300, 4000), Fn: c09default},
				{Name: "lengths", N: t.N(300, 2100), Fn: c09lengths},
				sizeFam(t, c09size),
				{Name: "twins", N: t.N(120, 3000), Fn: c09twins, Floor: map[string]int64{"twins": 1000}},
				{Name: "patterns", N: t.N(120, 3000), Fn: c09patterns},
				{Name: "engine", N: t.N(200, 2000), Fn: c09engine, Needs: []string{"engine.seeded"}},
				{Name: "history", N: t.N(60, 1500), Fn: focused([]int{5, 6, 7, 8}, "history encrypt", "history decrypt")},
				{Name: "related", N: t.N(300, 8000), Fn: pairsOf(4)},
				{Name: "objects", N: t.N(200, 4000), Fn: objectsOf(3)},
				{Name: "repeated", N: 1, Fn: longOf(1200, 40000, longEncrypt)},
			}
		},
	})
	register(&Prop{
		ID:   "C10",
		Rule: "a case is one Decrypt (or Encrypt) of hostile input or with unusable keys, compared with the independent implementation's verdict and plaintext; non-trivial when the input is new; both verdicts are required often",
		Fams: func(t *Tier) []Fam {
			return []Fam{
				{Name: "lengths", N: t.N(420, 2000), Fn: c10lengths, Floor: map[string]int64{"dec:error": 300}},
				{Name: "truncated", N: t.N(160, 1200), Fn: c10trunc},
				sizeFam(t, c10size),
				{Name: "last-byte", N: 256 * 3, Fn: c10lastByte, Floor: map[string]int64{"pad:ok": 40, "pad:bad": 500}},
				{Name: "padding", N: 17 * 17 * 3, Fn: c10padding, Floor: map[string]int64{"pad:ok": 40, "pad:bad": 200}},
				{Name: "all-zero-plaintext", N: 40, Fn: c10zero},
				{Name: "tampered", N: t.N(900, 20000), Fn: c10tamper, Floor: map[string]int64{"dec:ok": 100, "dec:error": 200}},
				{Name: "garbage", N: t.N(700, 12000), Fn: c10garbage},
				{Name: "missing-keys", N: t.N(256, 2000), Fn: c10missing, Floor: map[string]int64{"missing:encrypt": 30, "missing:decrypt": 30}},
				{Name: "bad-peers", N: t.N(700, 8000), Fn: c10peers, Floor: map[string]int64{"peer:no-point": 100, "peer:length": 100}},
				{Name: "own-key", N: 140, Fn: c10own},
				{Name: "history", N: t.N(60, 1500), Fn: focused([]int{5, 7, 8, 13}, "history malformed", "history decrypt")},
			}
		},
	})
	register(&Prop{
		ID:   "C11",
		Rule: "a case is one or several encryptions from a random source of unique 16-byte tokens (or the default source); the ledger decides that every token drawn sits in exactly one ciphertext; fault cases enumerate every fault position, kind and chunking; non-trivial when the token sequence or script is new",
		Fams: func(t *Tier) []Fam {
			return []Fam{
				{Name: "faults", N: 52 * nFaults * nChunks * t.N(1, 8), Fn: c11faults, Floor: map[string]int64{"enc:error": 1000, "enc:ok": 80, "enc:recovered": 300}},
				{Name: "sequence", N: t.N(120, 2400), Fn: c11sequence},
				{Name: "patterns", N: t.N(120, 3000), Fn: c11patterns},
				{Name: "shared", N: t.N(100, 2000), Fn: c11shared, Floor: map[string]int64{"tokens:used-once": 3000, "shared:ciphers": 100}},
				{Name: "default", N: t.N(120, 2400), Fn: c11default, Floor: map[string]int64{"default:encryptions": 800}},
				{Name: "default-concurrent", N: t.N(6, 60), Fn: c11defaultConc},
				{Name: "default-reader", Serial: true, N: t.N(40, 200), Fn: c11reader},
				{Name: "processes", Serial: true, N: 1, Fn: c11process},
			}
		},
		After: func(c *C) { freshHeaders.spread(c, 48, "salts and IVs") },
	})
	register(&Prop{
		ID:   "C12",
		Rule: "a case is one shared key derivation on both sides, compared with the reference; non-trivial when (keys, salt) is new",
		Fams: func(t *Tier) []Fam {
			return []Fam{
				{Name: "both-sides", N: t.N(2400, 60000), Fn: c12sides},
				{Name: "peers", N: t.N(1600, 40000), Fn: c12peers, Floor: map[string]int64{"peer:mixed": 100, "peer:small": 50, "peer:non-reduced": 30}},
				{Name: "invalid", N: t.N(1500, 20000), Fn: c12invalid, Floor: map[string]int64{"invalid:no-point": 100, "invalid:length": 100, "invalid:salt": 100}},
				{Name: "dependence", N: t.N(24, 300), Fn: c12depends},
				{Name: "twins", N: t.N(100, 3000), Fn: c12twins, Floor: map[string]int64{"twins": 1000}},
				{Name: "history", N: t.N(60, 1500), Fn: focused([]int{4, 9, 10}, "history shared key")},
				{Name: "related", N: t.N(300, 8000), Fn: pairsOf(3)},
				{Name: "objects", N: t.N(200, 4000), Fn: objectsOf(5)},
				{Name: "repeated", N: 1, Fn: longOf(1200, 40000, longShared)},
			}
		},
		After: func(c *C) {},
	})
}

// ---- helpers ----

// nonReduced are the encodings of curve points with y >= p.
var nonReduced = func() (l [][]byte) {
	for k := int64(0); k < 19; k++ {
		e := ref.LE(new(big.Int).Add(ref.P, bn(k)), 32)
		for s := 0; s < 2; s++ {
			f := append([]byte(nil), e...)
			f[31] |= byte(s) << 7
			if _, _, ok := ref.DecodeBig(f); ok {
				l = append(l, f)
			}
		}
	}
	return
}()

// peerPub returns the encoding of some curve point that serves as a public key.
func (c *C) peerPub() []byte {
	switch c.R.Intn(6) {
	case 0:
		c.Hit("peer:mixed")
		return new(ed.Point).Add(ref.MulBase(c.R.Bytes(32)), ref.Torsion[1+c.R.Intn(7)]).Bytes()
	case 1:
		c.Hit("peer:small")
		encs, _ := ref.SmallEncodings()
		return append([]byte(nil), encs[c.R.Intn(len(encs))]...)
	case 2:
		c.Hit("peer:non-reduced")
		return append([]byte(nil), nonReduced[c.R.Intn(len(nonReduced))]...)
	case 3:
		for {
			b := c.R.Bytes(32)
			if ref.Decode(b) != nil {
				c.Hit("peer:random")
				return b
			}
		}
	}
	c.Hit("peer:prime")
	return ref.Public(c.R.Bytes(32))
}

// badPub returns 32 bytes that are no curve point.
func (c *C) badPub() []byte {
	for {
		b := c.R.Bytes(32)
		switch c.R.Intn(4) {
		case 0:
			b = ref.LE(bn(int64(c.R.Intn(1000))), 32)
		case 1:
			b = ref.LE(new(big.Int).Sub(pow2(256), bn(int64(1+c.R.Intn(1000)))), 32)
		}
		if _, _, ok := ref.DecodeBig(b); !ok {
			return b
		}
	}
}

func (c *C) newCipher(s, r *crypto.KeyPair) crypto.BlockCipher {
	switch c.R.Intn(5) {
	case 0:
		return crypto.NewBlockCipher(s, r, nil)
	case 1:
		return crypto.NewBlockCipher(s, r, crypto.CryptoEngines.DefaultEngine)
	case 2:
		return crypto.NewBlockCipher(s, r, crypto.CryptoEngines.Ed25519Engine)
	case 3:
		return crypto.CryptoEngines.DefaultEngine.CreateBlockCipher(s, r)
	}
	return crypto.NewEd25519BlockCipher(s, r, nil)
}

func (c *C) encrypt(bc crypto.BlockCipher, m []byte) []byte {
	g := c.guard(m)
	in := g.B
	if m == nil {
		in = nil
	}
	ct, err := bc.Encrypt(in)
	if err != nil {
		c.Fail("Encrypt error", "Encrypt of %d bytes fails: %v (message %s)", len(m), err, hx(m))
	}
	g.check(c, "Encrypt(message)")
	if want := 48 + len(m) + 16 - len(m)%16; len(ct) != want {
		c.Fail("ciphertext length", "Encrypt of %d bytes gives %d bytes, want %d", len(m), len(ct), want)
	}
	return ct
}

func (c *C) decrypt(bc crypto.BlockCipher, ct, want []byte, how string) {
	g := c.guard(ct)
	m, err := bc.Decrypt(g.B)
	g.check(c, "Decrypt(ciphertext)")
	if err != nil {
		c.Fail("Decrypt error", "%s: Decrypt fails: %v\nciphertext %s\nmessage %s", how, err, hx(ct), hx(want))
	}
	if !bytes.Equal(m, want) {
		c.Fail("message differs", "%s: Decrypt gives %s, the message was %s\nciphertext %s", how, hx(m), hx(want), hx(ct))
	}
}

// ---- C08 ----

// parties builds the ciphers of sender and receiver in some mode.
func (c *C) parties(a, b []byte) (enc, dec crypto.BlockCipher, how string) {
	pa, pb := ref.Public(a), ref.Public(b)
	fa, _ := c.pairFor(a)
	fb, _ := c.pairFor(b)
	switch c.R.Intn(4) {
	case 0:
		c.Hit("mode:both-full")
		bc := c.newCipher(fa, fb)
		return bc, bc, "one cipher with both key pairs"
	case 1:
		c.Hit("mode:pub-only")
		return c.newCipher(fa, c.pubPair(pb)), c.newCipher(c.pubPair(pa), fb), "each side knows the other's public key"
	case 2:
		c.Hit("mode:full-and-pub-only")
		if c.R.Bool() {
			return c.newCipher(fa, fb), c.newCipher(c.pubPair(pa), fb), "receiver knows the sender's public key"
		}
		return c.newCipher(fa, c.pubPair(pb)), c.newCipher(fa, fb), "sender knows the receiver's public key"
	}
	c.Hit("mode:literal")
	return crypto.NewBlockCipher(&crypto.KeyPair{PrivateKey: crypto.NewPrivateKey(append([]byte(nil), a...)), PublicKey: crypto.NewPublicKey(pa)}, &crypto.KeyPair{PublicKey: crypto.NewPublicKey(pb)}, nil),
		crypto.NewBlockCipher(&crypto.KeyPair{PublicKey: crypto.NewPublicKey(pa)}, &crypto.KeyPair{PrivateKey: crypto.NewPrivateKey(append([]byte(nil), b...)), PublicKey: crypto.NewPublicKey(pb)}, nil), "literal key pairs"
}

func c08one(c *C, a, b, m []byte) {
	enc, dec, how := c.parties(a, b)
	ct := c.encrypt(enc, m)
	c.Eval(ct)
	c.decrypt(dec, ct, m, fmt.Sprintf("%s, sender %x receiver %x", how, a, b))
	c.Sample("%s: %d bytes", how, len(m))
}

func c08length(c *C) {
	c08one(c, c.R.Bytes(32), c.R.Bytes(32), c.R.Bytes(c.Idx))
	c.Hit("every-length")
}

func c08modes(c *C) {
	a, b := c.privBytes(), c.privBytes()
	if c.R.Intn(6) == 0 {
		b = a
		c.Hit("mode:self")
	}
	c08one(c, a, b, c.msg(c.msgLen(4096)))
}

func c08endings(c *C) {
	// messages that end like padding
	n := c.Idx % 80
	m := c.R.Bytes(n)
	v := byte(c.R.Intn(20))
	for i, k := 0, int(v); i < k && i < n; i++ {
		m[n-1-i] = v
	}
	if c.R.Intn(4) == 0 {
		for i := range m {
			m[i] = v
		}
	}
	if c.R.Intn(4) == 0 && n > 0 {
		m[n-1] = []byte{0, 0x80, 16, 17, 1, 0xff}[c.R.Intn(6)]
	}
	c08one(c, c.R.Bytes(32), c.R.Bytes(32), m)
}

func c08large(c *C) {
	n := 1<<uint(14+c.Idx%7) + c.R.Intn(64) - 32
	c08one(c, c.R.Bytes(32), c.R.Bytes(32), c.msg(n))
}

func c08reuse(c *C) {
	a, b := c.R.Bytes(32), c.R.Bytes(32)
	ab, ba := c.newCipher(newPair(c, a), newPair(c, b)), c.newCipher(newPair(c, b), newPair(c, a))
	type item struct {
		m, ct []byte
		dir   int
	}
	var open []item
	for n := 0; n < 12; n++ {
		it := item{m: c.msg(c.R.Intn(200)), dir: c.R.Intn(2)}
		it.ct = c.encrypt([]crypto.BlockCipher{ab, ba}[it.dir], it.m)
		c.Eval(it.ct)
		open = append(open, it)
		for len(open) > 0 && (c.R.Bool() || n == 11) {
			k := c.R.Intn(len(open))
			it := open[k]
			open = append(open[:k], open[k+1:]...)
			c.decrypt([]crypto.BlockCipher{ab, ba}[it.dir], it.ct, it.m, "reused cipher objects")
			c.Hit("reuse:out-of-order")
		}
	}
}

// c08peers: the receiver's own public key may carry a small-order component
// as long as both sides agree on the shared point.
func c08peers(c *C) {
	a, b := c.R.Bytes(32), c.R.Bytes(32)
	t := ref.Torsion[c.R.Intn(8)]
	shift := func(p []byte) []byte { return new(ed.Point).Add(ref.Decode(p), t).Bytes() }
	pa, pb := shift(ref.Public(a)), shift(ref.Public(b))
	fa := &crypto.KeyPair{PrivateKey: crypto.NewPrivateKey(a), PublicKey: crypto.NewPublicKey(pa)}
	fb := &crypto.KeyPair{PrivateKey: crypto.NewPrivateKey(b), PublicKey: crypto.NewPublicKey(pb)}
	m := c.msg(c.R.Intn(100))
	ct := c.encrypt(c.newCipher(fa, c.pubPair(pb)), m)
	c.Eval(ct)
	c.decrypt(c.newCipher(c.pubPair(pa), fb), ct, m, "public keys with a small-order component")
}

// ---- C09 ----

// header checks that salt and IV of a ciphertext are the bytes drawn.
func (c *C) header(ct, drawn []byte, log []string) {
	swapped := append(append([]byte{}, drawn[32:48]...), 0)
	_ = swapped
	h := ct[:48]
	ivFirst := append(append([]byte{}, h[32:48]...), h[:32]...)
	if !bytes.Equal(h, drawn[:48]) && !bytes.Equal(ivFirst, drawn[:48]) {
		c.Fail("salt or IV differs", "salt %x IV %x are not the bytes drawn from the random source: %x\n%s", h[:32], h[32:], drawn[:48], strings.Join(log, "\n"))
	}
	c.Hit("header:checked")
}

func c09encrypt(c *C) {
	a, peer := c.privBytes(), c.peerPub()
	m := c.msg(c.msgLen(2048))
	s := &source{r: c.R, failAt: -1, chunk: c.R.Intn(nChunks), data: c.R.Bytes(256)}
	if c.R.Intn(8) == 0 {
		v := []byte{0, 0xff}[c.R.Intn(2)]
		for i := range s.data {
			s.data[i] = v
		}
	}
	fa, _ := c.pairFor(a)
	bc := crypto.NewEd25519BlockCipher(fa, c.pubPair(peer), s)
	for n := 1 + c.R.Intn(2); n > 0; n-- {
		start := s.pos
		s.zeros = 0
		ct := c.encrypt(bc, m)
		c.Eval(ct)
		c.header(ct, s.data[start:start+48], s.reads)
		want, err := ref.Encrypt(a, peer, ct[:32], ct[32:48], m)
		if err != nil {
			panic(err)
		}
		if !bytes.Equal(ct, want) {
			c.Fail("ciphertext differs", "sender %x peer %x message %s salt %x IV %x\ngot  %s\nwant %s", a, peer, hx(m), ct[:32], ct[32:48], hx(ct[48:]), hx(want[48:]))
		}
	}
	c.Sample("sender %x peer %x message of %d bytes", a, peer, len(m))
}

func c09decrypt(c *C) {
	b, peer := c.privBytes(), c.peerPub()
	m := c.msg(c.msgLen(2048))
	salt, iv := c.R.Bytes(32), c.R.Bytes(16)
	if c.R.Intn(6) == 0 {
		salt = bytes.Repeat([]byte{byte(c.R.Intn(2)) * 0xff}, 32)
		iv = make([]byte, 16)
	}
	ct, err := ref.Encrypt(b, peer, salt, iv, m)
	if err != nil {
		panic(err)
	}
	c.Eval(ct)
	fb, _ := c.pairFor(b)
	c.decrypt(c.newCipher(c.pubPair(peer), fb), ct, m, fmt.Sprintf("ciphertext of an independent implementation, receiver %x peer %x", b, peer))
}

func c09default(c *C) {
	a, b := c.R.Bytes(32), c.R.Bytes(32)
	enc, _, how := c.parties(a, b)
	m := c.msg(c.msgLen(512))
	ct := c.encrypt(enc, m)
	c.Eval(ct)
	got, err := ref.Decrypt(b, ref.Public(a), ct)
	c.Check(err == nil && bytes.Equal(got, m), "foreign decryption", "%s: an independent implementation cannot decrypt: %v\nsender %x receiver %x message %s ciphertext %s", how, err, a, b, hx(m), hx(ct))
}

func c09lengths(c *C) {
	a, b := c.R.Bytes(32), c.R.Bytes(32)
	m := c.R.Bytes(c.Idx)
	if c.Idx%2 == 0 {
		ct := c.encrypt(c.newCipher(newPair(c, a), c.pubPair(ref.Public(b))), m)
		c.Eval(ct)
		got, err := ref.Decrypt(b, ref.Public(a), ct)
		c.Check(err == nil && bytes.Equal(got, m), "foreign decryption", "an independent implementation cannot decrypt %d bytes: %v", len(m), err)
		return
	}
	ct, _ := ref.Encrypt(b, ref.Public(a), c.R.Bytes(32), c.R.Bytes(16), m)
	c.Eval(ct)
	c.decrypt(c.newCipher(c.pubPair(ref.Public(a)), newPair(c, b)), ct, m, "length")
}

func c09engine(c *C) {
	a, b := c.R.Bytes(32), c.R.Bytes(32)
	s := &source{r: c.R, failAt: -1, chunk: c.R.Intn(nChunks), data: c.R.Bytes(256)}
	eng := must[func(io.Reader) crypto.CryptoEngine]("engine.seeded")(s)
	m := c.msg(c.R.Intn(100))
	start := s.pos
	ct := c.encrypt(crypto.NewBlockCipher(newPair(c, a), c.pubPair(ref.Public(b)), eng), m)
	c.Eval(ct)
	c.header(ct, s.data[start:start+48], s.reads)
	want, _ := ref.Encrypt(a, ref.Public(b), ct[:32], ct[32:48], m)
	c.Check(bytes.Equal(ct, want), "ciphertext differs", "seeded engine: got %x want %x", ct, want)
}

// ---- C10 ----

// c10try compares Decrypt with the reference verdict.
func c10try(c *C, dec crypto.BlockCipher, b, peer, ct []byte, what string) {
	g := c.guard(ct)
	in := g.B
	if ct == nil {
		in = nil
	}
	c.Eval(ct, b, peer)
	want, werr := ref.Decrypt(b, peer, ct)
	noPanic(c, fmt.Sprintf("Decrypt (%s, %s)", what, hx(ct)), func() {
		m, err := dec.Decrypt(in)
		if werr != nil {
			c.Hit("dec:error")
			c.Check(err != nil, "malformed input accepted", "%s: Decrypt accepts malformed input (%v): receiver %x peer %x input %s result %s", what, werr, b, peer, hx(ct), hx(m))
			c.Check(len(m) == 0, "message with error", "%s: Decrypt returns an error and a message %s", what, hx(m))
			return
		}
		c.Hit("dec:ok")
		c.Check(err == nil && bytes.Equal(m, want), "well-formed input refused", "%s: Decrypt of well-formed input gives %s, %v, want %s: receiver %x peer %x input %s", what, hx(m), err, hx(want), b, peer, hx(ct))
	})
	g.check(c, "Decrypt(ciphertext)")
}

type recv struct {
	b, peer []byte
	bc      crypto.BlockCipher
}

func (c *C) receiver() recv {
	a, b := c.R.Bytes(32), c.R.Bytes(32)
	r := recv{b: b, peer: ref.Public(a)}
	if c.R.Intn(5) == 0 {
		r.peer = c.peerPub()
	}
	r.bc = c.newCipher(c.pubPair(r.peer), newPair(c, b))
	return r
}

// seal encrypts whole blocks without padding for a receiver.
func (r recv) seal(c *C, blocks []byte) []byte {
	salt, iv := c.R.Bytes(32), c.R.Bytes(16)
	k, err := ref.SharedKey(r.b, r.peer, salt)
	if err != nil {
		panic(err)
	}
	return append(append(append([]byte{}, salt...), iv...), ref.CBC(k, iv, blocks)...)
}

func c10lengths(c *C) {
	n := c.Idx % 140
	r := c.receiver()
	b := c.R.Bytes(n)
	if c.R.Intn(4) == 0 {
		b = make([]byte, n)
	}
	if n == 0 && c.R.Bool() {
		b = nil
	}
	c10try(c, r.bc, r.b, r.peer, b, fmt.Sprintf("%d bytes", n))
}

func c10trunc(c *C) {
	r := c.receiver()
	m := c.R.Bytes(c.R.Intn(60))
	full := r.seal(c, ref.Pad(m))
	for i := 0; i < 3; i++ {
		ct := append([]byte(nil), full...)
		switch c.R.Intn(5) {
		case 0, 1:
			ct = ct[:c.R.Intn(len(ct))]
		case 2:
			ct = append(ct, c.R.Bytes(1+c.R.Intn(33))...)
		case 3: // one block dropped or moved
			k := c.R.Intn(len(ct) / 16)
			ct = append(ct[:16*k:16*k], ct[16*k+16:]...)
		case 4:
			k := c.R.Intn(len(ct))
			ct = append(ct[:k:k], ct[k+1:]...)
		}
		c10try(c, r.bc, r.b, r.peer, ct, "truncated or extended")
	}
}

func (c *C) padHit(b []byte) {
	if _, ok := ref.Unpad(b); ok {
		c.Hit("pad:ok")
	} else {
		c.Hit("pad:bad")
	}
}

// c10lastByte: every value of the last byte, with the bytes before it equal to
// it, with 1..3 blocks.
func c10lastByte(c *C) {
	v, k := c.Idx%256, 1+c.Idx/256
	r := c.receiver()
	b := c.R.Bytes(16 * k)
	if c.R.Bool() || v <= 16 {
		for i := 0; i < v && i < len(b); i++ {
			b[len(b)-1-i] = byte(v)
		}
	}
	b[len(b)-1] = byte(v)
	c.padHit(b)
	c10try(c, r.bc, r.b, r.peer, r.seal(c, b), fmt.Sprintf("last byte %d", v))
}

// c10padding: a padding of p bytes with the byte at distance q corrupted.
func c10padding(c *C) {
	p, q := c.Idx%17, c.Idx/17%17
	k := 1 + c.Idx/289
	r := c.receiver()
	b := c.R.Bytes(16 * k)
	for i := 0; i < p; i++ {
		b[len(b)-1-i] = byte(p)
	}
	if p == 0 {
		b[len(b)-1] = 0
	}
	if q > 0 {
		b[len(b)-q] ^= byte(1 << uint(c.R.Intn(8)))
	}
	c.padHit(b)
	c10try(c, r.bc, r.b, r.peer, r.seal(c, b), fmt.Sprintf("padding %d, byte %d from the end corrupted", p, q))
}

func c10zero(c *C) {
	r := c.receiver()
	b := bytes.Repeat([]byte{byte(c.Idx)}, 16*(1+c.R.Intn(3)))
	c10try(c, r.bc, r.b, r.peer, r.seal(c, b), "constant plaintext")
}

func c10tamper(c *C) {
	r := c.receiver()
	m := c.R.Bytes(c.R.Intn(70))
	ct := r.seal(c, ref.Pad(m))
	switch c.R.Intn(6) {
	case 0: // any bit
		ct[c.R.Intn(len(ct))] ^= 1 << uint(c.R.Intn(8))
	case 1: // IV: changes the first block only
		ct[32+c.R.Intn(16)] ^= byte(1 + c.R.Intn(255))
	case 2: // salt
		ct[c.R.Intn(32)] ^= byte(1 + c.R.Intn(255))
	case 3: // block before the last: flips bits of the padding
		k := len(ct) - 32
		ct[k+c.R.Intn(16)] ^= byte(1 + c.R.Intn(255))
	case 4: // blocks swapped
		if len(ct) >= 96 {
			t := append([]byte(nil), ct[48:64]...)
			copy(ct[48:64], ct[64:80])
			copy(ct[64:80], t)
		}
	}
	c10try(c, r.bc, r.b, r.peer, ct, "tampered")
}

func c10garbage(c *C) {
	r := c.receiver()
	n := c.R.Intn(300)
	if c.R.Bool() {
		n = 16 * c.R.Intn(20)
	}
	b := c.R.Bytes(n)
	if c.R.Intn(4) == 0 {
		for i := range b {
			b[i] = byte(c.R.Intn(2)) * 0xff
		}
	}
	c10try(c, r.bc, r.b, r.peer, b, "garbage")
}

func wantErr(c *C, what string, f func() ([]byte, error)) {
	noPanic(c, what, func() {
		out, err := f()
		c.Check(err != nil, "no error", "%s gives no error (result %s)", what, hx(out))
		c.Check(len(out) == 0, "result with error", "%s gives an error and a result %s", what, hx(out))
	})
}

func c10missing(c *C) {
	a, b := c.R.Bytes(32), c.R.Bytes(32)
	pa, pb := c.pubPair(ref.Public(a)), c.pubPair(ref.Public(b))
	m := c.msg(c.R.Intn(80))
	good := recv{b: b, peer: ref.Public(a)}.seal(c, ref.Pad(m))
	fa, fb := newPair(c, a), newPair(c, b)
	c.Eval(a, b, m)
	switch c.Idx % 4 {
	case 0:
		bc := c.newCipher(pa, pb)
		wantErr(c, "Encrypt without any private key", func() ([]byte, error) { return bc.Encrypt(m) })
		wantErr(c, "Decrypt without any private key", func() ([]byte, error) { return bc.Decrypt(good) })
	case 1:
		bc := c.newCipher(pa, fb)
		wantErr(c, "Encrypt without the sender's private key", func() ([]byte, error) { return bc.Encrypt(m) })
		c10try(c, bc, b, ref.Public(a), good, "after the failed Encrypt")
	case 2:
		bc := c.newCipher(fa, pb)
		wantErr(c, "Decrypt without the receiver's private key", func() ([]byte, error) { return bc.Decrypt(good) })
		ct := c.encrypt(bc, m)
		got, err := ref.Decrypt(b, ref.Public(a), ct)
		c.Check(err == nil && bytes.Equal(got, m), "Encrypt after failure", "Encrypt after the failed Decrypt: %v", err)
	case 3:
		bc := c.newCipher(pa, pb)
		wantErr(c, "Decrypt of short input without a private key", func() ([]byte, error) { return bc.Decrypt(good[:c.R.Intn(64)]) })
		wantErr(c, "Decrypt of 64 bytes without a private key", func() ([]byte, error) { return bc.Decrypt(good[:64]) })
	}
	c.Hit("missing:encrypt")
	c.Hit("missing:decrypt")
}

func c10peers(c *C) {
	a := c.R.Bytes(32)
	fa := newPair(c, a)
	var bad []byte
	if c.Idx%2 == 0 {
		bad = c.badPub()
		c.Hit("peer:no-point")
	} else {
		bad = c.R.Bytes(c.Idx / 2 % 80)
		if c.R.Bool() && len(bad) > 32 {
			copy(bad, ref.Public(a)) // a good key with bytes behind it
		}
		if len(bad) == 32 {
			bad = bad[:31]
		}
		c.Hit("peer:length")
	}
	peer := &crypto.KeyPair{PublicKey: crypto.NewPublicKey(bad)}
	m := c.msg(c.R.Intn(50))
	c.Eval(a, bad)
	noPanic(c, fmt.Sprintf("NewBlockCipher with the public key %x", bad), func() {
		enc := c.newCipher(fa, peer)
		wantErr(c, fmt.Sprintf("Encrypt for the public key %x", bad), func() ([]byte, error) { return enc.Encrypt(m) })
		dec := c.newCipher(peer, fa)
		ct := c.R.Bytes(64 + 16*c.R.Intn(3))
		wantErr(c, fmt.Sprintf("Decrypt from the public key %x", bad), func() ([]byte, error) { return dec.Decrypt(ct) })
	})
}

// c10own: the receiver's own public key has a wrong length. There is no right
// plaintext; the call must not panic, and must not return one of its own.
func c10own(c *C) {
	n := c.Idx % 70
	if n == 32 {
		return
	}
	a, b := c.R.Bytes(32), c.R.Bytes(32)
	own := &crypto.KeyPair{PrivateKey: crypto.NewPrivateKey(b), PublicKey: crypto.NewPublicKey(c.R.Bytes(n))}
	bc := c.newCipher(c.pubPair(ref.Public(a)), own)
	ct := recv{b: b, peer: ref.Public(a)}.seal(c, ref.Pad(c.R.Bytes(40)))
	c.Eval(ct, []byte{byte(n)})
	noPanic(c, fmt.Sprintf("Decrypt with an own public key of %d bytes", n), func() {
		out, err := bc.Decrypt(ct)
		c.Check(err == nil || len(out) == 0, "result with error", "Decrypt gives an error and a result")
	})
}

// ---- C11 ----

func c11faults(c *C) {
	i := c.Idx
	s := &source{r: c.R, failAt: i % 52, kind: i / 52 % nFaults, chunk: i / 52 / nFaults % nChunks, data: c.R.Bytes(256)}
	a, b := c.R.Bytes(32), c.R.Bytes(32)
	bc := crypto.NewEd25519BlockCipher(newPair(c, a), c.pubPair(ref.Public(b)), s)
	m := c.msg(c.R.Intn(60))
	c.Eval(s.data, []byte{byte(s.failAt), byte(s.kind), byte(s.chunk)})
	c.Hit(fmt.Sprintf("fault:kind%d", s.kind))
	// One failure may only go unseen where it comes together with the last
	// byte of the salt or of the IV.
	s.once = s.failAt != 32 && c.R.Intn(3) == 0
	ct, err := bc.Encrypt(m)
	if s.failAt < 48 {
		if s.once {
			c.Hit("enc:error-once")
		}
		c.Hit("enc:error")
		c.Check(err != nil, "failure swallowed", "the source fails after %d bytes (kind %d), Encrypt reports no error, result %s\n%s", s.failAt, s.kind, hx(ct), strings.Join(s.reads, "\n"))
		c.Check(len(ct) == 0, "ciphertext with error", "Encrypt returns an error and a ciphertext %s", hx(ct))
		if c.R.Intn(3) == 0 {
			// the source recovers; bytes drawn before the failure are gone
			start := s.pos
			s.failAt = -1
			ct, err := bc.Encrypt(m)
			c.Check(err == nil, "Encrypt error", "Encrypt after the source recovered: %v", err)
			c.header(ct, s.data[start:start+48], s.reads)
			got, err := ref.Decrypt(b, ref.Public(a), ct)
			c.Check(err == nil && bytes.Equal(got, m), "foreign decryption", "ciphertext after recovery: %v", err)
			c.Hit("enc:recovered")
		}
		return
	}
	c.Check(err == nil, "Encrypt error", "the source gives 48 bytes, Encrypt fails: %v\n%s", err, strings.Join(s.reads, "\n"))
	c.header(ct, s.data[:48], s.reads)
	c.Hit("enc:ok")
	c.Sample("fault kind %d after %d bytes: %v", s.kind, s.failAt, s.reads)
}

// c11sequence: one source, several ciphers, one goroutine: the headers are the
// consecutive bytes of the source.
func c11sequence(c *C) {
	s := &source{r: c.R, failAt: -1, chunk: c.R.Intn(nChunks), data: c.R.Bytes(2048)}
	a := newPair(c, c.R.Bytes(32))
	p := c.pubPair(ref.Public(c.R.Bytes(32)))
	bcs := []crypto.BlockCipher{crypto.NewEd25519BlockCipher(a, p, s)}
	var l ledger
	m := c.msg(c.R.Intn(40))
	for n := 0; n < 8; n++ {
		if c.R.Intn(3) == 0 {
			bcs = append(bcs, crypto.NewEd25519BlockCipher(a, p, s))
		}
		start := s.pos
		s.zeros = 0
		ct := c.encrypt(bcs[c.R.Intn(len(bcs))], m)
		c.Eval(ct)
		c.header(ct, s.data[start:start+48], s.reads)
		c.Check(s.pos-start == 48, "bytes lost", "one encryption drew %d bytes", s.pos-start)
		l.add(c, ct[:48], "header")
	}
	c.Hit("sequence")
}

// tokens is a random source of unique 16-byte tokens, safe for concurrent use.
type tokens struct {
	mu     sync.Mutex
	r      *Rng
	index  map[string]int
	n      int
	odd    bool
	short  bool
	yield  bool
	failAt int // fails once so many tokens were handed out
}

func (t *tokens) Read(p []byte) (int, error) {
	if t.yield {
		runtime.Gosched()
	}
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(p)%16 != 0 {
		t.odd = true
		t.r.Fill(p)
		return len(p), nil
	}
	k := len(p) / 16
	if t.short && k > 1 && t.r.Bool() {
		k = 1 + t.r.Intn(k)
	}
	for i := 0; i < k; i++ {
		if t.failAt > 0 && t.n >= t.failAt {
			return 16 * i, errSource
		}
		tok := p[16*i : 16*i+16]
		t.r.Fill(tok)
		t.index[string(tok)] = t.n
		t.n++
	}
	return 16 * k, nil
}

func c11shared(c *C) {
	t := &tokens{r: newRng("tokens", fmt.Sprint(c.R.U64())), index: map[string]int{}, short: c.R.Bool(), yield: c.R.Bool()}
	if c.R.Intn(4) == 0 {
		t.failAt = 20 + c.R.Intn(60)
	}
	a := newPair(c, c.R.Bytes(32))
	p := c.pubPair(ref.Public(c.R.Bytes(32)))
	bad := &crypto.KeyPair{PublicKey: crypto.NewPublicKey(c.badPub())}
	one := crypto.NewEd25519BlockCipher(a, p, t)
	g, k := 2+c.R.Intn(7), 2+c.R.Intn(5)
	many := c.R.Bool()
	var mu sync.Mutex
	var heads [][]byte
	nerr := 0
	start := make(chan struct{})
	var wg sync.WaitGroup
	for i := 0; i < g; i++ {
		bc := one
		if many {
			bc = crypto.NewEd25519BlockCipher(a, p, t)
		}
		withBad := c.R.Intn(6) == 0
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for n := 0; n < k; n++ {
				if withBad && n == 1 {
					if ct, err := crypto.NewEd25519BlockCipher(a, bad, t).Encrypt(nil); err == nil || ct != nil {
						mu.Lock()
						heads = append(heads, nil)
						mu.Unlock()
						continue
					}
					mu.Lock()
					nerr++
					mu.Unlock()
				}
				ct, err := bc.Encrypt([]byte{byte(n)})
				mu.Lock()
				if err != nil {
					nerr++
				} else {
					heads = append(heads, ct)
				}
				mu.Unlock()
			}
		}()
	}
	close(start)
	wg.Wait()
	c.Hit("shared:ciphers")
	if t.odd {
		c.Hit("shared:odd-reads")
		return
	}
	seen := map[string]int{}
	used := 0
	for i, ct := range heads {
		c.Eval(ct)
		c.Check(ct != nil, "bad peer accepted", "Encrypt for a peer that is no point gives a ciphertext")
		for o := 0; o < 48; o += 16 {
			tok := string(ct[o : o+16])
			_, ok := t.index[tok]
			if !ok {
				c.Fail("foreign bytes", "bytes %d..%d of the header %x were never handed out as one token by the source (%d goroutines, %d ciphers)", o, o+15, ct[:48], g, g)
			}
			if j, dup := seen[tok]; dup {
				c.Fail("random bytes used twice", "the token %x sits in ciphertexts %d and %d of %d goroutines sharing a source", tok, j, i, g)
			}
			seen[tok] = i
			used++
		}
	}
	c.HitN("tokens:used-once", used)
	lost := t.n - used
	if lost < 0 || lost > 3*nerr {
		c.Fail("random bytes lost", "%d tokens were drawn, %d used in %d ciphertexts, %d encryptions failed", t.n, used, len(heads), nerr)
	}
	if t.failAt == 0 && nerr > g {
		c.Fail("Encrypt error", "%d encryptions failed with a good source", nerr)
	}
	if t.failAt > 0 && g*k*3 > t.failAt {
		c.Hit("shared:source-failed")
	}
}

var freshHeaders ledger

func c11default(c *C) {
	a, b := newPair(c, c.R.Bytes(32)), c.pubPair(ref.Public(c.R.Bytes(32)))
	m := c.msg(c.R.Intn(20))
	bc := c.newCipher(a, b)
	var prev []byte
	for n := 0; n < 8; n++ {
		if c.R.Intn(3) == 0 {
			bc = c.newCipher(a, b)
		}
		ct := c.encrypt(bc, m)
		c.Eval(ct)
		c.Hit("default:encryptions")
		freshHeaders.add(c, ct[:48], "salt and IV")
		c.Check(!bytes.Equal(ct[48:], prev), "ciphertext repeats", "encrypting the same message twice gives the same blocks %x", prev)
		prev = ct[48:]
	}
}

func c11defaultConc(c *C) {
	a, b := newPair(c, c.R.Bytes(32)), c.pubPair(ref.Public(c.R.Bytes(32)))
	bc := c.newCipher(a, b)
	g := 8
	out := make([][][]byte, g)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for i := 0; i < g; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			<-start
			for n := 0; n < 4; n++ {
				ct, err := bc.Encrypt(nil)
				if err == nil {
					out[i] = append(out[i], ct)
				}
			}
		}(i)
	}
	close(start)
	wg.Wait()
	for _, l := range out {
		c.Check(len(l) == 4, "Encrypt error", "concurrent Encrypt fails")
		for _, ct := range l {
			c.Eval(ct)
			c.Hit("default:encryptions")
			freshHeaders.add(c, ct[:48], "salt and IV")
		}
	}
}

func c11reader(c *C) {
	rec := &recorder{r: c.R}
	a, b := newPair(c, c.R.Bytes(32)), c.pubPair(ref.Public(c.R.Bytes(32)))
	restore := rec.install()
	defer restore()
	ct := c.encrypt(c.newCipher(a, b), c.msg(5))
	restore()
	c.Eval(ct)
	if len(rec.log) == 0 {
		c.Hit("default-reader:not-consulted")
		return
	}
	c.Hit("default-reader:consulted")
	c.Check(bytes.Contains(rec.log, ct[:32]) && bytes.Contains(rec.log, ct[32:48]), "salt or IV differs", "salt %x IV %x, the default source gave %x", ct[:32], ct[32:48], rec.log)
	i, j := bytes.Index(rec.log, ct[:32]), bytes.Index(rec.log, ct[32:48])
	c.Check(j >= i+32 || j+16 <= i, "random bytes used twice", "salt %x and IV %x overlap in the bytes drawn %x", ct[:32], ct[32:48], rec.log)
}

func c11process(c *C) {
	var l ledger
	for p := 0; p < 3; p++ {
		for _, line := range helper(c, "salts") {
			h, err := hex.DecodeString(line)
			c.Check(err == nil && len(h) == 48, "helper", "helper printed %q", line)
			c.Eval(h)
			l.add(c, h, fmt.Sprintf("salt and IV of process %d", p))
			c.Hit("default:other-process")
		}
	}
}

// ---- C12 ----

func (c *C) sharedKey(bc *crypto.Ed25519BlockCipher, priv, pub, salt []byte) []byte {
	gs, gp := c.guard(salt), c.guard(pub)
	k, err := bc.GetSharedKey(crypto.NewPrivateKey(append([]byte(nil), priv...)), crypto.NewPublicKey(gp.B), gs.B)
	gs.check(c, "GetSharedKey(salt)")
	gp.check(c, "GetSharedKey(public key)")
	c.Eval(priv, pub, salt)
	want, werr := ref.SharedKey(priv, pub, salt)
	if werr != nil {
		panic(werr)
	}
	if err != nil || !bytes.Equal(k, want) {
		c.Fail("shared key differs", "GetSharedKey(%x, %x, salt %x) = %x, %v, want %x", priv, pub, salt, k, err, want)
	}
	return k
}

func (c *C) anyCipher() *crypto.Ed25519BlockCipher {
	a := newPair(c, c.R.Bytes(32))
	return crypto.NewEd25519BlockCipher(a, a, nil)
}

func (c *C) salt() []byte {
	switch c.R.Intn(5) {
	case 0:
		return make([]byte, 32)
	case 1:
		return bytes.Repeat([]byte{0xff}, 32)
	}
	return c.R.Bytes(32)
}

func c12sides(c *C) {
	a, b := c.privBytes(), c.privBytes()
	if c.R.Intn(10) == 0 {
		b = a
	}
	fa, _ := c.pairFor(a)
	fb, _ := c.pairFor(b)
	salt := c.salt()
	k1 := c.sharedKey(crypto.NewEd25519BlockCipher(fa, fb, nil), a, fb.PublicKey.Raw, salt)
	k2 := c.sharedKey(crypto.NewEd25519BlockCipher(fb, fa, nil), b, fa.PublicKey.Raw, salt)
	c.Check(bytes.Equal(k1, k2), "sides differ", "private keys %x and %x salt %x: %x and %x", a, b, salt, k1, k2)
	c.Sample("private keys %x and %x salt %x", a, b, salt)
}

func c12peers(c *C) {
	c.sharedKey(c.anyCipher(), c.privBytes(), c.peerPub(), c.salt())
}

func c12invalid(c *C) {
	bc := c.anyCipher()
	priv := crypto.NewPrivateKey(c.R.Bytes(32))
	salt := c.salt()
	var pub []byte
	switch c.Idx % 3 {
	case 0:
		pub = c.badPub()
		c.Hit("invalid:no-point")
	case 1:
		pub = c.R.Bytes(c.Idx / 3 % 70)
		if len(pub) == 32 {
			pub = pub[1:]
		}
		c.Hit("invalid:length")
	case 2:
		pub = ref.Public(c.R.Bytes(32))
		salt = salt[:c.R.Intn(32)]
		if len(salt) == 0 && c.R.Bool() {
			salt = nil
		}
		c.Hit("invalid:salt")
	}
	c.Eval(pub, salt)
	wantErr(c, fmt.Sprintf("GetSharedKey for the public key %x and salt %x", pub, salt), func() ([]byte, error) {
		return bc.GetSharedKey(priv, crypto.NewPublicKey(pub), salt)
	})
}

// c12depends: flipping any single bit of the salt, or taking another peer,
// changes the key.
func c12depends(c *C) {
	bc := c.anyCipher()
	a, pub, salt := c.R.Bytes(32), ref.Public(c.R.Bytes(32)), c.R.Bytes(32)
	seen := map[string]string{string(c.sharedKey(bc, a, pub, salt)): "the original"}
	for n := 0; n < 64; n++ {
		s := append([]byte(nil), salt...)
		bit := (c.Idx*64 + n) % 256
		s[bit/8] ^= 1 << uint(bit%8)
		k := string(c.sharedKey(bc, a, pub, s))
		if o, ok := seen[k]; ok {
			c.Fail("shared key repeats", "salt %x with bit %d flipped gives the same shared key as %s", salt, bit, o)
		}
		seen[k] = fmt.Sprintf("bit %d flipped", bit)
		c.Hit("depends:salt-bit")
	}
	for n := 0; n < 8; n++ {
		k := string(c.sharedKey(bc, a, ref.Public(c.R.Bytes(32)), salt))
		if _, ok := seen[k]; ok {
			c.Fail("shared key repeats", "another peer gives the same shared key")
		}
		seen[k] = "peer"
		c.Hit("depends:peer")
	}
}
