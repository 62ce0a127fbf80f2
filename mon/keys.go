package main

import (
	"bytes"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"math/big"
	"strings"

	crypto "github.com/proximax-storage/go-xpx-crypto"

	"verifmon/ref"
)

func init() {
	register(&Prop{
		ID:   "C06",
		Rule: "a case is one derivation of a public key on one construction path, compared with the reference encoding of the clamped scalar times the base point; non-trivial when (key, path) is new",
		Fams: func(t *Tier) []Fam {
			return []Fam{
				{Name: "paths", N: t.N(24000, 300000), Fn: c06paths, Floor: map[string]int64{"pair:generator": 100, "pair:bigint": 100, "pair:hex": 100, "pair:hex-upper": 100, "derive:odd-hex": 20, "key:leading-zeros": 100}},
				{Name: "structured", N: t.N(4200, 16900), Fn: c06structured},
				{Name: "extreme-digits", N: t.N(400, 8000), Fn: c06extreme, Floor: map[string]int64{"digits:extreme": 400}},
				{Name: "odd-lengths", N: t.N(1000, 10000), Fn: c06odd},
				{Name: "public-only", N: t.N(2000, 20000), Fn: c06pub, Floor: map[string]int64{"pubonly": 1000}},
				{Name: "history", N: t.N(40, 1000), Fn: focused([]int{4, 11, 11}, "history derive", "history NewKeyPair")},
				{Name: "related", N: t.N(300, 8000), Fn: pairsOf(0)},
				{Name: "objects", N: t.N(200, 4000), Fn: objectsOf(0)},
				{Name: "twins", N: t.N(300, 8000), Fn: c06twins, Floor: map[string]int64{"twins": 2000}},
				{Name: "repeated", N: 2, Fn: longOf(12000, 200000, longKeys)},
			}
		},
	})
	register(&Prop{
		ID:   "C07",
		Rule: "a case is one key generation from a scripted random source (fault kind, fault position, chunking) or from the default source; the read log decides which bytes the key must consist of; non-trivial when (script, bytes) is new",
		Fams: func(t *Tier) []Fam {
			return []Fam{
				// every fault position 0..40 x every fault kind x every chunking
				{Name: "faults", N: 41 * nFaults * nChunks * t.N(1, 12), Fn: c07faults, Floor: map[string]int64{"gen:error": 1000, "gen:ok": 200}},
				{Name: "consecutive", N: t.N(800, 10000), Fn: c07consecutive, Floor: map[string]int64{"gen:consecutive": 2000}},
				{Name: "patterns", N: t.N(1500, 20000), Fn: c07patterns, Floor: map[string]int64{"gen:pattern": 5000}},
				{Name: "engine", N: t.N(600, 6000), Fn: c07engine, Needs: []string{"engine.seeded"}},
				{Name: "default", N: t.N(64, 800), Fn: c07default},
				{Name: "default-reader", Serial: true, N: t.N(60, 400), Fn: c07reader},
				{Name: "processes", Serial: true, N: 1, Fn: c07process},
			}
		},
		After: c07after,
	})
	register(&Prop{
		ID:   "C14",
		Rule: "a case is one encoding or decoding of a key compared with encoding/hex and math/big; non-trivial when the input is new; accepted and refused inputs are both required",
		Fams: func(t *Tier) []Fam {
			return []Fam{
				{Name: "round-trip", N: t.N(150000, 1500000), Fn: c14round, Floor: map[string]int64{"key:leading-zeros": 500, "round:bigint": 1000}},
				{Name: "zeros", N: 33 * 33, Fn: c14zeros},
				{Name: "lengths", N: t.N(2100, 8400), Fn: c14lengths, Floor: map[string]int64{"hex:accepted": 50, "hex:refused": 1000}},
				{Name: "characters", N: 64 * 2, Fn: c14chars, Floor: map[string]int64{"hexchar:refused": 20000, "hexchar:accepted": 1000}},
				{Name: "unicode", N: t.N(20000, 200000), Fn: c14unicode},
				{Name: "compressed", N: t.N(600, 1200), Fn: c14compressed, Floor: map[string]int64{"pair:refused": 200}},
			}
		},
	})
}

// ---- C06 ----

func (c *C) checkPub(what string, got, want, priv []byte) {
	c.Eval([]byte(what), priv)
	if !bytes.Equal(got, want) {
		c.Fail("public key differs", "%s of private key %s is %x, want %x", what, hx(priv), got, want)
	}
}

func c06check(c *C, priv []byte) {
	want := ref.Public(priv)
	kp, path := c.pairFor(priv)
	c.checkPub(path, kp.PublicKey.Raw, want, priv)
	c.Check(kp.HasPrivateKey(), "HasPrivateKey", "a pair with private key %s (%s) reports none", hx(priv), path)
	if kp.PrivateKey != nil {
		c.Check(bytes.Equal(kp.PrivateKey.Raw, priv), "private key differs", "the pair of private key %s (%s) holds %x", hx(priv), path, kp.PrivateKey.Raw)
	}
	// deriving again, directly
	var gen crypto.KeyGenerator
	switch c.R.Intn(4) {
	case 0:
		gen = crypto.NewEd25519KeyGenerator(nil)
	case 1:
		gen = crypto.CryptoEngines.DefaultEngine.CreateKeyGenerator()
	case 2:
		gen = crypto.CryptoEngines.Ed25519Engine.CreateKeyGenerator()
	case 3:
		gen = crypto.NewEd25519KeyGenerator(bytes.NewReader(nil))
	}
	pk := gen.DerivePublicKey(crypto.NewPrivateKey(append([]byte(nil), priv...)))
	c.checkPub("derive", pk.Raw, want, priv)
	if kp.PrivateKey != nil {
		c.checkPub("derive again", gen.DerivePublicKey(kp.PrivateKey).Raw, want, priv)
	}
	// the scalar itself
	if a, _ := ref.Clamp(priv); true {
		sc := crypto.PrepareForScalarMultiply(crypto.NewPrivateKey(append([]byte(nil), priv...)))
		c.Check(bytes.Equal(sc.Raw, a), "scalar differs", "PrepareForScalarMultiply(%s) = %x, want %x", hx(priv), sc.Raw, a)
	}
	c.Sample("%s %s -> %x", path, hx(priv), want)
}

func c06paths(c *C) {
	priv := c.privBytes()
	c06check(c, priv)
	if len(priv) == 32 && priv[0] < 16 {
		s := fmt.Sprintf("%x", priv)[1:]
		k, err := crypto.NewPrivateKeyfromHexString(s)
		c.Check(err == nil && k != nil, "odd hex refused", "NewPrivateKeyfromHexString(%q): %v", s, err)
		kp, err := crypto.NewKeyPair(k, nil, nil)
		c.Check(err == nil && kp != nil, "NewKeyPair", "NewKeyPair: %v", err)
		c.checkPub("odd hex", kp.PublicKey.Raw, ref.Public(priv), priv)
		c.Hit("derive:odd-hex")
	}
}

func c06structured(c *C) {
	priv := make([]byte, 32)
	i := c.Idx
	switch {
	case i < 256:
		priv[i/8] = 1 << uint(i%8)
	case i < 512:
		i -= 256
		for k := range priv {
			priv[k] = 0xff
		}
		priv[i/8] &^= 1 << uint(i%8)
	case i < 768:
		for k := range priv {
			priv[k] = byte(i)
		}
	case i < 1024:
		v := new(big.Int).Sub(pow2(uint(i-768)), one)
		copy(priv, ref.LE(v, 32))
	case i < 1280:
		v := new(big.Int).Sub(pow2(256), pow2(uint(i-1024)))
		copy(priv, ref.LE(v, 32))
	case i < 1600:
		v := bn(int64(i - 1280))
		v.FillBytes(priv)
	default:
		i -= 1600
		priv[i%32] = byte(i / 32)
		if i/32 > 255 {
			priv[c.R.Intn(32)] = byte(c.R.U64())
		}
	}
	c06check(c, priv)
}

// c06extreme searches (reference hash only) keys whose clamped scalar has
// rare digits and derives those.
func c06extreme(c *C) {
	priv := c.R.Bytes(32)
	best, bestScore := []byte(nil), -1
	kind := c.Idx % 8
	for n := 0; n < 3000; n++ {
		priv[0], priv[1] = byte(n), byte(n>>8)
		a, _ := ref.Clamp(priv)
		if s := digitScore(a, kind); s > bestScore {
			bestScore, best = s, append([]byte(nil), priv...)
		}
	}
	c.Hit("digits:extreme")
	c.HitN(fmt.Sprintf("digits:best-of-kind-%d", kind), bestScore)
	c06check(c, best)
}

// digitScore rates how extreme the nibbles of a scalar are.
func digitScore(a []byte, kind int) (s int) {
	nib := make([]int, 64)
	for i, v := range a {
		nib[2*i], nib[2*i+1] = int(v&15), int(v>>4)
	}
	run, best := 0, 0
	longest := func(p func(int) bool) int {
		for _, v := range nib {
			if p(v) {
				run++
			} else {
				run = 0
			}
			if run > best {
				best = run
			}
		}
		return best
	}
	count := func(p func(int) bool) (k int) {
		for _, v := range nib {
			if p(v) {
				k++
			}
		}
		return
	}
	switch kind {
	case 0:
		return longest(func(v int) bool { return v == 15 || v == 7 })
	case 1:
		return longest(func(v int) bool { return v == 0 })
	case 2:
		return count(func(v int) bool { return v == 8 })
	case 3:
		return longest(func(v int) bool { return v >= 8 })
	case 4:
		return longest(func(v int) bool { return v < 8 })
	case 5: // a[31] = 0x7f, 0x40 and high run
		if a[31] == 0x7f {
			s = 100
		}
		for i := 30; i >= 0 && a[i] == 0xff; i-- {
			s += 100
		}
		return s + int(a[30])
	case 6:
		if a[31] == 0x40 {
			s = 1000
		}
		return s + 255 - int(a[30])
	}
	if a[0] == 0 {
		s = 1000
	}
	return s + 255 - int(a[1])
}

func c06odd(c *C) {
	raw := c.R.Bytes(c.Idx % 200)
	want := ref.Public(raw)
	kp := newPair(c, raw)
	c.checkPub("length "+fmt.Sprint(len(raw)), kp.PublicKey.Raw, want, raw)
	v := new(big.Int).SetBytes(raw)
	if len(raw) >= 32 && (len(raw) == 32 || raw[0] != 0) {
		kp2, err := crypto.NewKeyPair(crypto.NewPrivateKeyFromBigInt(v), nil, nil)
		c.Check(err == nil, "NewKeyPair", "NewKeyPair: %v", err)
		c.checkPub("bigint length "+fmt.Sprint(len(raw)), kp2.PublicKey.Raw, want, raw)
	}
}

func c06pub(c *C) {
	pub := ref.Public(c.R.Bytes(32))
	if c.R.Intn(4) == 0 {
		pub = c.R.Bytes(32)
	}
	pk := crypto.NewPublicKey(append([]byte(nil), pub...))
	if c.R.Bool() {
		var err error
		pk, err = crypto.NewPublicKeyfromHex(fmt.Sprintf("%x", pub))
		c.Check(err == nil, "NewPublicKeyfromHex", "NewPublicKeyfromHex(%x): %v", pub, err)
	}
	var eng crypto.CryptoEngine
	if c.R.Bool() {
		eng = crypto.CryptoEngines.Ed25519Engine
	}
	kp, err := crypto.NewKeyPair(nil, pk, eng)
	c.Check(err == nil && kp != nil, "NewKeyPair", "NewKeyPair(nil, %x): %v", pub, err)
	c.Eval(pub)
	c.Check(!kp.HasPrivateKey() && kp.PrivateKey == nil, "HasPrivateKey", "a pair of public key %x alone reports a private key", pub)
	c.Check(kp.PublicKey != nil && bytes.Equal(kp.PublicKey.Raw, pub), "public key differs", "a pair of public key %x holds %v", pub, kp.PublicKey)
	c.Hit("pubonly")
}

// ---- C07 ----

var errSource = errors.New("scripted failure of the random source")

const (
	nFaults = 6
	nChunks = 5
)

// source is a scripted random source with a read log.
type source struct {
	data   []byte
	pos    int // bytes handed out
	failAt int // fault once pos reaches failAt; negative: never
	kind   int
	chunk  int
	once   bool // the source works again after one failure
	r      *Rng
	reads  []string
	failed int
	zeros  int
}

func (s *source) err() error {
	switch s.kind % nFaults {
	case 1, 3:
		return io.EOF
	case 4:
		return io.ErrUnexpectedEOF
	case 5:
		return fmt.Errorf("wrapped: %w", errSource)
	}
	return errSource
}

func (s *source) Read(p []byte) (n int, err error) {
	defer func() {
		s.pos += n
		if len(s.reads) < 80 {
			s.reads = append(s.reads, fmt.Sprintf("Read(%d) = %d, %v", len(p), n, err))
		}
	}()
	if len(p) == 0 {
		return 0, nil
	}
	failing := s.failAt >= 0 && !(s.once && s.failed > 0)
	if failing && s.pos >= s.failAt {
		s.failed++
		return 0, s.err()
	}
	n = len(p)
	switch s.chunk % nChunks {
	case 1:
		n = 1
	case 2:
		n = 1 + s.r.Intn(len(p))
	case 3:
		if n > 5 {
			n = 5
		}
	case 4:
		// an empty read now and then is allowed
		if s.zeros < 5 && s.r.Intn(3) == 0 {
			s.zeros++
			return 0, nil
		}
		n = (len(p) + 1) / 2
	}
	if failing && s.pos+n >= s.failAt {
		n = s.failAt - s.pos
		// kinds 2, 3: the error comes together with the last bytes
		if k := s.kind % nFaults; k == 2 || k == 3 {
			s.failed++
			err = s.err()
		}
	}
	if s.pos+n > len(s.data) {
		panic("source: harness ran out of bytes")
	}
	copy(p, s.data[s.pos:s.pos+n])
	return n, err
}

// checkPairOf checks a generated pair against the bytes it must consist of.
func (c *C) checkPairOf(kp *crypto.KeyPair, err error, want []byte, log []string) {
	if err != nil || kp == nil {
		c.Fail("generation failed", "generation from 32 good bytes fails: %v\n%s", err, strings.Join(log, "\n"))
	}
	c.Check(kp.HasPrivateKey() && kp.PublicKey != nil, "incomplete pair", "a generated pair lacks a key")
	if !bytes.Equal(kp.PrivateKey.Raw, want) {
		c.Fail("private key differs", "generated private key %x, the source gave %x\n%s", kp.PrivateKey.Raw, want, strings.Join(log, "\n"))
	}
	if w := ref.Public(want); !bytes.Equal(kp.PublicKey.Raw, w) {
		c.Fail("public key differs", "generated public key %x of private key %x, want %x", kp.PublicKey.Raw, want, w)
	}
}

func c07gen(c *C, s *source, gen crypto.KeyGenerator) {
	start := s.pos
	s.once = c.R.Intn(3) == 0
	kp, err := gen.GenerateKeyPair()
	if s.failAt >= 0 && s.failAt-start < 32 {
		if s.once {
			c.Hit("gen:error-once")
		}
		c.Hit("gen:error")
		c.Check(err != nil, "failure swallowed", "the source fails after %d bytes (kind %d), but generation reports no error\n%s", s.failAt-start, s.kind%nFaults, strings.Join(s.reads, "\n"))
		c.Check(kp == nil, "pair with error", "generation returns a pair and an error")
		return
	}
	c.Hit("gen:ok")
	c.checkPairOf(kp, err, s.data[start:start+32], s.reads)
}

func c07faults(c *C) {
	i := c.Idx
	s := &source{r: c.R, failAt: i % 41, kind: i / 41 % nFaults, chunk: i / 41 / nFaults % nChunks, data: c.R.Bytes(128)}
	c.Eval(s.data, []byte{byte(s.failAt), byte(s.kind), byte(s.chunk)})
	c.Hit(fmt.Sprintf("fault:kind%d", s.kind))
	c.Hit(fmt.Sprintf("fault:chunk%d", s.chunk))
	gen := crypto.NewEd25519KeyGenerator(s)
	c07gen(c, s, gen)
	if c.R.Bool() {
		// the source recovers: the next key is whole again
		s.data = append(s.data, c.R.Bytes(64)...)
		s.failAt = -1
		start := s.pos
		kp, err := gen.GenerateKeyPair()
		c.checkPairOf(kp, err, s.data[start:start+32], s.reads)
		c.Hit("gen:recovered")
	}
	c.Sample("fault kind %d after %d bytes, chunking %d: %v", s.kind, s.failAt, s.chunk, s.reads)
}

func c07consecutive(c *C) {
	s := &source{r: c.R, failAt: -1, chunk: c.R.Intn(nChunks), data: c.R.Bytes(4096)}
	if c.R.Intn(4) == 0 {
		for i := range s.data[:32*(1+c.R.Intn(8))] {
			s.data[i] = byte(c.R.Intn(2)) * 0xff
		}
	}
	gens := []crypto.KeyGenerator{crypto.NewEd25519KeyGenerator(s)}
	for n := 2 + c.R.Intn(6); n > 0; n-- {
		if c.R.Intn(3) == 0 {
			gens = append(gens, crypto.NewEd25519KeyGenerator(s))
		}
		c.Eval(s.data[s.pos : s.pos+32])
		s.zeros = 0
		c07gen(c, s, gens[c.R.Intn(len(gens))])
		c.Hit("gen:consecutive")
	}
	// and one that fails somewhere
	s.failAt = s.pos + c.R.Intn(34)
	s.kind = c.R.Intn(nFaults)
	c07gen(c, s, gens[c.R.Intn(len(gens))])
}

func c07engine(c *C) {
	s := &source{r: c.R, failAt: -1, chunk: c.R.Intn(nChunks), data: c.R.Bytes(256)}
	if c.R.Bool() {
		s.failAt = c.R.Intn(64)
		s.kind = c.R.Intn(nFaults)
	}
	eng := must[func(io.Reader) crypto.CryptoEngine]("engine.seeded")(s)
	c.Eval(s.data[:32], []byte{byte(s.failAt)})
	start := s.pos
	kp, err := crypto.NewKeyPairByEngine(eng)
	if s.failAt >= 0 && s.failAt < 32 {
		c.Check(err != nil && kp == nil, "failure swallowed", "NewKeyPairByEngine: the source fails after %d bytes, result %v, %v\n%s", s.failAt, kp, err, strings.Join(s.reads, "\n"))
		return
	}
	c.checkPairOf(kp, err, s.data[start:start+32], s.reads)
}

func genDefault(c *C) *crypto.KeyPair {
	var kp *crypto.KeyPair
	var err error
	switch c.R.Intn(5) {
	case 0:
		kp, err = crypto.NewRandomKeyPair()
	case 1:
		kp, err = crypto.NewKeyPairByEngine(crypto.CryptoEngines.DefaultEngine)
	case 2:
		kp, err = crypto.NewKeyPairByEngine(crypto.CryptoEngines.Ed25519Engine)
	case 3:
		kp, err = crypto.NewEd25519KeyGenerator(nil).GenerateKeyPair()
	case 4:
		kp, err = crypto.CryptoEngines.DefaultEngine.CreateKeyGenerator().GenerateKeyPair()
	}
	if err != nil || kp == nil || kp.PrivateKey == nil || kp.PublicKey == nil {
		c.Fail("generation failed", "generating a key pair from the default source: %v", err)
	}
	c.Check(len(kp.PrivateKey.Raw) == 32, "key length", "a generated private key has %d bytes", len(kp.PrivateKey.Raw))
	return kp
}

var freshKeys ledger

// c07default: many goroutines (the families' workers) generate at once.
func c07default(c *C) {
	for n := 0; n < 100; n++ {
		kp := genDefault(c)
		k := kp.PrivateKey.Raw
		c.Eval(k)
		c.Hit("gen:default")
		freshKeys.add(c, k, "generated private key")
		if n%8 == 0 {
			c.Check(bytes.Equal(kp.PublicKey.Raw, ref.Public(k)), "public key differs", "generated public key %x of %x", kp.PublicKey.Raw, k)
		}
	}
}

func c07after(c *C) { freshKeys.spread(c, 32, "generated private keys") }

// c07reader exchanges the default source for a recording one. Only a library
// that consults it is judged.
func c07reader(c *C) {
	rec := &recorder{r: c.R}
	restore := rec.install()
	defer restore()
	kp := genDefault(c)
	restore()
	c.Eval(rec.log)
	if len(rec.log) == 0 {
		c.Hit("default-reader:not-consulted")
		return
	}
	c.Hit("default-reader:consulted")
	if len(rec.log) < 32 {
		c.Fail("short draw", "a key was generated from %d bytes of the default source", len(rec.log))
	}
	c.Check(bytes.Contains(rec.log, kp.PrivateKey.Raw), "private key differs", "generated private key %x, the default source gave %x", kp.PrivateKey.Raw, rec.log)
}

// c07process: fresh processes do not repeat each other's keys.
func c07process(c *C) {
	var l ledger
	for p := 0; p < 3; p++ {
		for _, line := range helper(c, "keys") {
			k, err := hex.DecodeString(line)
			c.Check(err == nil && len(k) == 32, "helper", "helper printed %q", line)
			c.Eval(k)
			l.add(c, k, fmt.Sprintf("private key generated in process %d", p))
			c.Hit("gen:other-process")
		}
	}
}

// ---- C14 ----

func c14round(c *C) {
	raw := c.privBytes()
	if c.R.Intn(4) == 0 {
		raw[0] &= 15
	}
	c.Eval(raw)
	low := hex.EncodeToString(raw)
	text := c.anyCase(low)
	k, err := crypto.NewPrivateKeyfromHexString(text)
	c.Check(err == nil && k != nil && bytes.Equal(k.Raw, raw), "private hex", "NewPrivateKeyfromHexString(%q): %v, %v", text, k, err)
	c.Check(strings.EqualFold(k.String(), low), "private String", "String of private key %x is %q", raw, k.String())
	k2, err := crypto.NewPrivateKeyfromHexString(crypto.NewPrivateKey(append([]byte(nil), raw...)).String())
	c.Check(err == nil && bytes.Equal(k2.Raw, raw), "private round trip", "private key %x does not survive its hex string: %v", raw, err)

	p, err := crypto.NewPublicKeyfromHex(text)
	c.Check(err == nil && p != nil && bytes.Equal(p.Raw, raw), "public hex", "NewPublicKeyfromHex(%q): %v, %v", text, p, err)
	c.Check(strings.EqualFold(p.String(), low), "public String", "String of public key %x is %q", raw, p.String())
	p2, err := crypto.NewPublicKeyfromHex(crypto.NewPublicKey(append([]byte(nil), raw...)).String())
	c.Check(err == nil && bytes.Equal(p2.Raw, raw), "public round trip", "public key %x does not survive its hex string: %v", raw, err)
	if f, ok := bridge[func(*crypto.PublicKey) string]("pk.hex"); ok {
		c.Check(strings.EqualFold(f(p), low), "public hex string", "hex of public key %x is %q", raw, f(p))
	}

	v := new(big.Int).SetBytes(raw)
	b := crypto.NewPrivateKeyFromBigInt(new(big.Int).Set(v))
	c.Check(bytes.Equal(b.Raw, raw), "private big integer", "NewPrivateKeyFromBigInt(%x).Raw = %x", raw, b.Raw)
	c.Check(strings.EqualFold(b.String(), low), "private big integer String", "String of NewPrivateKeyFromBigInt(%x) = %q", raw, b.String())
	c.Hit("round:bigint")
	if raw[0] < 16 {
		k, err := crypto.NewPrivateKeyfromHexString(text[1:])
		c.Check(err == nil && bytes.Equal(k.Raw, raw), "odd private hex", "NewPrivateKeyfromHexString(%q): %v, %v", text[1:], k, err)
		p, err := crypto.NewPublicKeyfromHex(text[1:])
		c.Check(err == nil && bytes.Equal(p.Raw, raw), "odd public hex", "NewPublicKeyfromHex(%q): %v, %v", text[1:], p, err)
		c.Hit("round:odd")
	}
	c.Sample("%s", text)
}

func (c *C) anyCase(s string) string {
	switch c.R.Intn(3) {
	case 0:
		return s
	case 1:
		return strings.ToUpper(s)
	}
	b := []byte(s)
	for i := range b {
		if c.R.Bool() {
			b[i] = strings.ToUpper(string(b[i]))[0]
		}
	}
	return string(b)
}

// c14zeros: every number of leading and of trailing zero bytes.
func c14zeros(c *C) {
	lead, trail := c.Idx/33, c.Idx%33
	raw := make([]byte, 32)
	for i := lead; i < 32-trail; i++ {
		raw[i] = byte(1 + c.R.Intn(255))
	}
	c.Eval(raw)
	b := crypto.NewPrivateKeyFromBigInt(new(big.Int).SetBytes(raw))
	c.Check(bytes.Equal(b.Raw, raw), "private big integer", "NewPrivateKeyFromBigInt(%x).Raw = %x", raw, b.Raw)
	for _, s := range []string{b.String(), crypto.NewPrivateKey(raw).String(), crypto.NewPublicKey(raw).String()} {
		k, err := crypto.NewPrivateKeyfromHexString(s)
		c.Check(err == nil && bytes.Equal(k.Raw, raw), "private round trip", "key %x: hex string %q gives %v, %v", raw, s, k, err)
		p, err := crypto.NewPublicKeyfromHex(s)
		c.Check(err == nil && bytes.Equal(p.Raw, raw), "public round trip", "key %x: hex string %q gives %v, %v", raw, s, p, err)
	}
}

func c14parse(c *C, s string, class string) {
	want, ok := []byte(nil), false
	t := s
	if len(t)%2 == 1 {
		t = "0" + t
	}
	if b, err := hex.DecodeString(t); err == nil && len(b) == 32 {
		want, ok = b, true
	}
	c.Eval([]byte(s))
	noPanic(c, fmt.Sprintf("decoding %q", s), func() {
		k, err := crypto.NewPrivateKeyfromHexString(s)
		p, err2 := crypto.NewPublicKeyfromHex(s)
		if ok {
			c.Hit(class + ":accepted")
			c.Check(err == nil && k != nil && bytes.Equal(k.Raw, want), "private hex", "NewPrivateKeyfromHexString(%q): %v, %v", s, k, err)
			c.Check(err2 == nil && p != nil && bytes.Equal(p.Raw, want), "public hex", "NewPublicKeyfromHex(%q): %v, %v", s, p, err2)
		} else {
			c.Hit(class + ":refused")
			c.Check(err != nil && k == nil, "private hex accepted", "NewPrivateKeyfromHexString(%q) gives %v, %v", s, k, err)
			c.Check(err2 != nil && p == nil, "public hex accepted", "NewPublicKeyfromHex(%q) gives %v, %v", s, p, err2)
		}
	})
}

func c14lengths(c *C) {
	n := c.Idx % 210
	switch c.R.Intn(4) {
	case 0:
		n = 62 + c.R.Intn(5)
	}
	s := c.anyCase(hex.EncodeToString(c.R.Bytes(n/2 + 1))[:n])
	if c.R.Intn(5) == 0 {
		s = strings.Repeat("0", n)
	}
	c14parse(c, s, "hex")
}

func c14chars(c *C) {
	n := 63 + c.Idx/64
	pos := c.Idx % 64
	if pos >= n {
		return
	}
	for ch := 0; ch < 256; ch++ {
		b := []byte(hex.EncodeToString(c.R.Bytes(32))[:n])
		b[pos] = byte(ch)
		c14parse(c, string(b), "hexchar")
	}
}

func c14unicode(c *C) {
	s := hex.EncodeToString(c.R.Bytes(32))
	ins := []string{" ", "\n", "\x00", "0x", "0X", "+", "-", "_", "é", "０", "ａ", "\t", "٣", "g", ":", "\u200b", "\xff\xfe"}[c.R.Intn(17)]
	pos := []int{0, 64, c.R.Intn(65)}[c.R.Intn(3)]
	switch c.R.Intn(3) {
	case 0: // inserted
		s = s[:pos] + ins + s[pos:]
	case 1: // replaced, same length if possible
		if pos+len(ins) <= 64 {
			s = s[:pos] + ins + s[pos+len(ins):]
		} else {
			s = s[:64-len(ins)] + ins
		}
	case 2: // two hex strings, or one cut short
		s = s[:pos] + ins + s
	}
	c14parse(c, s, "unicode")
}

func c14compressed(c *C) {
	n := c.Idx % 100
	raw := c.R.Bytes(n)
	if n == 0 && c.R.Bool() {
		raw = nil
	}
	pk := crypto.NewPublicKey(raw)
	var priv *crypto.PrivateKey
	if c.R.Bool() {
		priv = crypto.NewPrivateKey(c.R.Bytes(32))
	}
	var eng crypto.CryptoEngine
	if c.R.Bool() {
		eng = crypto.CryptoEngines.DefaultEngine
	}
	c.Eval(raw)
	noPanic(c, fmt.Sprintf("NewKeyPair with a public key of %d bytes", n), func() {
		kp, err := crypto.NewKeyPair(priv, pk, eng)
		if n == 32 {
			c.Check(err == nil && kp != nil && bytes.Equal(kp.PublicKey.Raw, raw), "pair refused", "NewKeyPair refuses the public key %x: %v", raw, err)
			c.Hit("pair:accepted")
		} else {
			c.Check(err != nil && kp == nil, "pair accepted", "NewKeyPair accepts a public key of %d bytes", n)
			c.Hit("pair:refused")
		}
	})
	c.Check(crypto.NewEd25519KeyAnalyzer().IsKeyCompressed(pk) == (n == 32), "IsKeyCompressed", "IsKeyCompressed of %d bytes", n)
	c.Check(crypto.CryptoEngines.DefaultEngine.CreateKeyAnalyzer().IsKeyCompressed(pk) == (n == 32), "IsKeyCompressed", "IsKeyCompressed of %d bytes", n)
}
