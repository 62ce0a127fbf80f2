package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"

	crypto "github.com/proximax-storage/go-xpx-crypto"

	"verifmon/ref"
)

func init() {
	register(&Prop{
		ID:   "C24",
		Rule: "a case is a script of constructor and provider calls on recording engines (or predefined engines over a recorded random source); the call log decides who was asked, with what, and what came back; non-trivial when the script's data is new",
		Fams: func(t *Tier) []Fam {
			return []Fam{
				{Name: "signer", N: t.N(4000, 100000), Fn: c24signer, Floor: map[string]int64{"call:Sign": 500, "call:Verify": 500, "call:IsCanonicalSignature": 300, "call:MakeSignatureCanonical": 300, "passed:error": 300, "repeated:data": 500, "repeated:signature": 500}},
				{Name: "cipher", N: t.N(3000, 100000), Fn: c24cipher, Floor: map[string]int64{"call:Encrypt": 300, "call:Decrypt": 300, "passed:error": 300}},
				{Name: "key-pair", N: t.N(4000, 100000), Fn: c24keyPair, Floor: map[string]int64{"call:DerivePublicKey": 300, "analyzer:true": 300, "analyzer:false": 300, "call:GenerateKeyPair": 300}},
				{Name: "script", N: t.N(700, 20000), Fn: c24script, Floor: map[string]int64{"script:step": 5000}},
				{Name: "predefined", Serial: true, N: t.N(160, 3000), Fn: c24predefined, Floor: map[string]int64{"predefined:compared": 500}},
				{Name: "default-substituted", Serial: true, N: t.N(120, 2000), Fn: c24substituted, Needs: []string{"engine.seeded"}, Floor: map[string]int64{"substituted": 100}},
				{Name: "seeded", Serial: true, N: t.N(120, 2000), Fn: c24seeded, Needs: []string{"engine.seeded"}, Floor: map[string]int64{"seeded:drawn": 300}},
			}
		},
	})
}

// rcall is one call that reached a recording engine.
type rcall struct {
	who  string // engine and provider
	what string
	args string
}

type rlog struct {
	calls []rcall
	data  [][]byte // arguments used before
	sigs  []*crypto.Signature
	keys  [][]byte
}

// again returns, half of the time, data used before instead of fresh: the same
// slice, or equal content elsewhere. What was asked once is asked again, and the
// engine answers anew.
func (c *C) again(old *[][]byte, fresh []byte) []byte {
	if len(*old) > 0 && c.R.Bool() {
		c.Hit("repeated:data")
		b := (*old)[c.R.Intn(len(*old))]
		if c.R.Bool() && b != nil {
			b = append([]byte{}, b...)
		}
		return b
	}
	*old = append(*old, fresh)
	return fresh
}

func (c *C) againSig(l *rlog) *crypto.Signature {
	if len(l.sigs) > 0 && c.R.Bool() {
		c.Hit("repeated:signature")
		s := l.sigs[c.R.Intn(len(l.sigs))]
		if s != nil && c.R.Bool() {
			s = &crypto.Signature{R: append([]byte{}, s.R...), S: append([]byte{}, s.S...)}
		}
		return s
	}
	s := c.fakeSig()
	l.sigs = append(l.sigs, s)
	return s
}

func (l *rlog) add(who, what, format string, a ...interface{}) {
	l.calls = append(l.calls, rcall{who, what, fmt.Sprintf(format, a...)})
}

func (l *rlog) String() string {
	s := ""
	for _, c := range l.calls {
		s += fmt.Sprintf("  %s.%s(%s)\n", c.who, c.what, c.args)
	}
	return s
}

// recEngine is an engine of our own; its providers answer from the rng.
type recEngine struct {
	name string
	c    *C
	l    *rlog
	n    int
	// answers of the next call
	sig  *crypto.Signature
	ok   bool
	out  []byte
	pub  *crypto.PublicKey
	pair *crypto.KeyPair
	err  error
}

func kpName(k *crypto.KeyPair) string {
	if k == nil {
		return "nil"
	}
	return fmt.Sprintf("%p", k)
}

func (e *recEngine) who(kind string) string {
	e.n++
	return fmt.Sprintf("%s/%s%d", e.name, kind, e.n)
}

func (e *recEngine) CreateDsaSigner(k *crypto.KeyPair) crypto.DsaSigner {
	w := e.who("signer")
	e.l.add(e.name, "CreateDsaSigner", "%s", kpName(k))
	return &recSigner{e, w, k}
}

func (e *recEngine) CreateKeyGenerator() crypto.KeyGenerator {
	w := e.who("generator")
	e.l.add(e.name, "CreateKeyGenerator", "")
	return &recGen{e, w}
}

func (e *recEngine) CreateBlockCipher(s, r *crypto.KeyPair) crypto.BlockCipher {
	w := e.who("cipher")
	e.l.add(e.name, "CreateBlockCipher", "%s, %s", kpName(s), kpName(r))
	return &recCipher{e, w}
}

func (e *recEngine) CreateKeyAnalyzer() crypto.KeyAnalyzer {
	w := e.who("analyzer")
	e.l.add(e.name, "CreateKeyAnalyzer", "")
	return &recAnalyzer{e, w}
}

type recSigner struct {
	e *recEngine
	w string
	k *crypto.KeyPair
}

func sigStr(s *crypto.Signature) string {
	if s == nil {
		return "nil"
	}
	return fmt.Sprintf("%x/%x", s.R, s.S)
}

func (s *recSigner) Sign(m []byte) (*crypto.Signature, error) {
	s.e.l.add(s.w, "Sign", "%x", m)
	return s.e.sig, s.e.err
}
func (s *recSigner) Verify(m []byte, g *crypto.Signature) bool {
	s.e.l.add(s.w, "Verify", "%x, %s", m, sigStr(g))
	return s.e.ok
}
func (s *recSigner) IsCanonicalSignature(g *crypto.Signature) bool {
	s.e.l.add(s.w, "IsCanonicalSignature", "%s", sigStr(g))
	return s.e.ok
}
func (s *recSigner) MakeSignatureCanonical(g *crypto.Signature) (*crypto.Signature, error) {
	s.e.l.add(s.w, "MakeSignatureCanonical", "%s", sigStr(g))
	return s.e.sig, s.e.err
}

type recGen struct {
	e *recEngine
	w string
}

func (g *recGen) GenerateKeyPair() (*crypto.KeyPair, error) {
	g.e.l.add(g.w, "GenerateKeyPair", "")
	return g.e.pair, g.e.err
}
func (g *recGen) DerivePublicKey(k *crypto.PrivateKey) *crypto.PublicKey {
	g.e.l.add(g.w, "DerivePublicKey", "%x", k.Raw)
	return g.e.pub
}

type recCipher struct {
	e *recEngine
	w string
}

func (b *recCipher) Encrypt(m []byte) ([]byte, error) {
	b.e.l.add(b.w, "Encrypt", "%x", m)
	return b.e.out, b.e.err
}
func (b *recCipher) Decrypt(m []byte) ([]byte, error) {
	b.e.l.add(b.w, "Decrypt", "%x", m)
	return b.e.out, b.e.err
}

type recAnalyzer struct {
	e *recEngine
	w string
}

func (a *recAnalyzer) IsKeyCompressed(k *crypto.PublicKey) bool {
	a.e.l.add(a.w, "IsKeyCompressed", "%x", k.Raw)
	return a.e.ok
}

func (c *C) newRec(name string, l *rlog) *recEngine { return &recEngine{name: name, c: c, l: l} }

type recErr struct{ s string }

func (e *recErr) Error() string { return e.s }

// answers draws what the providers answer next.
func (e *recEngine) answers() {
	c := e.c
	e.ok = c.R.Bool()
	e.sig, e.out, e.pair, e.err = nil, nil, nil, nil
	e.pub = crypto.NewPublicKey(c.R.Bytes([]int{32, 32, 0, 5, 33, 64}[c.R.Intn(6)]))
	if c.R.Intn(3) == 0 {
		e.err = []error{&recErr{"engine failure"}, io.EOF, errors.New(""), fmt.Errorf("wrapped: %w", io.ErrUnexpectedEOF)}[c.R.Intn(4)]
	}
	// results together with an error, and missing results, are passed as well
	if e.err == nil || c.R.Intn(3) == 0 {
		e.sig = &crypto.Signature{R: c.R.Bytes(c.R.Intn(40)), S: c.R.Bytes(c.R.Intn(40))}
		e.out = c.R.Bytes(c.R.Intn(70))
		e.pair = &crypto.KeyPair{PrivateKey: crypto.NewPrivateKey(c.R.Bytes(c.R.Intn(40))), PublicKey: e.pub}
		if c.R.Intn(5) == 0 {
			e.pair.PrivateKey = nil
		}
	}
}

// one runs f and requires exactly one provider call, of that name and
// arguments, on a provider of the engine.
func (c *C) one(e *recEngine, what, args string, f func()) {
	n := len(e.l.calls)
	noPanic(c, what, f)
	k := 0
	for _, r := range e.l.calls[n:] {
		switch {
		case r.what == what:
			k++
			c.Check(len(r.who) > len(e.name) && r.who[:len(e.name)+1] == e.name+"/", "wrong engine", "%s was given to %s instead of a provider of %s:\n%s", what, r.who, e.name, e.l)
			c.Check(r.args == args, "data changed", "%s was called with (%s), want (%s)", what, r.args, args)
		case len(r.what) > 6 && r.what[:6] == "Create":
		default:
			c.Fail("wrong call", "%s instead of %s:\n%s", r.what, what, e.l)
		}
	}
	c.Check(k == 1, "wrong call", "%s reached the provider %d times:\n%s", what, k, e.l)
	c.Hit("call:" + what)
	if e.err != nil {
		c.Hit("passed:error")
	}
}

// created requires that between n and now the engine was asked for the
// provider with these arguments, and nobody else for anything.
func (c *C) created(e *recEngine, n int, what, args string) {
	k := 0
	for _, r := range e.l.calls[n:] {
		if r.who == e.name && r.what == what && r.args == args {
			k++
			continue
		}
		c.Fail("wrong call", "%s.%s(%s) while %s.%s(%s) was expected:\n%s", r.who, r.what, r.args, e.name, what, args, e.l)
	}
	c.Check(k >= 1, "engine not asked", "%s was not asked for %s(%s):\n%s", e.name, what, args, e.l)
}

func (c *C) fakePair() *crypto.KeyPair {
	k := &crypto.KeyPair{PrivateKey: crypto.NewPrivateKey(c.R.Bytes(32)), PublicKey: crypto.NewPublicKey(c.R.Bytes(32))}
	if c.R.Intn(4) == 0 {
		k.PrivateKey = nil
	}
	return k
}

func (c *C) fakeSig() *crypto.Signature {
	if c.R.Intn(10) == 0 {
		return nil
	}
	return &crypto.Signature{R: c.R.Bytes(c.R.Intn(40)), S: c.R.Bytes(c.R.Intn(40))}
}

func (c *C) sameSig(e *recEngine, s *crypto.Signature, err error, what string) {
	c.Check(sigStr(s) == sigStr(e.sig) && (s == nil) == (e.sig == nil), "result changed", "%s returns %s, the provider returned %s", what, sigStr(s), sigStr(e.sig))
	c.Check(err == e.err, "error changed", "%s returns the error %v, the provider returned %v", what, err, e.err)
}

// signerStep makes one call on a signer over the engine.
func (c *C) signerStep(e *recEngine, s signerOf) {
	e.answers()
	m, g := c.again(&e.l.data, c.msg(c.R.Intn(60))), c.againSig(e.l)
	switch c.R.Intn(4) {
	case 0:
		c.one(e, "Sign", fmt.Sprintf("%x", m), func() {
			r, err := s.Sign(m)
			c.sameSig(e, r, err, "Sign")
		})
	case 1:
		c.one(e, "Verify", fmt.Sprintf("%x, %s", m, sigStr(g)), func() {
			r := s.Verify(m, g)
			c.Check(r == e.ok, "result changed", "Verify returns %v, the provider %v", r, e.ok)
		})
	case 2:
		c.one(e, "IsCanonicalSignature", sigStr(g), func() {
			r := s.IsCanonicalSignature(g)
			c.Check(r == e.ok, "result changed", "IsCanonicalSignature returns %v, the provider %v", r, e.ok)
		})
	case 3:
		c.one(e, "MakeSignatureCanonical", sigStr(g), func() {
			r, err := s.MakeSignatureCanonical(g)
			c.sameSig(e, r, err, "MakeSignatureCanonical")
		})
	}
	c.Eval(m)
}

func c24signer(c *C) {
	l := &rlog{}
	e := c.newRec("engine", l)
	k := c.fakePair()
	var s signerOf
	if c.R.Intn(4) == 0 {
		s = crypto.NewSigner(&recSigner{e, e.who("own signer"), k})
	} else {
		s = crypto.NewSignerFromKeyPair(k, e)
		c.created(e, 0, "CreateDsaSigner", kpName(k))
	}
	for n := 1 + c.R.Intn(8); n > 0; n-- {
		c.signerStep(e, s)
	}
	c.Sample("signer calls:\n%s", l)
}

func (c *C) cipherStep(e *recEngine, b crypto.BlockCipher) {
	e.answers()
	m := c.again(&e.l.data, c.msg(c.R.Intn(90)))
	f, what := b.Encrypt, "Encrypt"
	if c.R.Bool() {
		f, what = b.Decrypt, "Decrypt"
	}
	c.one(e, what, fmt.Sprintf("%x", m), func() {
		r, err := f(m)
		c.Check(bytes.Equal(r, e.out) && (r == nil) == (e.out == nil), "result changed", "%s returns %x, the provider %x", what, r, e.out)
		c.Check(err == e.err, "error changed", "%s returns the error %v, the provider %v", what, err, e.err)
	})
	c.Eval(m)
}

func c24cipher(c *C) {
	l := &rlog{}
	e := c.newRec("engine", l)
	s, r := c.fakePair(), c.fakePair()
	if c.R.Intn(8) == 0 {
		r = s
	}
	b := crypto.NewBlockCipher(s, r, e)
	c.created(e, 0, "CreateBlockCipher", kpName(s)+", "+kpName(r))
	for n := 1 + c.R.Intn(8); n > 0; n-- {
		c.cipherStep(e, b)
	}
}

func (c *C) keyPairStep(e *recEngine) {
	e.answers()
	switch c.R.Intn(3) {
	case 0:
		raw := c.again(&e.l.keys, c.R.Bytes(c.R.Intn(40)))
		k := crypto.NewPrivateKey(append([]byte(nil), raw...))
		// whether the derived key is examined is up to the engine's analyzer
		e.ok = true
		n := len(e.l.calls)
		var kp *crypto.KeyPair
		var err error
		noPanic(c, "NewKeyPair", func() { kp, err = crypto.NewKeyPair(k, nil, e) })
		derived := 0
		for _, r := range e.l.calls[n:] {
			c.Check(r.who == e.name || r.who[:len(e.name)+1] == e.name+"/", "wrong engine", "%s asked:\n%s", r.who, e.l)
			if r.what == "DerivePublicKey" {
				derived++
				c.Check(r.args == fmt.Sprintf("%x", raw), "data changed", "DerivePublicKey was called with %s instead of %x", r.args, raw)
			}
		}
		c.Check(derived == 1, "engine not asked", "the public key was derived %d times by the engine:\n%s", derived, e.l)
		c.Check(err == nil && kp != nil && bytes.Equal(kp.PublicKey.Raw, e.pub.Raw) && kp.PrivateKey != nil && bytes.Equal(kp.PrivateKey.Raw, raw) && kp.HasPrivateKey(), "result changed", "key pair of %x with the engine's public key %x: %v %v", raw, e.pub.Raw, kp, err)
		c.Hit("call:DerivePublicKey")
		c.Eval(raw)
	case 1:
		raw := c.again(&e.l.keys, c.R.Bytes([]int{32, 32, 31, 33, 0, 64}[c.R.Intn(6)]))
		var k *crypto.PrivateKey
		if c.R.Bool() {
			k = crypto.NewPrivateKey(c.R.Bytes(32))
		}
		n := len(e.l.calls)
		var kp *crypto.KeyPair
		var err error
		noPanic(c, "NewKeyPair", func() { kp, err = crypto.NewKeyPair(k, crypto.NewPublicKey(append([]byte(nil), raw...)), e) })
		asked := 0
		for _, r := range e.l.calls[n:] {
			if r.what == "IsKeyCompressed" && r.who[:len(e.name)+1] == e.name+"/" {
				asked++
				c.Check(r.args == fmt.Sprintf("%x", raw), "data changed", "IsKeyCompressed was called with %s instead of %x", r.args, raw)
				continue
			}
			c.Check(r.who == e.name && r.what[:6] == "Create", "wrong call", "%s.%s:\n%s", r.who, r.what, e.l)
		}
		c.Check(asked >= 1, "engine not asked", "the analyzer of the engine was not asked:\n%s", e.l)
		c.Check((err == nil) == e.ok, "result changed", "the analyzer says %v about %x, NewKeyPair gives the error %v", e.ok, raw, err)
		if e.ok {
			c.Check(kp != nil && bytes.Equal(kp.PublicKey.Raw, raw) && kp.PrivateKey == k && kp.HasPrivateKey() == (k != nil), "result changed", "key pair for the public key %x: %v", raw, kp)
			c.Hit("analyzer:true")
		} else {
			c.Check(kp == nil, "result changed", "a key pair together with an error")
			c.Hit("analyzer:false")
		}
		c.Eval(raw)
	case 2:
		n := len(e.l.calls)
		var kp *crypto.KeyPair
		var err error
		noPanic(c, "NewKeyPairByEngine", func() { kp, err = crypto.NewKeyPairByEngine(e) })
		gen := 0
		for _, r := range e.l.calls[n:] {
			if r.what == "GenerateKeyPair" {
				gen++
			}
		}
		c.Check(gen == 1, "engine not asked", "the engine generated %d key pairs:\n%s", gen, e.l)
		c.Check(kp == e.pair && err == e.err, "result changed", "NewKeyPairByEngine returns (%p, %v), the engine (%p, %v)", kp, err, e.pair, e.err)
		c.Hit("call:GenerateKeyPair")
		c.Eval([]byte(fmt.Sprint(c.Idx, c.R.U64())))
	}
}

func c24keyPair(c *C) {
	e := c.newRec("engine", &rlog{})
	for n := 1 + c.R.Intn(6); n > 0; n-- {
		c.keyPairStep(e)
	}
}

// c24script interleaves objects of several engines.
func c24script(c *C) {
	l := &rlog{}
	var es []*recEngine
	type obj struct {
		e *recEngine
		s signerOf
		b crypto.BlockCipher
	}
	var objs []obj
	for i := 0; i < 3; i++ {
		es = append(es, c.newRec(fmt.Sprintf("engine%d", i), l))
	}
	for n := 0; n < 16; n++ {
		e := es[c.R.Intn(3)]
		switch {
		case c.R.Intn(3) == 0 || len(objs) == 0:
			k, r := c.fakePair(), c.fakePair()
			at := len(l.calls)
			if c.R.Bool() {
				objs = append(objs, obj{e: e, s: crypto.NewSignerFromKeyPair(k, e)})
				c.created(e, at, "CreateDsaSigner", kpName(k))
			} else {
				objs = append(objs, obj{e: e, b: crypto.NewBlockCipher(k, r, e)})
				c.created(e, at, "CreateBlockCipher", kpName(k)+", "+kpName(r))
			}
		case c.R.Intn(4) == 0:
			c.keyPairStep(e)
		default:
			o := objs[c.R.Intn(len(objs))]
			if o.s != nil {
				c.signerStep(o.e, o.s)
			} else {
				c.cipherStep(o.e, o.b)
			}
		}
		c.Hit("script:step")
	}
	c.Sample("script over three engines, %d calls", len(l.calls))
}

// transcript runs one script with providers of an engine (nil: the one the
// library chooses) over a recorded random source.
func (c *C) transcript(seed string, eng crypto.CryptoEngine, direct bool, a, b, m []byte) string {
	rec := &recorder{r: newRng("transcript", seed)}
	undo := rec.install()
	defer undo()
	out := ""
	add := func(format string, v ...interface{}) { out += fmt.Sprintf(format+"\n", v...) }
	mk := func(p []byte) *crypto.PrivateKey { return crypto.NewPrivateKey(append([]byte(nil), p...)) }
	var ka, kb *crypto.KeyPair
	var err error
	if direct && eng != nil {
		ka = &crypto.KeyPair{PrivateKey: mk(a), PublicKey: eng.CreateKeyGenerator().DerivePublicKey(mk(a))}
	} else {
		ka, err = crypto.NewKeyPair(mk(a), nil, eng)
	}
	add("pair %v %v", ka, err)
	kb, err = crypto.NewKeyPair(mk(b), nil, eng)
	add("pair %v %v", kb, err)
	for _, n := range []int{31, 32, 33, 0, 64} {
		k, err := crypto.NewKeyPair(nil, crypto.NewPublicKey(bytes.Repeat([]byte{7}, n)), eng)
		add("public %d: %v %v", n, k != nil, err)
	}
	var s signerOf = crypto.NewSignerFromKeyPair(ka, eng)
	if direct && eng != nil {
		s = eng.CreateDsaSigner(ka)
	}
	sig, err := s.Sign(m)
	add("sign %s %v", sigStr(sig), err)
	add("verify %v", s.Verify(m, sig))
	bad := mkSig(sigBytes(sig))
	bad.S[31] |= 0xf0
	add("canonical %v %v", s.IsCanonicalSignature(sig), s.IsCanonicalSignature(bad))
	sig, err = s.MakeSignatureCanonical(bad)
	add("make canonical %s %v", sigStr(sig), err)
	blind := crypto.NewSignerFromKeyPair(&crypto.KeyPair{PublicKey: ka.PublicKey}, eng)
	_, err = blind.Sign(m)
	add("blind %v", err)
	var bc crypto.BlockCipher = crypto.NewBlockCipher(ka, kb, eng)
	if direct && eng != nil {
		bc = eng.CreateBlockCipher(ka, kb)
	}
	ct, err := bc.Encrypt(m)
	add("encrypt %x %v", ct, err)
	pt, err := crypto.NewBlockCipher(ka, kb, eng).Decrypt(ct)
	add("decrypt %x %v", pt, err)
	pt, err = bc.Decrypt(ct[:len(ct)-1])
	add("decrypt %x %v", pt, err)
	var kp *crypto.KeyPair
	if eng == nil {
		kp, err = crypto.NewRandomKeyPair()
	} else if direct {
		kp, err = eng.CreateKeyGenerator().GenerateKeyPair()
	} else {
		kp, err = crypto.NewKeyPairByEngine(eng)
	}
	add("generate %v %v %v", kp.PrivateKey, kp.PublicKey, err)
	add("drawn %x", rec.log)
	c.Eval([]byte(out), bl(direct))
	return out
}

func c24predefined(c *C) {
	seed := fmt.Sprint(c.R.U64())
	a, b, m := c.privBytes(), c.privBytes(), c.msg(c.msgLen(300))
	E := &crypto.CryptoEngines
	want := c.transcript(seed, nil, false, a, b, m)
	for i, v := range []struct {
		e      crypto.CryptoEngine
		direct bool
		n      string
	}{{E.DefaultEngine, false, "default engine"}, {E.Ed25519Engine, false, "Ed25519 engine"}, {E.DefaultEngine, true, "default engine, providers asked directly"}, {E.Ed25519Engine, true, "Ed25519 engine, providers asked directly"}} {
		if got := c.transcript(seed, v.e, v.direct, a, b, m); got != want {
			c.Fail("engines differ", "without an engine:\n%s\n%s:\n%s", want, v.n, got)
		}
		_ = i
		c.Hit("predefined:compared")
	}
	// and the results are those of the scheme
	sg := ref.Sign(a, ref.Public(a), m)
	if !bytes.Contains([]byte(want), []byte(fmt.Sprintf("sign %x/%x", sg[:32], sg[32:]))) {
		c.Fail("engines differ", "the engines do not sign with Ed25519:\n%s", want)
	}
	c.Sample("five transcripts of %d bytes", len(want))
}

// untouched gives an error when the default source is used meanwhile.
func (c *C) untouched(f func()) {
	rec := &recorder{r: newRng("untouched")}
	undo := rec.install()
	defer undo()
	f()
	if len(rec.log) > 0 {
		c.Fail("wrong source", "%d bytes were drawn from the default source, although the engine has its own", len(rec.log))
	}
}

func c24substituted(c *C) {
	old := crypto.CryptoEngines.DefaultEngine
	src := &source{r: c.R, failAt: -1, chunk: c.R.Intn(nChunks), data: c.R.Bytes(512)}
	eng, ok := must[func(io.Reader) crypto.CryptoEngine]("engine.seeded")(src).(*crypto.Ed25519SeedCryptoEngine)
	if !ok {
		return
	}
	crypto.CryptoEngines.DefaultEngine = eng
	defer func() { crypto.CryptoEngines.DefaultEngine = old }()
	a, b, m := c.R.Bytes(32), c.R.Bytes(32), c.msg(c.R.Intn(50))
	c.untouched(func() {
		switch c.Idx % 2 {
		case 0:
			kp, err := crypto.NewRandomKeyPair()
			if err != nil || kp == nil || !bytes.Equal(kp.PrivateKey.Raw, src.data[:32]) {
				c.Fail("wrong source", "NewRandomKeyPair with a substituted default engine gives %v %v, the source %x", kp, err, src.data[:32])
			}
		case 1:
			ct, err := crypto.NewBlockCipher(newPair(c, a), c.pubPair(ref.Public(b)), nil).Encrypt(m)
			if err != nil {
				c.Fail("Encrypt error", "%v", err)
			}
			c.header(ct, src.data[:48], src.reads)
		}
	})
	c.Eval(a, m)
	c.Hit("substituted")
	// a failing default engine is used all the same
	crypto.CryptoEngines.DefaultEngine = must[func(io.Reader) crypto.CryptoEngine]("engine.seeded")(&source{r: c.R, failAt: 0}).(*crypto.Ed25519SeedCryptoEngine)
	kp, err := crypto.NewRandomKeyPair()
	c.Check(err != nil && kp == nil, "wrong source", "NewRandomKeyPair does not use the substituted default engine: %v %v", kp, err)
	ct, err := crypto.NewBlockCipher(newPair(c, a), c.pubPair(ref.Public(b)), nil).Encrypt(m)
	c.Check(err != nil && ct == nil, "wrong source", "NewBlockCipher does not use the substituted default engine: %x %v", ct, err)
	// and everything with an engine of its own is not affected
	kp, err = crypto.NewKeyPairByEngine(crypto.CryptoEngines.Ed25519Engine)
	c.Check(err == nil && kp != nil, "wrong source", "the other engine fails as well: %v", err)
}

// c24seeded: several seeded engines, each provider draws from its own source.
func c24seeded(c *C) {
	mk := must[func(io.Reader) crypto.CryptoEngine]("engine.seeded")
	type se struct {
		s *source
		e crypto.CryptoEngine
		b crypto.BlockCipher
		g crypto.KeyGenerator
	}
	a, b := c.R.Bytes(32), c.R.Bytes(32)
	ka, kb := newPair(c, a), newPair(c, b)
	var l []*se
	for i := 0; i < 3; i++ {
		s := &source{r: c.R, failAt: -1, chunk: c.R.Intn(nChunks), data: c.R.Bytes(2048)}
		x := &se{s: s, e: mk(s)}
		x.b = crypto.NewBlockCipher(ka, kb, x.e)
		x.g = x.e.CreateKeyGenerator()
		l = append(l, x)
	}
	c.untouched(func() {
		for n := 0; n < 8; n++ {
			x := l[c.R.Intn(3)]
			var pos []int
			for _, y := range l {
				pos = append(pos, y.s.pos)
			}
			x.s.zeros = 0
			k := 0
			switch c.R.Intn(4) {
			case 0, 1:
				var kp *crypto.KeyPair
				var err error
				if c.R.Bool() {
					kp, err = x.g.GenerateKeyPair()
				} else {
					kp, err = crypto.NewKeyPairByEngine(x.e)
				}
				p := x.s.pos - 32
				c.Check(p >= 0 && err == nil && bytes.Equal(kp.PrivateKey.Raw, x.s.data[p:p+32]), "wrong source", "the key pair of a seeded engine is not what its source gave: %v %v", kp, err)
				k = 32
			case 2:
				ct, err := x.b.Encrypt(a)
				p := x.s.pos - 48
				c.Check(p >= 0 && err == nil, "wrong source", "Encrypt: %v", err)
				c.header(ct, x.s.data[p:p+48], x.s.reads)
				k = 48
			case 3:
				ct, err := crypto.NewBlockCipher(kb, ka, x.e).Encrypt(nil)
				p := x.s.pos - 48
				c.Check(p >= 0 && err == nil, "wrong source", "Encrypt: %v", err)
				c.header(ct, x.s.data[p:p+48], x.s.reads)
				k = 48
			}
			for i, y := range l {
				want := pos[i]
				if y == x {
					want += k
				}
				c.Check(y.s.pos == want, "wrong source", "engine %d had given %d bytes, now %d, want %d", i, pos[i], y.s.pos, want)
			}
			c.Hit("seeded:drawn")
		}
	})
	c.Eval(a, l[0].s.data[:32])
}
