package main

import (
	"bytes"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"math/big"
	"runtime"
	"time"

	crypto "github.com/proximax-storage/go-xpx-crypto"

	"verifmon/ref"
)

func init() {
	register(&Prop{
		ID:   "C26",
		Rule: "a case is a history of operations on objects that live through it (or are built over buffers used before); every step's result is compared with a reference that has no state; non-trivial when the history's arguments are new",
		Fams: func(t *Tier) []Fam {
			return []Fam{
				{Name: "long", N: len(longOps), Fn: c26long, Floor: map[string]int64{"long:steps": 100000}},
				{Name: "random", N: t.N(220, 8000), Fn: c26random, Floor: map[string]int64{
					"h:sign": 500, "h:verify:true": 300, "h:verify:false": 300, "h:encrypt": 200, "h:encrypt:failed": 30, "h:decrypt": 100, "h:decrypt:refused": 50,
					"h:shared": 100, "h:derive": 200, "h:hash": 300, "h:reused-key-buffer": 100, "h:reused-buffer": 1000, "h:related": 1000, "h:in-place": 50}},
				{Name: "all-operations", N: t.N(200, 8000), Fn: c26all, Floor: map[string]int64{"all:steps": 5000}},
				{Name: "objects", N: t.N(6*29*6, 6*29*60), Fn: c26objects, Floor: map[string]int64{"objects": 900}},
				{Name: "pairs", N: t.N(700, 30000), Fn: c26pairs, Floor: map[string]int64{"pairs:compared": 1500}},
			}
		},
	})
}

// related gives data that has much in common with b and the same length or nearly.
func (c *C) related(b []byte, fixed bool) []byte {
	r := append([]byte{}, b...)
	n := len(r)
	if n == 0 {
		if fixed {
			return r
		}
		return c.R.Bytes(1)
	}
	k := 9
	if fixed {
		k = 7
	}
	switch c.R.Intn(k) {
	case 0: // one bit
		r[c.R.Intn(n)] ^= 1 << uint(c.R.Intn(8))
	case 1: // last byte
		r[n-1]++
	case 2: // first byte
		r[0]++
	case 3: // two bytes swapped
		i, j := c.R.Intn(n), c.R.Intn(n)
		r[i], r[j] = r[j], r[i]
	case 4: // equal sum
		i, j := c.R.Intn(n), c.R.Intn(n)
		r[i]++
		r[j]--
	case 5: // tail differs
		c.R.Fill(r[c.R.Intn(n):])
	case 6: // head differs
		c.R.Fill(r[:1+c.R.Intn(n)])
	case 7:
		r = append(r, 0)
	case 8:
		r = r[:n-1]
	}
	c.Hit("h:related")
	return r
}

// scriptReader gives random bytes, or fails when told to.
type scriptReader struct {
	c    *C
	fail int // fails after so many bytes, -1 never
}

func (s *scriptReader) Read(p []byte) (int, error) {
	if s.fail == 0 {
		return 0, errors.New("source fails")
	}
	n := len(p)
	if s.fail > 0 && n > s.fail {
		n = s.fail
	}
	s.c.R.Fill(p[:n])
	if s.fail > 0 {
		s.fail -= n
	}
	return n, nil
}

type actor struct {
	priv, pub []byte
	kp, pubKP *crypto.KeyPair
	signers   []signerOf
	verifiers []signerOf
}

type sigRec struct {
	a   *actor
	msg []byte
	sig *crypto.Signature
	raw []byte
}

type cipherRec struct {
	a, b *actor
	bc   crypto.BlockCipher
	ed   *crypto.Ed25519BlockCipher
	rd   *scriptReader
	full bool // the recipient's pair has a private key
}

type hist struct {
	c       *C
	actors  []*actor
	ciphers []*cipherRec
	sigs    []*sigRec
	cts     [][]byte
	ctOf    []*cipherRec
	ctMsg   [][]byte
	msgs    [][]byte
	salts   [][]byte
	buf     [3][]byte // reused for arguments
	kb, pb  []byte    // reused for keys
	sb      []byte    // reused for signatures
	gen     *crypto.Ed25519KeyGenerator
	focus   []int // steps preferred
	cur     int   // running step
}

// arg passes data in a fresh slice or in a buffer that held other data before.
func (h *hist) arg(k int, b []byte) []byte {
	if h.c.R.Intn(3) == 0 {
		return append([]byte{}, b...)
	}
	h.c.Hit("h:reused-buffer")
	if len(h.buf[k]) < len(b) {
		h.buf[k] = make([]byte, 2*len(b)+64)
	}
	h.c.R.Fill(h.buf[k][:])
	n := copy(h.buf[k], b)
	return h.buf[k][:n]
}

func (h *hist) newActor(priv []byte) *actor {
	c := h.c
	a := &actor{priv: priv, pub: ref.Public(priv)}
	a.kp, _ = c.pairFor(priv)
	a.pubKP = c.pubPair(a.pub)
	for i := 0; i < 2; i++ {
		a.signers = append(a.signers, c.signer(a.kp))
		a.verifiers = append(a.verifiers, c.signer(a.pubKP))
	}
	a.verifiers = append(a.verifiers, a.signers...)
	h.actors = append(h.actors, a)
	return a
}

func (h *hist) newCipher(a, b *actor) *cipherRec {
	r := &cipherRec{a: a, b: b}
	bk := b.pubKP
	if h.c.R.Bool() {
		bk, r.full = b.kp, true
	}
	if h.c.R.Bool() {
		r.rd = &scriptReader{h.c, -1}
		r.ed = crypto.NewEd25519BlockCipher(a.kp, bk, r.rd)
		r.bc = r.ed
	} else {
		r.bc = h.c.newCipher(a.kp, bk)
		r.ed, _ = r.bc.(*crypto.Ed25519BlockCipher)
	}
	h.ciphers = append(h.ciphers, r)
	return r
}

func (h *hist) msg() []byte {
	c := h.c
	var m []byte
	if len(h.msgs) > 0 && c.R.Bool() {
		m = h.msgs[c.R.Intn(len(h.msgs))]
		if c.R.Bool() {
			m = c.related(m, false)
		}
	} else {
		m = c.R.Bytes(c.R.Intn(130))
	}
	h.msgs = append(h.msgs, m)
	if len(h.msgs) > 12 {
		h.msgs = h.msgs[1:]
	}
	return m
}

func (h *hist) sign(a *actor, s signerOf, m []byte) {
	c := h.c
	sig, err := s.Sign(h.arg(0, m))
	c.Logf("sign %s with %x", hx(m), a.priv)
	want := ref.Sign(a.priv, a.pub, m)
	c.Check(err == nil && len(sig.R) == 32 && len(sig.S) == 32 && bytes.Equal(sigBytes(sig), want), "history sign", "signature of %s by %x is %s (%v), without the history it is %x", hx(m), a.priv, sigText(sig), err, want)
	c.Hit("h:sign")
	c.Eval([]byte("sign"), a.priv, m)
	if c.R.Intn(8) == 0 { // spoil what was returned
		c.R.Fill(sig.R)
		c.R.Fill(sig.S)
		sig = mkSig(want)
	}
	h.sigs = append(h.sigs, &sigRec{a, m, sig, want})
	if len(h.sigs) > 16 {
		h.sigs = h.sigs[1:]
	}
}

func sigText(s *crypto.Signature) string {
	if s == nil {
		return "nil"
	}
	return fmt.Sprintf("%x/%x", s.R, s.S)
}

func (h *hist) verify(s signerOf, pub, m []byte, sig *crypto.Signature, raw []byte, how string) {
	c := h.c
	got := s.Verify(h.arg(0, m), sig)
	want := ref.Verify(pub, m, raw)
	c.Logf("verify %x of %s under %x (%s): %v", raw, hx(m), pub, how, got)
	key := "history verify"
	if !want {
		key = "history forged"
	}
	c.Check(got == want, key, "Verify(%s, %x) under %x gives %v (%s), without the history it gives %v", hx(m), raw, pub, got, how, want)
	c.Hit(fmt.Sprint("h:verify:", want))
	c.Eval([]byte("verify"), pub, m, raw)
}

func (h *hist) cipherOf() *cipherRec { return h.ciphers[h.c.R.Intn(len(h.ciphers))] }

func (h *hist) step() {
	c := h.c
	a := h.actors[c.R.Intn(len(h.actors))]
	h.cur = c.R.Intn(16)
	if len(h.focus) > 0 && c.R.Intn(10) < 7 {
		h.cur = h.focus[c.R.Intn(len(h.focus))]
	}
	switch h.cur {
	case 0, 1:
		h.sign(a, a.signers[c.R.Intn(len(a.signers))], h.msg())
	case 2, 3: // verify an earlier signature, changed in some way or not
		if len(h.sigs) == 0 {
			h.sign(a, a.signers[0], h.msg())
		}
		r := h.sigs[c.R.Intn(len(h.sigs))]
		v := r.a.verifiers[c.R.Intn(len(r.a.verifiers))]
		pub, m, sig, raw := r.a.pub, r.msg, r.sig, r.raw
		how := "as signed"
		switch c.R.Intn(7) {
		case 0:
			m = h.msg()
			how = "other message"
		case 1:
			pub, v = a.pub, a.verifiers[c.R.Intn(len(a.verifiers))]
			how = "other key"
		case 2: // the same object with other content, then restored
			i, x := c.R.Intn(32), byte(1)<<uint(c.R.Intn(8))
			f := sig.R
			if c.R.Bool() {
				f = sig.S
			}
			f[i] ^= x
			h.verify(v, pub, m, sig, sigBytes(sig), "changed in place")
			f[i] ^= x
			c.Hit("h:in-place")
			how = "restored in place"
		case 3: // over a buffer that held another signature
			raw = append([]byte{}, raw...)
			if c.R.Bool() {
				raw = c.related(raw, true)
			}
			copy(h.sb, raw)
			sig = &crypto.Signature{R: h.sb[:32], S: h.sb[32:64]}
			if c.R.Bool() {
				var err error
				sig, err = crypto.NewSignatureFromBytes(h.sb[:64])
				c.Check(err == nil, "history NewSignatureFromBytes", "NewSignatureFromBytes(%x): %v", h.sb[:64], err)
			}
			how = "in a reused buffer"
		case 4:
			n := c.R.Intn(64)
			raw = append([]byte{}, raw...)
			raw[n] ^= 1 << uint(c.R.Intn(8))
			sig = mkSig(raw)
			how = "changed"
		}
		h.verify(v, pub, m, sig, raw, how)
	case 4: // keys built over a buffer that held another key
		src := a.priv
		if c.R.Bool() {
			src = c.R.Bytes(32)
		}
		priv := c.related(src, true)
		copy(h.kb, priv)
		b := &actor{priv: priv, pub: ref.Public(priv)}
		copy(h.pb, b.pub)
		kp, err := crypto.NewKeyPair(crypto.NewPrivateKey(h.kb), crypto.NewPublicKey(h.pb), nil)
		if c.R.Bool() {
			kp, err = crypto.NewKeyPair(crypto.NewPrivateKey(h.kb), nil, nil)
		}
		c.Check(err == nil, "history NewKeyPair", "NewKeyPair: %v", err)
		c.Check(bytes.Equal(kp.PublicKey.Raw, b.pub), "history derive", "public key of %x is %x, without the history it is %x", priv, kp.PublicKey.Raw, b.pub)
		s := c.signer(kp)
		m := h.msg()
		sig, err := s.Sign(h.arg(0, m))
		want := ref.Sign(priv, b.pub, m)
		c.Logf("sign %s with %x in a reused key buffer", hx(m), priv)
		c.Check(err == nil && bytes.Equal(sigBytes(sig), want), "history sign", "signature of %s by %x (key in a reused buffer) is %s, without the history it is %x", hx(m), priv, sigText(sig), want)
		vk, err := crypto.NewKeyPair(nil, crypto.NewPublicKey(h.pb), nil)
		c.Check(err == nil, "history NewKeyPair", "NewKeyPair: %v", err)
		v := c.signer(vk)
		h.verify(v, b.pub, m, mkSig(want), want, "key in a reused buffer")
		if len(h.sigs) > 0 {
			r := h.sigs[c.R.Intn(len(h.sigs))]
			h.verify(v, b.pub, r.msg, r.sig, r.raw, "key in a reused buffer, signature of another key")
		}
		c.Hit("h:reused-key-buffer")
		if c.R.Intn(3) == 0 {
			salt := c.R.Bytes(32)
			got, err := crypto.NewEd25519BlockCipher(kp, a.pubKP, nil).GetSharedKey(kp.PrivateKey, a.pubKP.PublicKey, salt)
			want, _ := ref.SharedKey(priv, a.pub, salt)
			c.Check(err == nil && bytes.Equal(got, want), "history shared key", "shared key of %x and %x, salt %x, is %x (%v), without the history it is %x", priv, a.pub, salt, got, err, want)
		}
	case 5, 6: // encrypt
		r := h.cipherOf()
		m := h.msg()
		if r.rd != nil && c.R.Intn(4) == 0 {
			r.rd.fail = c.R.Intn(48)
			ct, err := r.bc.Encrypt(h.arg(0, m))
			r.rd.fail = -1
			c.Logf("encrypt with a failing source")
			c.Check(err != nil && ct == nil, "history encrypt", "Encrypt with a failing source gives %x, %v", ct, err)
			c.Hit("h:encrypt:failed")
			return
		}
		ct, err := r.bc.Encrypt(h.arg(0, m))
		c.Logf("encrypt %s from %x to %x", hx(m), r.a.priv, r.b.pub)
		c.Check(err == nil && len(ct) >= 64, "history encrypt", "Encrypt(%s): %d bytes, %v", hx(m), len(ct), err)
		want, e := ref.Encrypt(r.a.priv, r.b.pub, ct[:32], ct[32:48], m)
		c.Check(e == nil && bytes.Equal(ct, want), "history encrypt", "%s from %x to %x encrypts to %s, without the history to %s", hx(m), r.a.priv, r.b.pub, hx(ct), hx(want))
		c.Hit("h:encrypt")
		c.Eval([]byte("encrypt"), ct)
		if c.R.Intn(8) == 0 {
			c.R.Fill(ct)
			ct = want
		}
		h.cts, h.ctOf, h.ctMsg = append(h.cts, ct), append(h.ctOf, r), append(h.ctMsg, m)
		if len(h.cts) > 8 {
			h.cts, h.ctOf, h.ctMsg = h.cts[1:], h.ctOf[1:], h.ctMsg[1:]
		}
	case 7, 8: // decrypt what came from the other side, good or bad
		r := h.cipherOf()
		m := h.msg()
		ct, err := ref.Encrypt(r.b.priv, r.a.pub, c.R.Bytes(32), c.R.Bytes(16), m)
		if err != nil {
			panic(err)
		}
		// the shared key is the same in both directions
		for k := range h.cts {
			if h.ctOf[k] == r && c.R.Bool() {
				ct, m = h.cts[k], h.ctMsg[k]
			}
		}
		if c.R.Intn(3) == 0 {
			ct = c.related(ct, false)
		}
		got, err := r.bc.Decrypt(h.arg(1, ct))
		// this object decrypts with the recipient's private key when it has one
		want, e := ref.Decrypt(r.b.priv, r.a.pub, ct)
		if !r.full {
			e, want = errors.New("no private key"), nil
		}
		c.Logf("decrypt %s: %v", hx(ct), e)
		key := "history decrypt"
		if e != nil {
			key = "history malformed"
		}
		c.Check((err == nil) == (e == nil) && bytes.Equal(got, want), key, "%s decrypts to %s, %v; without the history to %s, %v", hx(ct), hx(got), err, hx(want), e)
		if e == nil {
			c.Hit("h:decrypt")
		} else {
			c.Hit("h:decrypt:refused")
		}
		c.Eval([]byte("decrypt"), ct)
	case 9, 10: // shared keys
		r := h.cipherOf()
		bc := r.ed
		if bc == nil {
			bc = crypto.NewEd25519BlockCipher(a.kp, r.b.pubKP, nil)
		}
		salt := c.R.Bytes(32)
		if len(h.salts) > 0 && c.R.Bool() {
			salt = c.related(h.salts[c.R.Intn(len(h.salts))], true)
		}
		h.salts = append(h.salts, salt)
		b := h.actors[c.R.Intn(len(h.actors))]
		if c.R.Intn(5) == 0 {
			k, err := bc.GetSharedKey(a.kp.PrivateKey, b.kp.PublicKey, h.arg(2, salt[:c.R.Intn(32)]))
			c.Check(err != nil && k == nil, "history shared key", "short salt gives %x, %v", k, err)
		}
		if c.R.Intn(6) == 0 {
			copy(h.pb, c.offCurve())
			k, err := bc.GetSharedKey(a.kp.PrivateKey, crypto.NewPublicKey(h.pb), h.arg(2, salt))
			c.Check(err != nil && k == nil, "history shared key", "public key %x off the curve gives %x, %v", h.pb, k, err)
		}
		got, err := bc.GetSharedKey(a.kp.PrivateKey, b.kp.PublicKey, h.arg(2, salt))
		want, e := ref.SharedKey(a.priv, b.pub, salt)
		c.Logf("shared key of %x, %x, salt %x", a.priv, b.pub, salt)
		c.Check(e == nil && err == nil && bytes.Equal(got, want), "history shared key", "shared key of %x and %x, salt %x, is %x (%v), without the history it is %x", a.priv, b.pub, salt, got, err, want)
		c.Hit("h:shared")
		c.Eval([]byte("shared"), a.priv, b.pub, salt)
	case 11: // derive
		priv := a.priv
		if c.R.Bool() {
			priv = c.related(priv, true)
		}
		var got *crypto.PublicKey
		if c.R.Bool() {
			copy(h.kb, priv)
			got = h.gen.DerivePublicKey(crypto.NewPrivateKey(h.kb))
		} else {
			got = h.gen.DerivePublicKey(crypto.NewPrivateKey(append([]byte{}, priv...)))
		}
		c.Logf("derive %x", priv)
		c.Check(bytes.Equal(got.Raw, ref.Public(priv)), "history derive", "public key of %x is %x, without the history it is %x", priv, got.Raw, ref.Public(priv))
		c.Hit("h:derive")
		c.Eval([]byte("derive"), priv)
		if c.R.Intn(4) == 0 {
			c.R.Fill(got.Raw)
		}
	case 12: // hashes
		m, n := h.msg(), h.msg()
		i := c.R.Intn(5)
		var got, want []byte
		var err error
		x, y := h.arg(0, m), h.arg(1, n)
		switch i {
		case 0:
			got, err = crypto.HashesSha_256(x)
			want = ref.SHA256(m)
		case 1:
			got, err = crypto.HashesSha3_256(x)
			want = ref.SHA3_256(m)
		case 2:
			got, err = crypto.HashesKeccak_256(x)
			want = ref.Keccak256(m)
		case 3:
			got, err = crypto.HashesRipemd160(x)
			want = ref.Ripemd160(m)
		default:
			got, err = crypto.HashesSha3_512(x, y)
			want = ref.SHA3_512(m, n)
		}
		c.Check(err == nil && bytes.Equal(got, want), "history hash", "hash %d of %s and %s is %x (%v), without the history it is %x", i, hx(m), hx(n), got, err, want)
		c.Hit("h:hash")
		c.Eval([]byte{byte(i)}, m, n)
		if c.R.Bool() {
			c.R.Fill(got)
		}
	case 13: // failing operations
		for n := 1 + c.R.Intn(3); n > 0; n-- {
			h.failing(a)
		}
	case 14: // malleable signatures
		if len(h.sigs) == 0 {
			return
		}
		r := h.sigs[c.R.Intn(len(h.sigs))]
		s := ref.Big(r.raw[32:])
		k := int64(c.R.Intn(16))
		s.Add(s, new(big.Int).Mul(ref.L, bn(k)))
		if s.BitLen() > 256 {
			return
		}
		raw := append(append([]byte{}, r.raw[:32]...), ref.LE(s, 32)...)
		v := r.a.verifiers[c.R.Intn(len(r.a.verifiers))]
		sg := mkSig(raw)
		c.Check(v.IsCanonicalSignature(sg) == (k == 0), "history canonical", "IsCanonicalSignature(%x) is %v", raw, k != 0)
		m, err := v.MakeSignatureCanonical(sg)
		c.Check(err == nil && bytes.Equal(m.R, r.raw[:32]) && bytes.Equal(m.S, r.raw[32:]), "history canonical", "MakeSignatureCanonical(%x) gives %s, %v", raw, sigText(m), err)
		c.Check(sg.R != nil && bytes.Equal(sigBytes(sg), raw), "history canonical", "MakeSignatureCanonical changed its argument")
		h.verify(v, r.a.pub, r.msg, sg, raw, "S + k*L")
		c.Hit("h:canonical")
	case 15: // turnover
		switch c.R.Intn(4) {
		case 0:
			runtime.GC()
			c.Hit("h:gc")
		case 1:
			if len(h.actors) < 6 {
				h.newActor(c.related(a.priv, true))
			} else {
				h.actors = h.actors[1:]
				h.ciphers = nil
				h.cts, h.ctOf, h.ctMsg = nil, nil, nil
				h.newCipher(h.actors[0], h.actors[1])
				h.sigs = nil
			}
			c.Hit("h:new-actor")
		default:
			h.newCipher(a, h.actors[c.R.Intn(len(h.actors))])
			c.Hit("h:new-cipher")
		}
	}
}

// failing runs an operation that has to fail.
func (h *hist) failing(a *actor) {
	c := h.c
	v := a.verifiers[c.R.Intn(len(a.verifiers))]
	var err error
	bad := false
	switch c.R.Intn(9) {
	case 0:
		_, err = crypto.NewSigner(crypto.NewEd25519DsaSigner(a.pubKP)).Sign(h.arg(0, h.msg()))
	case 1:
		bad = v.Verify(h.arg(0, h.msg()), &crypto.Signature{R: c.R.Bytes(c.R.Intn(32)), S: c.R.Bytes(32)})
		err = errors.New("")
	case 2:
		_, err = crypto.NewPrivateKeyfromHexString("zz" + hex.EncodeToString(c.R.Bytes(31)))
	case 3:
		_, err = crypto.NewPublicKeyfromHex(hex.EncodeToString(c.R.Bytes(33)))
	case 4:
		_, err = crypto.NewSignatureFromBytes(c.R.Bytes(63))
	case 5:
		_, err = crypto.NewEd25519KeyGenerator(&scriptReader{c, c.R.Intn(32)}).GenerateKeyPair()
	case 6:
		e, err2 := crypto.NewEd25519EncodedGroupElement(c.offCurve())
		if err2 != nil {
			panic(err2)
		}
		_, err = e.Decode()
	case 7:
		_, err = h.cipherOf().bc.Decrypt(h.arg(0, c.R.Bytes(c.R.Intn(64))))
	case 8:
		_, err = crypto.NewEd25519BlockCipher(a.pubKP, a.kp, nil).Encrypt(h.arg(0, h.msg()))
	}
	c.Logf("failing operation: %v", err)
	c.Check(err != nil && !bad, "history failing", "an operation that has to fail succeeds")
	c.Hit("h:failing")
}

// offCurve gives 32 bytes that are no curve point.
func (c *C) offCurve() []byte {
	for {
		b := c.R.Bytes(32)
		if ref.Decode(b) == nil {
			return b
		}
	}
}

func newHist(c *C) *hist {
	return &hist{c: c, kb: make([]byte, 32), pb: make([]byte, 32), sb: make([]byte, 64), gen: crypto.NewEd25519KeyGenerator(nil)}
}

// focused makes a family of histories for the property of one operation: the
// given steps are preferred and only failures with one of the keys count,
// whatever else goes wrong belongs to other properties.
func focused(steps []int, keys ...string) func(c *C) {
	return func(c *C) {
		h := newHist(c)
		h.focus = steps
		defer func() {
			e := recover()
			if e == nil {
				return
			}
			if f, ok := e.(failure); ok {
				for _, k := range keys {
					if f.key == k {
						panic(e)
					}
				}
				return
			}
			for _, k := range steps {
				if k == h.cur {
					panic(e)
				}
			}
		}()
		h.run(60)
	}
}

// pairsOf is the family of histories of one kind of pairs.
func pairsOf(op int) func(c *C) { return func(c *C) { c.pair(op) } }

// longOf is the family of one operation many times.
func longOf(quick, deep int, fn func(c *C, n int)) func(c *C) {
	return func(c *C) {
		n := quick
		if c.T.Thorough {
			n = deep
		}
		fn(c, n)
		c.HitN("long:steps", n)
	}
}

func (h *hist) run(n int) {
	c := h.c
	p := c.privBytes()
	h.newActor(p)
	h.newActor(c.related(p, true))
	h.newActor(c.privBytes())
	h.newCipher(h.actors[0], h.actors[1])
	h.newCipher(h.actors[1], h.actors[0])
	h.newCipher(h.actors[2], h.actors[0])
	for i := 0; i < n; i++ {
		h.step()
	}
	c.Sample("history of %d steps, first key %x", n, p)
}

func c26random(c *C) {
	n := 120
	if c.T.Thorough && c.Idx%50 == 0 {
		n = 3000
	}
	newHist(c).run(n)
}

// c26all: the operations of the table on two worlds in one random sequence.
func c26all(c *C) {
	tables := c.R.Intn(6) == 0
	type ww struct {
		w     *world
		clone func() *world
		alone *world
	}
	var ws []*ww
	for i := 0; i < 2; i++ {
		w, cl := c.twoWorlds(c.R.Bool(), tables)
		ws = append(ws, &ww{w, cl, nil})
	}
	for n := 0; n < 70; n++ {
		x := ws[c.R.Intn(2)]
		o := &concOps[c.R.Intn(len(concOps))]
		if !usable(o) || o.tables && !tables {
			continue
		}
		i := c.R.Intn(4)
		got := o.run(x.w, i)
		c.Logf("%s %d", o.name, i)
		if o.norm != nil {
			got = o.norm(x.w, i, got)
		}
		var want []byte
		if o.want != nil {
			want = o.want(x.w, i)
		} else {
			if x.alone == nil {
				x.alone = x.clone()
			}
			want = o.run(x.alone, i)
		}
		c.Check(bytes.Equal(got, want), "history "+o.name, "step %d, %s, gives\n%s (%q)\non fresh objects it gives\n%s (%q)", n, o.name, hx(got), trunc(got), hx(want), trunc(want))
		c.Hit("all:steps")
		c.Eval(x.w.priv, []byte(o.name), []byte{byte(i)})
	}
}

// c26pairs: an operation right after the same operation on related arguments.
func c26pairs(c *C) { c.pair(c.Idx % 5) }

func (c *C) pair(op int) {
	type arg struct{ priv, peer, msg, salt []byte }
	a := arg{c.privBytes(), c.privBytes(), c.R.Bytes(c.R.Intn(200)), c.R.Bytes(32)}
	b := a
	switch c.R.Intn(4) {
	case 0:
		b.priv = c.related(a.priv, true)
	case 1:
		b.peer = c.related(a.peer, true)
	case 2:
		b.msg = c.related(a.msg, false)
	case 3:
		b.salt = c.related(a.salt, true)
	}
	buf := struct{ priv, pub, msg, salt, sig, ct []byte }{make([]byte, 32), make([]byte, 32), make([]byte, 256), make([]byte, 32), make([]byte, 64), make([]byte, 512)}
	reuse := c.R.Bool()
	put := func(d, s []byte) []byte {
		if reuse {
			return d[:copy(d, s)]
		}
		return append([]byte{}, s...)
	}
	for n, x := range []arg{a, b, a} {
		pub := ref.Public(x.priv)
		var got, want []byte
		var err error
		switch op {
		case 0:
			got = append([]byte{}, crypto.NewEd25519KeyGenerator(nil).DerivePublicKey(crypto.NewPrivateKey(put(buf.priv, x.priv))).Raw...)
			want = pub
		case 1:
			kp := &crypto.KeyPair{PrivateKey: crypto.NewPrivateKey(put(buf.priv, x.priv)), PublicKey: crypto.NewPublicKey(put(buf.pub, pub))}
			var s *crypto.Signature
			s, err = crypto.NewSignerFromKeyPair(kp, nil).Sign(put(buf.msg, x.msg))
			if err == nil {
				got = sigBytes(s)
			}
			want = ref.Sign(x.priv, pub, x.msg)
		case 2: // b's message and key with a's signature
			sg := ref.Sign(a.priv, ref.Public(a.priv), a.msg)
			kp := &crypto.KeyPair{PublicKey: crypto.NewPublicKey(put(buf.pub, pub))}
			s := put(buf.sig, sg)
			got = bl(crypto.NewSignerFromKeyPair(kp, nil).Verify(put(buf.msg, x.msg), &crypto.Signature{R: s[:32:32], S: s[32:]}))
			want = bl(ref.Verify(pub, x.msg, sg))
		case 3:
			q := ref.Public(x.peer)
			kp := &crypto.KeyPair{PrivateKey: crypto.NewPrivateKey(put(buf.priv, x.priv)), PublicKey: crypto.NewPublicKey(pub)}
			pk := crypto.NewPublicKey(put(buf.pub, q))
			got, err = crypto.NewEd25519BlockCipher(kp, &crypto.KeyPair{PublicKey: pk}, nil).GetSharedKey(kp.PrivateKey, pk, put(buf.salt, x.salt))
			want, _ = ref.SharedKey(x.priv, q, x.salt)
		case 4:
			q := ref.Public(x.peer)
			kp := &crypto.KeyPair{PrivateKey: crypto.NewPrivateKey(put(buf.priv, x.priv)), PublicKey: crypto.NewPublicKey(pub)}
			pk := crypto.NewPublicKey(put(buf.pub, q))
			iv := ref.SHA256(x.salt)[:16]
			want, _ = ref.Encrypt(x.priv, q, x.salt, iv, x.msg)
			got, err = crypto.NewEd25519BlockCipher(kp, &crypto.KeyPair{PublicKey: pk}, io.MultiReader(bytes.NewReader(x.salt), bytes.NewReader(iv))).Encrypt(put(buf.msg, x.msg))
		}
		c.Check(err == nil && bytes.Equal(got, want), "related arguments", "operation %d, call %d of 3 with related arguments: %s (%v), alone %s\nprivate key %x peer %x message %s salt %x", op, n, hx(got), err, hx(want), x.priv, x.peer, hx(x.msg), x.salt)
		c.Hit("pairs:compared")
		c.Eval([]byte{byte(op)}, x.priv, x.peer, x.msg, x.salt)
	}
}

// ---- many operations on one object ----

type longOp struct {
	name        string
	quick, deep int
	fn          func(c *C, n int)
}

var longOps = []longOp{
	{"encrypt", 4200, 70000, longEncrypt},
	{"decrypt", 4200, 70000, longDecrypt},
	{"shared-key", 4200, 70000, longShared},
	{"sign", 66000, 600000, longSign},
	{"derive", 66000, 600000, longDerive},
	{"verify", 12000, 300000, longVerify},
	{"keys", 33000, 300000, longKeys},
	{"signers", 9000, 300000, longSigners},
	{"generate", 9000, 300000, longGenerate},
	{"failing", 9000, 300000, longFailing},
	{"hash", 200000, 3000000, longHash},
	{"encodings", 70000, 2000000, longEncodings},
	{"canonical", 140000, 2000000, longCanonical},
}

func c26long(c *C) {
	o := longOps[c.Idx]
	n := o.quick
	if c.T.Thorough {
		n = o.deep
	}
	o.fn(c, n)
	c.HitN("long:"+o.name, n)
	c.HitN("long:steps", n)
	c.Sample("%d times %s", n, o.name)
}

// alive keeps the watchdog from taking a long case for a stuck one.
func (c *C) alive() { c.w.cur.Store(time.Now().UnixNano()) }

func longSign(c *C, n int) {
	priv := c.R.Bytes(32)
	pub := ref.Public(priv)
	s := c.signer(newPair(c, priv))
	var ms, want [][]byte
	for i := 0; i < 16; i++ {
		m := c.R.Bytes(20 + i)
		ms, want = append(ms, m), append(want, ref.Sign(priv, pub, m))
	}
	buf := make([]byte, 64)
	for i := 0; i < n; i++ {
		k := i & 15
		c.w.evals++
		if i&1023 == 0 {
			c.alive()
			ms[k] = c.R.Bytes(20 + k)
			want[k] = ref.Sign(priv, pub, ms[k])
			c.Eval(ms[k])
		}
		sig, err := s.Sign(buf[:copy(buf, ms[k])])
		if err != nil || !bytes.Equal(sig.R, want[k][:32]) || !bytes.Equal(sig.S, want[k][32:]) {
			c.Fail("history sign", "signature number %d of one signer, of %x by %x, is %s (%v), want %x", i, ms[k], priv, sigText(sig), err, want[k])
		}
	}
}

func longVerify(c *C, n int) {
	priv := c.R.Bytes(32)
	pub := ref.Public(priv)
	v := c.signer(c.pubPair(pub))
	var ms [][]byte
	var good, bad []*crypto.Signature
	for i := 0; i < 16; i++ {
		m := c.R.Bytes(i)
		s := ref.Sign(priv, pub, m)
		ms, good = append(ms, m), append(good, mkSig(s))
		b := mkSig(s)
		if i&1 == 0 {
			b.R[c.R.Intn(32)] ^= 4
		} else {
			b.S[c.R.Intn(31)] ^= 4
		}
		bad = append(bad, b)
		c.Eval(m)
	}
	for i := 0; i < n; i++ {
		if i&511 == 0 {
			c.alive()
		}
		c.w.evals++
		k := c.R.Intn(16)
		if c.R.Intn(4) > 0 {
			c.Check(v.Verify(ms[k], good[k]), "history verify", "verification number %d of one verifier: %s of %x under %x is refused", i, sigText(good[k]), ms[k], pub)
		} else {
			c.Check(!v.Verify(ms[k], bad[k]), "history verify", "verification number %d of one verifier: %s of %x under %x is accepted", i, sigText(bad[k]), ms[k], pub)
		}
	}
}

func longDerive(c *C, n int) {
	gen := crypto.NewEd25519KeyGenerator(nil)
	var ks []*crypto.PrivateKey
	var want [][]byte
	for i := 0; i < 16; i++ {
		p := c.R.Bytes(32)
		ks, want = append(ks, crypto.NewPrivateKey(p)), append(want, ref.Public(p))
		c.Eval(p)
	}
	for i := 0; i < n; i++ {
		if i&1023 == 0 {
			c.alive()
		}
		c.w.evals++
		k := c.R.Intn(16)
		if got := gen.DerivePublicKey(ks[k]); !bytes.Equal(got.Raw, want[k]) {
			c.Fail("history derive", "derivation number %d: public key of %x is %x, want %x", i, ks[k].Raw, got.Raw, want[k])
		}
	}
}

// longKeys derives the public keys of very many different keys and comes back
// to earlier ones.
func longKeys(c *C, n int) {
	gen := crypto.NewEd25519KeyGenerator(nil)
	var ps, want [][]byte
	cur := c.R.Bytes(32)
	for i := 0; i < n; i++ {
		if i&1023 == 0 {
			c.alive()
		}
		var p, w []byte
		if len(ps) > 0 && i%4 == 3 {
			k := c.R.Intn(len(ps))
			p, w = ps[k], want[k]
		} else {
			if i%3 == 0 {
				cur = c.R.Bytes(32)
			} else {
				cur = c.related(cur, true)
			}
			p, w = cur, ref.Public(cur)
			ps, want = append(ps, p), append(want, w)
			c.Eval(p)
		}
		c.w.evals++
		if got := gen.DerivePublicKey(crypto.NewPrivateKey(append([]byte{}, p...))); !bytes.Equal(got.Raw, w) {
			c.Fail("history derive", "after %d other keys the public key of %x is %x, want %x", len(ps), p, got.Raw, w)
		}
	}
}

// longSigners makes very many signers of different keys, messages repeat.
func longSigners(c *C, n int) {
	ms := [][]byte{{}, c.R.Bytes(32), c.R.Bytes(100), []byte("message")}
	var back [][]byte
	for i := 0; i < n; i++ {
		if i&511 == 0 {
			c.alive()
		}
		p := c.R.Bytes(32)
		if i%5 == 4 && len(back) > 0 {
			p = back[c.R.Intn(len(back))]
		} else if len(back) < 3000 {
			back = append(back, p)
		}
		pub := ref.Public(p)
		kp := &crypto.KeyPair{PrivateKey: crypto.NewPrivateKey(append([]byte{}, p...)), PublicKey: crypto.NewPublicKey(append([]byte{}, pub...))}
		m := ms[c.R.Intn(4)]
		s := crypto.NewSignerFromKeyPair(kp, nil)
		sig, err := s.Sign(m)
		want := ref.Sign(p, pub, m)
		c.Eval(p, m)
		if err != nil || !bytes.Equal(sigBytes(sig), want) {
			c.Fail("history sign", "signer number %d: %x signed by %x is %s (%v), want %x", i, m, p, sigText(sig), err, want)
		}
		if i%8 == 0 {
			c.Check(s.Verify(m, sig), "history verify", "signer number %d refuses its own signature of %x by %x", i, m, p)
		}
	}
}

func longGenerate(c *C, n int) {
	for i := 0; i < n; i++ {
		if i&511 == 0 {
			c.alive()
		}
		kp, err := crypto.NewKeyPairByEngine(crypto.CryptoEngines.DefaultEngine)
		c.Check(err == nil && len(kp.PrivateKey.Raw) == 32, "history generate", "generation number %d: %v", i, err)
		c.w.evals++
		if i%4 == 0 {
			c.Eval(kp.PrivateKey.Raw)
			c.Check(bytes.Equal(kp.PublicKey.Raw, ref.Public(kp.PrivateKey.Raw)), "history generate", "generation number %d: public key of %x is %x", i, kp.PrivateKey.Raw, kp.PublicKey.Raw)
		}
	}
}

func (c *C) longPair() (priv, peer []byte, bc *crypto.Ed25519BlockCipher, kp *crypto.KeyPair, pk *crypto.KeyPair) {
	priv, peer = c.R.Bytes(32), c.R.Bytes(32)
	kp, pk = newPair(c, priv), newPair(c, peer)
	bc = crypto.NewEd25519BlockCipher(kp, pk, &scriptReader{c, -1})
	return
}

func longEncrypt(c *C, n int) {
	priv, peer, bc, _, _ := c.longPair()
	pub := ref.Public(peer)
	for i := 0; i < n; i++ {
		if i&63 == 0 {
			c.alive()
		}
		m := c.R.Bytes(c.R.Intn(50))
		ct, err := bc.Encrypt(m)
		c.Check(err == nil && len(ct) >= 64, "history encrypt", "encryption number %d fails: %v", i, err)
		want, e := ref.Encrypt(priv, pub, ct[:32], ct[32:48], m)
		c.Eval(ct)
		if e != nil || !bytes.Equal(ct, want) {
			c.Fail("history encrypt", "encryption number %d of one cipher: %x from %x to %x gives %x, want %x", i, m, priv, pub, ct, want)
		}
	}
}

func longDecrypt(c *C, n int) {
	priv, peer, bc, _, _ := c.longPair()
	pub := ref.Public(peer)
	for i := 0; i < n; i++ {
		if i&63 == 0 {
			c.alive()
		}
		m := c.R.Bytes(c.R.Intn(50))
		ct, e := ref.Encrypt(priv, pub, c.R.Bytes(32), c.R.Bytes(16), m)
		if e != nil {
			panic(e)
		}
		got, err := bc.Decrypt(ct)
		c.Eval(ct)
		if err != nil || !bytes.Equal(got, m) {
			c.Fail("history decrypt", "decryption number %d of one cipher: %x from %x to %x gives %x (%v), want %x", i, ct, priv, pub, got, err, m)
		}
	}
}

func longShared(c *C, n int) {
	priv, _, bc, kp, pk := c.longPair()
	var ps []*crypto.PublicKey
	for i := 0; i < 6; i++ {
		ps = append(ps, crypto.NewPublicKey(ref.Public(c.R.Bytes(32))))
	}
	ps = append(ps, pk.PublicKey)
	salt := c.R.Bytes(32)
	for i := 0; i < n; i++ {
		if i&63 == 0 {
			c.alive()
		}
		q := ps[c.R.Intn(len(ps))]
		if i%9 == 8 {
			q = crypto.NewPublicKey(ref.Public(c.R.Bytes(32)))
		}
		if c.R.Bool() {
			salt = c.related(salt, true)
		}
		got, err := bc.GetSharedKey(kp.PrivateKey, q, salt)
		want, _ := ref.SharedKey(priv, q.Raw, salt)
		c.Eval(salt, q.Raw)
		if err != nil || !bytes.Equal(got, want) {
			c.Fail("history shared key", "shared key number %d of one cipher: %x and %x, salt %x, gives %x (%v), want %x", i, priv, q.Raw, salt, got, err, want)
		}
	}
}

// longFailing: very many failures, some successes in between.
func longFailing(c *C, n int) {
	h := &hist{c: c, kb: make([]byte, 32), pb: make([]byte, 32), sb: make([]byte, 64), gen: crypto.NewEd25519KeyGenerator(nil)}
	h.newActor(c.R.Bytes(32))
	h.newActor(c.R.Bytes(32))
	r := h.newCipher(h.actors[0], h.actors[1])
	for i := 0; i < n; i++ {
		if i&63 == 0 {
			c.alive()
		}
		h.failing(h.actors[i&1])
		c.w.evals++
		if i%200 == 199 {
			a := h.actors[c.R.Intn(2)]
			h.sign(a, a.signers[0], h.msg())
			s := h.sigs[len(h.sigs)-1]
			h.verify(a.verifiers[0], a.pub, s.msg, s.sig, s.raw, "after failures")
			ct, err := r.bc.Encrypt([]byte("text"))
			c.Check(err == nil, "history encrypt", "after %d failed operations Encrypt fails: %v", i, err)
			m, err := ref.Decrypt(r.b.priv, r.a.pub, ct)
			c.Check(err == nil && string(m) == "text", "history encrypt", "after %d failed operations Encrypt gives %x", i, ct)
		}
	}
}

func longHash(c *C, n int) {
	type hf struct {
		f func([]byte) ([]byte, error)
		w func([]byte) []byte
	}
	fs := []hf{
		{crypto.HashesSha_256, ref.SHA256}, {crypto.HashesSha3_256, ref.SHA3_256}, {crypto.HashesKeccak_256, ref.Keccak256}, {crypto.HashesRipemd160, ref.Ripemd160},
		{func(b []byte) ([]byte, error) { return crypto.HashesSha3_512(b) }, func(b []byte) []byte { return ref.SHA3_512(b) }},
	}
	buf := make([]byte, 300)
	for i := 0; i < n; i++ {
		if i&4095 == 0 {
			c.alive()
			c.R.Fill(buf)
		}
		k := i % 5
		l := c.R.Intn(300)
		buf[c.R.Intn(300)]++
		got, err := fs[k].f(buf[:l])
		c.w.evals++
		if err != nil || !bytes.Equal(got, fs[k].w(buf[:l])) {
			c.Fail("history hash", "hash number %d (function %d) of %x is %x (%v)", i, k, buf[:l], got, err)
		}
	}
}

func longEncodings(c *C, n int) {
	for i := 0; i < n; i++ {
		if i&4095 == 0 {
			c.alive()
		}
		b := c.R.Bytes(64)
		if i%16 == 0 {
			b[0], b[31], b[32], b[63] = 0, 0, 0, 0
		}
		c.w.evals++
		k, err := crypto.NewPrivateKeyfromHexString(hex.EncodeToString(b[:32]))
		c.Check(err == nil && bytes.Equal(k.Raw, b[:32]) && k.String() == hex.EncodeToString(b[:32]), "history encoding", "private key %x number %d: %v", b[:32], i, err)
		p, err := crypto.NewPublicKeyfromHex(hex.EncodeToString(b[32:]))
		c.Check(err == nil && bytes.Equal(p.Raw, b[32:]), "history encoding", "public key %x number %d: %v", b[32:], i, err)
		s, err := crypto.NewSignatureFromBytes(b)
		c.Check(err == nil && bytes.Equal(s.Bytes(), b) && s.String() == hex.EncodeToString(b), "history encoding", "signature %x number %d: %v", b, i, err)
		t, err := crypto.NewSignatureFromBigInt(s.GetR(), s.GetS())
		c.Check(err == nil && bytes.Equal(t.Bytes(), b), "history encoding", "signature %x number %d through integers: %v", b, i, err)
	}
}

func longCanonical(c *C, n int) {
	s := c.signer(c.pubPair(ref.Public(c.R.Bytes(32))))
	for i := 0; i < n; i++ {
		if i&4095 == 0 {
			c.alive()
		}
		b := c.R.Bytes(64)
		if i&3 > 0 {
			b[63] &= 0x1f
		}
		sg := mkSig(b)
		v := ref.Big(b[32:])
		c.w.evals++
		c.Check(s.IsCanonicalSignature(sg) == (v.Sign() > 0 && v.Cmp(ref.L) < 0), "history canonical", "test number %d: IsCanonicalSignature(%x)", i, b)
		m, err := s.MakeSignatureCanonical(sg)
		c.Check(err == nil && bytes.Equal(m.S, ref.LE(v.Mod(v, ref.L), 32)) && bytes.Equal(m.R, b[:32]), "history canonical", "number %d: MakeSignatureCanonical(%x) gives %s, %v", i, b, sigText(m), err)
	}
}
