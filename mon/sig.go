package main

import (
	"bytes"
	"fmt"
	"math/big"

	crypto "github.com/proximax-storage/go-xpx-crypto"

	"verifmon/ref"
	"verifmon/ref/ed"
)

func init() {
	register(&Prop{
		ID:   "C01",
		Rule: "a case is one Sign call on a (private key, message) pair; non-trivial when the pair was not signed before in the run; the 64 bytes are compared with the reference signature",
		Fams: func(t *Tier) []Fam {
			return []Fam{
				{Name: "mixed", N: t.N(12000, 300000), Fn: c01mixed, Floor: map[string]int64{"key:leading-zeros": 100, "msg:nil": 10, "msglen:1K-64K": 100, "msglen:72-1023": 100}},
				{Name: "every-length", N: t.N(2300, 9000), Fn: c01length},
				{Name: "long", N: t.N(48, 400), Fn: c01long},
				{Name: "odd-keys", N: t.N(1200, 20000), Fn: c01oddKeys},
				{Name: "extreme-scalars", N: t.N(160, 2000), Fn: c01extreme, Floor: map[string]int64{"extreme:small-r": 1, "extreme:small-h": 1}},
				{Name: "small-S", N: t.N(64, 640), Fn: c01smallS},
				{Name: "history", N: t.N(40, 1000), Fn: focused([]int{0, 1, 4}, "history sign")},
				{Name: "related", N: t.N(300, 8000), Fn: pairsOf(1)},
				{Name: "objects", N: t.N(400, 8000), Fn: objectsOf(1)},
				{Name: "repeated", N: 1, Fn: longOf(20000, 300000, longSign)},
				sizeFam(t, c01size),
			}
		},
	})
	register(&Prop{
		ID:   "C02",
		Rule: "a case is one produced signature, verified through several signers after random re-encodings of key and signature; non-trivial when key and message are new",
		Fams: func(t *Tier) []Fam {
			return []Fam{
				{Name: "verify", N: t.N(9000, 200000), Fn: c02, Floor: map[string]int64{"carry:hex": 100, "carry:bytes": 100, "carry:bigint": 100, "carry:key-hex": 100}},
				{Name: "lengths", N: t.N(1200, 6000), Fn: c02len},
				{Name: "generated", N: t.N(600, 10000), Fn: c02gen},
				sizeFam(t, c02size),
				{Name: "repeated", N: 1, Fn: longOf(3000, 100000, c02long)},
				{Name: "twins", N: t.N(300, 8000), Fn: c02twins, Floor: map[string]int64{"twins": 5000}},
				{Name: "history", N: t.N(40, 1000), Fn: focused([]int{0, 2, 3, 4}, "history verify")},
			}
		},
	})
}

// checkSign signs and compares with the reference.
func checkSign(c *C, s signerOf, priv, pub, msg []byte, how string) []byte {
	sig, err := s.Sign(msg)
	if err != nil || sig == nil {
		c.Fail("Sign error", "Sign failed (%s): key %s, message %s: %v", how, hx(priv), hx(msg), err)
	}
	want := ref.Sign(priv, pub, msg)
	got := sigBytes(sig)
	c.Eval(priv, msg)
	if len(sig.R) != 32 || len(sig.S) != 32 || !bytes.Equal(got, want) {
		c.Fail("signature differs", "signature differs from the scheme (%s)\nkey %s\npublic %s\nmessage %s\ngot  R %x S %x\nwant R %x S %x", how, hx(priv), hx(pub), hx(msg), sig.R, sig.S, want[:32], want[32:])
	}
	return want
}

func c01mixed(c *C) {
	priv := c.privBytes()
	kp, path := c.pairFor(priv)
	s := c.signer(kp)
	pub := ref.Public(priv)
	for n := 1 + c.R.Intn(3); n > 0; n-- {
		m := c.msg(c.msgLen(8192))
		g := c.guard(m)
		if m == nil {
			g.B = nil
		}
		checkSign(c, s, priv, pub, g.B, path)
		g.check(c, "Sign(message)")
		if c.R.Intn(8) == 0 {
			// again: the signature is a function of key and message
			checkSign(c, c.signer(newPair(c, priv)), priv, pub, m, "again")
		}
		c.Sample("%s key %s message %d bytes", path, hx(priv), len(m))
	}
}

func c01length(c *C) {
	priv := c.R.Bytes(32)
	checkSign(c, c.signer(newPair(c, priv)), priv, ref.Public(priv), c.R.Bytes(c.Idx), "length")
	c.Hit("every-length")
}

func c01long(c *C) {
	priv := c.R.Bytes(32)
	n := 1 << uint(15+c.Idx%7)
	n += []int{0, 1, -1, 17, -32, 72}[c.R.Intn(6)]
	checkSign(c, c.signer(newPair(c, priv)), priv, ref.Public(priv), c.msg(n), "long")
}

func c01oddKeys(c *C) {
	var raw []byte
	switch c.Idx % 6 {
	case 0:
		raw = c.R.Bytes(c.Idx / 6 % 130)
	case 1:
		raw = make([]byte, c.Idx/6%130)
	case 2:
		raw = append(make([]byte, c.Idx/6%32), c.R.Bytes(32-c.Idx/6%32)...)
	case 3:
		raw = append(c.R.Bytes(32-c.Idx/6%32), make([]byte, c.Idx/6%32)...)
	case 4:
		raw = make([]byte, 32)
		raw[c.Idx/6%32] = byte(1 + c.Idx/6/32)
	case 5:
		raw = bytes.Repeat([]byte{0xff}, 32)
		raw[c.Idx/6%32] = byte(c.R.U64())
	}
	kp := newPair(c, raw)
	pub := ref.Public(raw)
	if !bytes.Equal(kp.PublicKey.Raw, pub) {
		c.Fail("public key differs", "public key of %s is %x, want %x", hx(raw), kp.PublicKey.Raw, pub)
	}
	checkSign(c, c.signer(kp), raw, pub, c.msg(c.msgLen(300)), "odd key")
	c.Hit(fmt.Sprintf("keylen:%d", len(raw)/32*32))
}

// c01extreme looks for messages whose nonce r or challenge h has a special
// form (reference only) and signs those.
func c01extreme(c *C) {
	priv := c.R.Bytes(32)
	kp := newPair(c, priv)
	pub := ref.Public(priv)
	_, prefix := ref.Clamp(priv)
	s := c.signer(kp)
	m := make([]byte, 12)
	c.R.Fill(m)
	kind := c.Idx % 4
	for n := 0; n < 6000; n++ {
		m[0], m[1] = byte(n), byte(n>>8)
		hit := ""
		switch kind {
		case 0, 1: // nonce
			r := ref.Reduce(ref.SHA3_512(prefix, m))
			hit = special(r)
			if hit != "" {
				hit = "extreme:" + hit + "-r"
			}
		default: // challenge: costs a reference signature
			if n > 500 {
				c.Eval()
				return
			}
			sg := ref.Sign(priv, pub, m)
			if hit = special(ref.HRAM(sg[:32], pub, m)); hit != "" {
				hit = "extreme:" + hit + "-h"
			} else if hit = special(sg[32:]); hit != "" {
				hit = "extreme:" + hit + "-S"
			} else if sg[31]&0x7f == 0 || sg[0] == 0 || sg[31]&0x7f == 0x7f {
				hit = "extreme:R-edge-byte"
			}
		}
		if hit != "" {
			c.Hit(hit)
			checkSign(c, s, priv, pub, m, hit)
		}
	}
}

// special classifies rare forms of a 32-byte number.
func special(b []byte) string {
	switch {
	case b[31] == 0 || b[31] == 0x10:
		return map[byte]string{0: "small", 0x10: "large"}[b[31]]
	case b[0] == 0 && b[1]&15 == 0:
		return "low-zero"
	case b[0] == 0xff && b[1]&15 == 15:
		return "low-ones"
	case b[15] == 0 && b[16] == 0:
		return "mid-zero"
	}
	n8 := 0
	for _, v := range b[:31] {
		if v&15 == 8 {
			n8++
		}
		if v>>4 == 8 {
			n8++
		}
	}
	if n8 >= 12 {
		return "eights"
	}
	return ""
}

// c01smallS signs messages whose S has a zero high byte, or whose R has.
func c01smallS(c *C) {
	priv := c.R.Bytes(32)
	pub := ref.Public(priv)
	s := c.signer(newPair(c, priv))
	m := c.R.Bytes(16)
	for n := 0; n < 1200; n++ {
		m[0], m[1] = byte(n), byte(n>>8)
		sg := ref.Sign(priv, pub, m)
		if sg[63] == 0 || (sg[32] == 0 && sg[33] < 16) || sg[63] == 0x10 {
			c.Hit("extreme:S-edge")
			checkSign(c, s, priv, pub, m, "S with edge bytes")
		}
	}
	c.Eval(priv)
}

// ---- C02 ----

func (c *C) carrySig(s *crypto.Signature) *crypto.Signature {
	for n := c.R.Intn(3); n >= 0; n-- {
		var t *crypto.Signature
		var err error
		switch c.R.Intn(5) {
		case 0:
			c.Hit("carry:bytes")
			t, err = crypto.NewSignatureFromBytes(s.Bytes())
		case 1:
			c.Hit("carry:hex")
			b := make([]byte, 64)
			if k, e := fmt.Sscanf(s.String(), "%x", &b); k != 1 || e != nil {
				c.Fail("String", "signature string %q is no hex string: %v", s.String(), e)
			}
			t, err = crypto.NewSignatureFromBytes(b)
		case 2:
			c.Hit("carry:bigint")
			t, err = crypto.NewSignatureFromBigInt(s.GetR(), s.GetS())
		case 3:
			c.Hit("carry:parts")
			t, err = crypto.NewSignature(s.R, s.S)
		case 4:
			t = &crypto.Signature{R: s.R, S: s.S}
		}
		if err != nil || t == nil {
			c.Fail("signature encoding", "re-encoding signature %x %x: %v", s.R, s.S, err)
		}
		s = t
	}
	return s
}

func (c *C) carryPub(kp *crypto.KeyPair) *crypto.KeyPair {
	pk := kp.PublicKey
	for n := c.R.Intn(3); n > 0; n-- {
		switch c.R.Intn(3) {
		case 0:
			p, err := crypto.NewPublicKeyfromHex(pk.String())
			if err != nil {
				c.Fail("public key encoding", "NewPublicKeyfromHex(%q): %v", pk.String(), err)
			}
			pk = p
			c.Hit("carry:key-hex")
		case 1:
			pk = crypto.NewPublicKey(append([]byte(nil), pk.Raw...))
			c.Hit("carry:key-raw")
		case 2:
			p, err := crypto.NewPublicKeyfromHex(fmt.Sprintf("%x", pk.Raw))
			if err != nil {
				c.Fail("public key encoding", "NewPublicKeyfromHex(%x): %v", pk.Raw, err)
			}
			pk = p
			c.Hit("carry:key-hex")
		}
	}
	kp2, err := crypto.NewKeyPair(nil, pk, nil)
	if err != nil {
		c.Fail("NewKeyPair", "NewKeyPair(nil, %x): %v", pk.Raw, err)
	}
	return kp2
}

func c02check(c *C, kp *crypto.KeyPair, m []byte) {
	s := c.signer(kp)
	sig, err := s.Sign(m)
	if err != nil || sig == nil {
		c.Fail("Sign error", "Sign: key %s message %s: %v", kp.PrivateKey.String(), hx(m), err)
	}
	c.Eval(kp.PrivateKey.Raw, m)
	desc := func() string {
		return fmt.Sprintf("key %s public %s message %s signature %x %x", kp.PrivateKey.String(), kp.PublicKey.String(), hx(m), sig.R, sig.S)
	}
	c.Check(s.Verify(m, sig), "own signature refused", "the signer refuses its own signature: %s", desc())
	v := c.signer(c.carryPub(kp))
	sig2 := c.carrySig(sig)
	m2 := append([]byte(nil), m...)
	c.Check(v.Verify(m2, sig2), "signature refused", "a verifier with the public key only refuses a produced signature: %s (re-encoded %x %x)", desc(), sig2.R, sig2.S)
	c.Check(v.IsCanonicalSignature(sig2) && s.IsCanonicalSignature(sig), "not canonical", "a produced signature is not canonical: %s", desc())
	mc, err := v.MakeSignatureCanonical(sig2)
	c.Check(err == nil && mc != nil && bytes.Equal(sigBytes(mc), sigBytes(sig)), "canonical form", "MakeSignatureCanonical changes a produced signature (err %v): %s", err, desc())
	c.Check(v.Verify(m, mc), "canonical form refused", "the canonical form of a produced signature is refused: %s", desc())
	c.Sample("%d-byte message, public %s", len(m), kp.PublicKey)
}

func c02(c *C) {
	kp, _ := c.pairFor(c.privBytes())
	c02check(c, kp, c.msg(c.msgLen(16384)))
}

func c02len(c *C) {
	n := c.Idx
	if c.Idx >= 1100 {
		n = c.R.Intn(1 << 20)
	}
	c02check(c, newPair(c, c.R.Bytes(32)), c.msg(n))
}

func c02gen(c *C) {
	var kp *crypto.KeyPair
	var err error
	switch c.R.Intn(3) {
	case 0:
		kp, err = crypto.NewRandomKeyPair()
	case 1:
		kp, err = crypto.NewKeyPairByEngine(crypto.CryptoEngines.Ed25519Engine)
	case 2:
		kp, err = crypto.NewEd25519KeyGenerator(nil).GenerateKeyPair()
	}
	if err != nil || kp == nil {
		c.Fail("generation", "generating a key pair: %v", err)
	}
	c.Hit("pair:generated")
	c02check(c, kp, c.msg(c.msgLen(2000)))
}

// ---- C03 .. C05 ----

func init() {
	register(&Prop{
		ID:   "C03",
		Rule: "a case is one Verify call compared with the reference equation; non-trivial when (public key, signature, message) is new; both verdicts are required often",
		Fams: func(t *Tier) []Fam {
			return []Fam{
				{Name: "tampered", N: t.N(700, 12000), Fn: c03tamper, Floor: map[string]int64{"verdict:true": 500, "verdict:false": 5000}},
				{Name: "crafted-small-order", N: t.N(2500, 60000), Fn: c03small, Floor: map[string]int64{"crafted:true": 1000, "crafted:false": 100}},
				{Name: "identity-R-bits", N: t.N(20, 200), Fn: c03identity},
				{Name: "mixed-order", N: t.N(2500, 60000), Fn: c03mixed, Floor: map[string]int64{"mixed:true": 500}},
				{Name: "small-R", N: t.N(600, 16000), Fn: c03smallR, Floor: map[string]int64{"smallR:accepted": 400, "smallR:refused": 2000}},
				{Name: "garbage", N: t.N(4000, 100000), Fn: c03garbage},
				{Name: "scalar-shapes", N: t.N(3000, 60000), Fn: c03shapes, Floor: map[string]int64{"shapes:true": 2000}},
				{Name: "swapped", N: t.N(300, 6000), Fn: c03swap},
				{Name: "long", N: t.N(24, 240), Fn: c03long},
				sizeFam(t, c03size),
				{Name: "twins", N: t.N(300, 8000), Fn: c03twins, Floor: map[string]int64{"twins:true": 3000, "twins:false": 2000}},
				{Name: "history", N: t.N(40, 1000), Fn: focused([]int{0, 2, 3, 4, 14}, "history verify", "history forged")},
				{Name: "related", N: t.N(300, 8000), Fn: pairsOf(2)},
				{Name: "objects", N: t.N(400, 8000), Fn: objectsOf(2)},
				{Name: "repeated", N: 1, Fn: longOf(3000, 100000, longVerify)},
			}
		},
	})
	register(&Prop{
		ID:   "C04",
		Rule: "a case is one 256-bit S put through IsCanonicalSignature, MakeSignatureCanonical and, with a matching R, Verify; non-trivial when S is new",
		Fams: func(t *Tier) []Fam {
			return []Fam{
				{Name: "grid", N: t.N(12000, 60000), Fn: c04grid, Floor: map[string]int64{"canonical:true": 300, "canonical:false": 300}},
				{Name: "random", N: t.N(60000, 600000), Fn: c04random},
				{Name: "malleable", N: t.N(700, 12000), Fn: c04malleable, Floor: map[string]int64{"malleable:refused": 5000}},
				{Name: "zero-S", N: t.N(400, 4000), Fn: c04zero, Floor: map[string]int64{"zero-S:equation-holds": 20}},
				{Name: "history", N: t.N(20, 400), Fn: focused([]int{0, 14, 14}, "history canonical", "history forged")},
				{Name: "repeated", N: 1, Fn: longOf(60000, 1000000, longCanonical)},
			}
		},
	})
	register(&Prop{
		ID:   "C05",
		Rule: "a case is one malformed argument combination given to Verify, IsCanonicalSignature, MakeSignatureCanonical and Sign; non-trivial when the combination is new; panics and acceptances are violations",
		Fams: func(t *Tier) []Fam {
			return []Fam{
				{Name: "lengths", N: 5000, Fn: c05lengths, Floor: map[string]int64{"malformed": 4000}},
				{Name: "keys", N: t.N(4000, 50000), Fn: c05keys, Floor: map[string]int64{"key:not-a-point": 500, "key:length": 500}},
				{Name: "nil", N: 200, Fn: c05nil},
				{Name: "hostile", N: t.N(30000, 200000), Fn: c05hostile},
				{Name: "sign-without-key", N: 300, Fn: c05nokey},
			}
		},
	})
}

// verdict compares Verify with the reference.
func verdict(c *C, kp *crypto.KeyPair, m []byte, sig []byte, what string) bool {
	want := ref.Verify(kp.PublicKey.Raw, m, sig)
	got := c.signer(kp).Verify(m, mkSig(sig))
	c.Eval(kp.PublicKey.Raw, sig, m)
	if got != want {
		c.Fail("verdict", "Verify = %v, the equation says %v (%s)\npublic %x\nR %x\nS %x\nmessage %s", got, want, what, kp.PublicKey.Raw, sig[:32], sig[32:], hx(m))
	}
	c.Hit(fmt.Sprintf("verdict:%v", got))
	return got
}

func c03tamper(c *C) {
	priv := c.privBytes()
	pub := ref.Public(priv)
	m := c.msg(1 + c.msgLen(400))
	sig := ref.Sign(priv, pub, m)
	kp := c.pubPair(pub)
	if c.R.Bool() {
		kp = newPair(c, priv)
	}
	if !verdict(c, kp, m, sig, "untouched") {
		c.Fail("verdict", "reference signature refused")
	}
	flip := func(b []byte, bit int) []byte {
		d := append([]byte(nil), b...)
		d[bit/8] ^= 1 << uint(bit%8)
		return d
	}
	// every run walks through all bits of R, S and A
	for k := 0; k < 12; k++ {
		bit := (c.Idx*12 + k*43) % 768
		switch {
		case bit < 512:
			verdict(c, kp, m, flip(sig, bit), fmt.Sprintf("signature bit %d", bit))
		default:
			verdict(c, c.pubPair(flip(pub, bit-512)), m, sig, fmt.Sprintf("key bit %d", bit-512))
		}
	}
	for k := 0; k < 4; k++ {
		bit := c.R.Intn(len(m) * 8)
		verdict(c, kp, flip(m, bit), sig, fmt.Sprintf("message bit %d", bit))
	}
	verdict(c, kp, flip(m, len(m)*8-1-c.R.Intn(8)), sig, "last message byte")
	verdict(c, kp, flip(m, c.R.Intn(8)), sig, "first message byte")
	verdict(c, kp, m[:len(m)-1], sig, "message cut")
	verdict(c, kp, append(append([]byte{}, m...), 0), sig, "message extended by zero")
	verdict(c, kp, append(append([]byte{}, m...), m...), sig, "message doubled")
	verdict(c, kp, m[1:], sig, "message without first byte")
	verdict(c, kp, nil, sig, "no message")
	// R and S exchanged, signature of another message, of another key
	verdict(c, kp, m, append(append([]byte{}, sig[32:]...), sig[:32]...), "R and S exchanged")
	m2 := c.msg(len(m))
	s2 := ref.Sign(priv, pub, m2)
	verdict(c, kp, m, append(append([]byte{}, sig[:32]...), s2[32:]...), "S of another message")
	verdict(c, kp, m, append(append([]byte{}, s2[:32]...), sig[32:]...), "R of another message")
	verdict(c, kp, m, s2, "signature of another message")
	p2 := c.R.Bytes(32)
	verdict(c, kp, m, ref.Sign(p2, ref.Public(p2), m), "signature of another key")
	verdict(c, kp, m, ref.Sign(p2, pub, m), "signed with another secret")
	// negated points, S -> L - S
	ns := ref.LE(new(big.Int).Sub(ref.L, ref.Big(sig[32:])), 32)
	verdict(c, kp, m, append(append([]byte{}, sig[:32]...), ns...), "S negated")
	verdict(c, kp, m, append(flip(sig[:32], 255), ns...), "R and S negated")
	verdict(c, c.pubPair(flip(pub, 255)), m, append(flip(sig[:32], 255), ns...), "everything negated")
	for i := 1; i < 8; i += 1 + c.R.Intn(3) {
		a := new(ed.Point).Add(ref.Decode(pub), ref.Torsion[i])
		verdict(c, c.pubPair(a.Bytes()), m, sig, "torsion added to the key")
		r := new(ed.Point).Add(ref.Decode(sig[:32]), ref.Torsion[i])
		verdict(c, kp, m, append(r.Bytes(), sig[32:]...), "torsion added to R")
	}
	c.Sample("public %x message %d bytes", pub, len(m))
}

// craftSmall builds a signature under a small-order key with a given S: R is
// S*B - j*T, where j is guessed; about one in eight guesses satisfies the equation.
func craftSmall(c *C, A *ed.Point, encA, S, m []byte, ord int) (sig []byte, ok bool) {
	sb := ref.MulBase(S)
	for j := 0; j < 8; j++ {
		r := new(ed.Point).Subtract(sb, ref.Mul([]byte{byte(j)}, A)).Bytes()
		sig = append(append([]byte{}, r...), S...)
		h := ref.HRAM(r, encA, m)
		if bytes.Equal(new(ed.Point).Subtract(sb, ref.Mul(h, A)).Bytes(), r) {
			return sig, true
		}
	}
	return sig, false
}

var smallEncs, smallIdx = ref.SmallEncodings()

func c03small(c *C) {
	k := c.R.Intn(len(smallEncs))
	enc, A := smallEncs[k], ref.Torsion[smallIdx[k]]
	S := c.reducedScalar()
	m := c.msg(c.msgLen(200))
	sig, ok := craftSmall(c, A, enc, S, m, 8)
	kp := c.pubPair(enc)
	got := verdict(c, kp, m, sig, "small-order key")
	c.Hit(fmt.Sprintf("crafted:%v", got))
	if ok {
		// change R in ways that often leave the right side alone
		for n := 0; n < 6; n++ {
			s2 := append([]byte(nil), sig...)
			bit := c.R.Intn(256)
			s2[bit/8] ^= 1 << uint(bit%8)
			if verdict(c, kp, m, s2, "small-order key, R bit flipped") {
				c.Hit("crafted:flip-true")
			}
		}
		// non-canonical encodings of the same R
		y := ref.Big(sig[:32])
		y.SetBit(y, 255, 0)
		if y.Cmp(bn(19)) < 0 {
			y.Add(y, ref.P)
			b := ref.LE(y, 32)
			b[31] |= sig[31] & 0x80
			verdict(c, kp, m, append(b, sig[32:]...), "non-canonical R")
			c.Hit("crafted:noncanonical-R")
		}
	}
	// S = 0 and R = -hA: R of small order in all encodings
	k2 := c.R.Intn(len(smallEncs))
	for _, s := range [][]byte{make([]byte, 32), ref.LE(ref.L, 32)} {
		verdict(c, kp, m, append(append([]byte{}, smallEncs[k2]...), s...), "S congruent zero")
	}
	c.Sample("small-order key %x S %x", enc, S)
}

// c03identity: with the neutral element as key the equation is R = S*B, so
// every flipped bit of R must be noticed by the comparison itself.
func c03identity(c *C) {
	for k, enc := range smallEncs {
		if smallIdx[k] != 0 {
			continue
		}
		S := c.reducedScalar()
		if !ref.Canonical(S) {
			continue
		}
		m := c.msg(c.R.Intn(50))
		sig := append(ref.MulBase(S).Bytes(), S...)
		kp := c.pubPair(enc)
		if !verdict(c, kp, m, sig, "neutral key") {
			c.Fail("verdict", "R = S*B under the neutral element refused")
		}
		for bit := 0; bit < 256; bit++ {
			s2 := append([]byte(nil), sig...)
			s2[bit/8] ^= 1 << uint(bit%8)
			verdict(c, kp, m, s2, fmt.Sprintf("neutral key, R bit %d", bit))
		}
		for i := 1; i < 8; i++ {
			r := new(ed.Point).Add(ref.MulBase(S), ref.Torsion[i]).Bytes()
			verdict(c, kp, m, append(r, S...), "neutral key, torsion added to R")
		}
	}
}

func c03mixed(c *C) {
	priv := c.privBytes()
	a, _ := ref.Clamp(priv)
	T := ref.Torsion[1+c.R.Intn(7)]
	A := new(ed.Point).Add(ref.MulBase(a), T)
	enc := A.Bytes()
	m := c.msg(c.msgLen(200))
	r := c.reducedScalar()
	kp := c.pubPair(enc)
	for j := 0; j < 8; j++ {
		R := new(ed.Point).Subtract(ref.MulBase(r), ref.Torsion[j]).Bytes()
		h := ref.HRAM(R, enc, m)
		S := new(big.Int).Mul(ref.Big(h), ref.Big(a))
		S.Add(S, ref.Big(r)).Mod(S, ref.L)
		if verdict(c, kp, m, append(R, ref.LE(S, 32)...), "mixed-order key") {
			c.Hit("mixed:true")
		} else {
			c.Hit("mixed:false")
		}
	}
}

// c03smallR: the nonce is zero, so R is of small order and S*B - hA is known;
// R is given in every encoding there is, the key may carry torsion, too.
func c03smallR(c *C) {
	priv := c.privBytes()
	a, _ := ref.Clamp(priv)
	A := ref.MulBase(a)
	if c.R.Intn(3) == 0 {
		A = new(ed.Point).Add(A, ref.Torsion[c.R.Intn(8)])
	}
	enc := A.Bytes()
	kp := c.pubPair(enc)
	m := c.msg(c.msgLen(100))
	for _, R := range smallEncs {
		S := new(big.Int).Mul(ref.Big(ref.HRAM(R, enc, m)), ref.Big(a))
		S.Mod(S, ref.L)
		if verdict(c, kp, m, append(append([]byte{}, R...), ref.LE(S, 32)...), "R of small order") {
			c.Hit("smallR:accepted")
		} else {
			c.Hit("smallR:refused")
		}
	}
}

func c03garbage(c *C) {
	var pub []byte
	switch c.R.Intn(6) {
	case 0:
		pub = c.R.Bytes(32)
	case 1:
		pub = ref.LE(c.fieldVal(), 32)
		pub[31] |= byte(c.R.Intn(2)) << 7
	case 2:
		y := new(big.Int).Add(ref.P, bn(int64(c.R.Intn(19))))
		pub = ref.LE(y, 32)
		pub[31] |= byte(c.R.Intn(2)) << 7
	case 3:
		pub = ref.Public(c.R.Bytes(32))
	case 4:
		pub = make([]byte, 32)
		c.Hit("key:zero")
	case 5:
		pub = append([]byte(nil), smallEncs[c.R.Intn(len(smallEncs))]...)
	}
	if ref.Decode(pub) == nil {
		c.Hit("key:not-a-point")
	}
	sig := append(c.R.Bytes(32), c.reducedScalar()...)
	switch c.R.Intn(4) {
	case 0:
		copy(sig, smallEncs[c.R.Intn(len(smallEncs))])
	case 1:
		copy(sig, ref.MulBase(sig[32:]).Bytes())
	case 2:
		copy(sig, pub)
	}
	verdict(c, c.pubPair(pub), c.msg(c.msgLen(200)), sig, "garbage")
}

// c03shapes verifies valid signatures with chosen secret scalar, nonce and so
// S and h of special forms (the secret scalar need not come from a hash).
func c03shapes(c *C) {
	a := ref.Reduce(c.scalar32())
	A := ref.MulBase(a)
	enc := A.Bytes()
	if bytes.Equal(enc, make([]byte, 32)) {
		return
	}
	m := c.msg(c.msgLen(200))
	r := c.reducedScalar()
	R := ref.MulBase(r).Bytes()
	h := ref.HRAM(R, enc, m)
	S := new(big.Int).Mul(ref.Big(h), ref.Big(a))
	S.Add(S, ref.Big(r)).Mod(S, ref.L)
	if verdict(c, c.pubPair(enc), m, append(R, ref.LE(S, 32)...), "chosen scalars") {
		c.Hit("shapes:true")
	}
	// and a chosen S under a key of small order
	k := c.R.Intn(len(smallEncs))
	s := c.reducedScalar()
	if sig, ok := craftSmall(c, ref.Torsion[smallIdx[k]], smallEncs[k], s, m, 8); ok {
		verdict(c, c.pubPair(smallEncs[k]), m, sig, "chosen S")
		c.Hit("shapes:chosen-S")
	}
}

func c03swap(c *C) {
	n := 6
	var privs, pubs, msgs, sigs [][]byte
	for i := 0; i < n; i++ {
		p := c.privBytes()
		privs = append(privs, p)
		pubs = append(pubs, ref.Public(p))
		m := c.msg(c.msgLen(100))
		if i > 0 && c.R.Intn(3) == 0 {
			m = msgs[i-1]
		}
		msgs = append(msgs, m)
		sigs = append(sigs, ref.Sign(p, pubs[i], m))
	}
	for i := 0; i < n; i++ {
		kp := c.pubPair(pubs[i])
		for j := 0; j < n; j++ {
			verdict(c, kp, msgs[i], sigs[j], "signatures exchanged")
			if c.R.Intn(3) == 0 {
				verdict(c, kp, msgs[j], sigs[i], "messages exchanged")
			}
		}
	}
}

func c03long(c *C) {
	priv := c.R.Bytes(32)
	pub := ref.Public(priv)
	m := c.R.Bytes(1<<uint(14+c.Idx%8) + c.R.Intn(3))
	sig := ref.Sign(priv, pub, m)
	kp := c.pubPair(pub)
	verdict(c, kp, m, sig, "long")
	for k := 0; k < 4; k++ {
		i := c.R.Intn(len(m))
		if k == 0 {
			i = len(m) - 1
		}
		m[i] ^= 1 << uint(c.R.Intn(8))
		verdict(c, kp, m, sig, "long, one bit changed")
		m[i] = byte(c.R.U64())
	}
}

// ---- C04 ----

var anySigner = crypto.NewEd25519DsaSigner(&crypto.KeyPair{PublicKey: crypto.NewPublicKey(ref.MulBase([]byte{9, 31: 0}).Bytes())})

func c04check(c *C, R, S []byte) {
	s := c.signer(anySigner.KeyPair)
	sig := &crypto.Signature{R: R, S: S}
	want := ref.Canonical(S)
	got := s.IsCanonicalSignature(sig)
	c.Eval(S)
	c.Hit(fmt.Sprintf("canonical:%v", want))
	c.Check(got == want, "IsCanonicalSignature", "IsCanonicalSignature = %v for S = %x, want %v", got, S, want)
	mc, err := s.MakeSignatureCanonical(sig)
	wantS := ref.LE(new(big.Int).Mod(ref.Big(S), ref.L), 32)
	c.Check(err == nil && mc != nil, "MakeSignatureCanonical error", "MakeSignatureCanonical(S = %x): %v", S, err)
	c.Check(bytes.Equal(mc.R, R) && bytes.Equal(mc.S, wantS), "MakeSignatureCanonical", "MakeSignatureCanonical(R %x, S %x) = (%x, %x), want S %x", R, S, mc.R, mc.S, wantS)
	if !want {
		c.Check(!s.Verify([]byte("x"), sig), "non-canonical accepted", "Verify accepts S = %x", S)
	}
	c.Sample("S %x canonical %v", S, want)
}

func c04grid(c *C) {
	var v *big.Int
	k := c.Idx
	switch {
	case k < 16*129:
		// around k*L
		v = new(big.Int).Mul(ref.L, bn(int64(k/129)))
		v.Add(v, bn(int64(k%129-64)))
	case k < 16*129+257*9:
		k -= 16 * 129
		v = pow2(uint(k / 9))
		v.Add(v, bn(int64(k%9-4)))
	default:
		// L with one byte or bit changed, multiples shifted by powers of two
		v = new(big.Int).Mul(ref.L, bn(int64(c.R.Intn(16))))
		d := pow2(uint(c.R.Intn(256)))
		if c.R.Bool() {
			d.Neg(d)
		}
		v.Add(v, d)
		if c.R.Bool() {
			v.Add(v, bn(int64(c.R.Intn(3)-1)))
		}
	}
	if v.Sign() < 0 || v.BitLen() > 256 {
		v = ref.Big(c.R.Bytes(32))
	}
	c04check(c, c.R.Bytes(32), ref.LE(v, 32))
}

func c04random(c *C) {
	S := c.R.Bytes(32)
	switch c.R.Intn(6) {
	case 0:
		S[31] &= 0x1f
	case 1:
		S[31] = 0x10
	case 2: // like L in the high bytes
		copy(S[c.R.Intn(32):], ref.LE(ref.L, 32))
		l := ref.LE(ref.L, 32)
		n := c.R.Intn(32)
		copy(S[n:], l[n:])
	case 3: // like L in the low bytes
		l := ref.LE(ref.L, 32)
		copy(S[:c.R.Intn(33)], l)
		S[31] &= 0x1f
	case 4: // special 64-bit words
		for w := 0; w < 4; w++ {
			switch c.R.Intn(3) {
			case 0:
				copy(S[8*w:8*w+8], make([]byte, 8))
			case 1:
				copy(S[8*w:8*w+8], bytes.Repeat([]byte{0xff}, 8))
			}
		}
		if c.R.Bool() {
			S[31] &= 0x0f
		}
	}
	c04check(c, c.R.Bytes(32), S)
}

// c04malleable: S + k*L of a valid signature.
func c04malleable(c *C) {
	priv := c.privBytes()
	pub := ref.Public(priv)
	m := c.msg(c.msgLen(200))
	sig := ref.Sign(priv, pub, m)
	S := ref.Big(sig[32:])
	kp := c.pubPair(pub)
	s := c.signer(kp)
	c.Check(s.Verify(m, mkSig(sig)), "valid refused", "valid signature refused: public %x sig %x message %s", pub, sig, hx(m))
	for k := 1; k < 16; k++ {
		v := new(big.Int).Mul(ref.L, bn(int64(k)))
		v.Add(v, S)
		if v.BitLen() > 256 {
			break
		}
		t := append(append([]byte{}, sig[:32]...), ref.LE(v, 32)...)
		c.Eval(t)
		c.Check(!s.Verify(m, mkSig(t)), "malleable", "S + %d*L accepted: public %x R %x S %x message %s", k, pub, t[:32], t[32:], hx(m))
		c.Hit("malleable:refused")
		mc, err := s.MakeSignatureCanonical(mkSig(t))
		c.Check(err == nil && mc != nil && bytes.Equal(sigBytes(mc), sig), "MakeSignatureCanonical", "canonical form of S + %d*L differs from the signature: S %x (err %v)", k, t[32:], err)
		c.Check(s.Verify(m, mc), "canonical form refused", "canonical form of S + %d*L refused", k)
	}
}

// c04zero: S = 0 where the equation would hold.
func c04zero(c *C) {
	for k, enc := range smallEncs {
		m := c.msg(c.R.Intn(40))
		sig, ok := craftSmall(c, ref.Torsion[smallIdx[k]], enc, make([]byte, 32), m, 8)
		if ok {
			c.Hit("zero-S:equation-holds")
		}
		c.Eval(enc, m)
		c.Check(!c.signer(c.pubPair(enc)).Verify(m, mkSig(sig)), "S = 0 accepted", "S = 0 accepted: public %x R %x message %s", enc, sig[:32], hx(m))
	}
}

// ---- C05 ----

func noPanic(c *C, what string, f func()) {
	defer func() {
		if e := recover(); e != nil {
			if fl, ok := e.(failure); ok {
				panic(fl)
			}
			c.Fail("panic", "%s panics: %v", what, e)
		}
	}()
	f()
}

func c05lengths(c *C) {
	// all pairs of lengths 0..68 are visited, then random ones
	lr, ls := c.Idx%69, c.Idx/69
	if ls > 68 {
		lr, ls = c.R.Intn(300), c.R.Intn(300)
	}
	priv := c.R.Bytes(32)
	pub := ref.Public(priv)
	m := c.msg(c.R.Intn(40))
	v := ref.Sign(priv, pub, m)
	pick := func(part []byte, n int) []byte {
		b := make([]byte, n)
		switch c.R.Intn(3) {
		case 0:
			copy(b, part)
		case 1:
			c.R.Fill(b)
			copy(b, part)
		case 2:
			if n <= 32 {
				copy(b, part[32-n:])
			} else {
				copy(b[n-32:], part)
			}
		}
		return b
	}
	sig := &crypto.Signature{R: pick(v[:32], lr), S: pick(v[32:], ls)}
	s := c.signer(newPair(c, priv))
	c.Eval(sig.R, sig.S)
	bad := lr != 32 || ls != 32
	noPanic(c, fmt.Sprintf("Verify(R %x, S %x)", sig.R, sig.S), func() {
		got := s.Verify(m, sig)
		c.Check(!(bad && got), "malformed accepted", "Verify accepts R of %d and S of %d bytes: %x %x public %x message %x", lr, ls, sig.R, sig.S, pub, m)
	})
	noPanic(c, fmt.Sprintf("IsCanonicalSignature(R %x, S %x)", sig.R, sig.S), func() {
		got := s.IsCanonicalSignature(sig)
		c.Check(!(bad && got), "malformed canonical", "IsCanonicalSignature accepts R of %d and S of %d bytes", lr, ls)
	})
	noPanic(c, fmt.Sprintf("MakeSignatureCanonical(R %x, S %x)", sig.R, sig.S), func() {
		mc, err := s.MakeSignatureCanonical(sig)
		c.Check(err != nil || (mc != nil && len(mc.R) == 32 && len(mc.S) == 32), "malformed canonical form", "MakeSignatureCanonical returns a malformed signature for R of %d and S of %d bytes", lr, ls)
		if lr != 32 {
			c.Check(err != nil, "malformed canonical form", "MakeSignatureCanonical accepts R of %d bytes", lr)
		}
	})
	if bad {
		c.Hit("malformed")
	} else {
		c.Hit("well-formed")
	}
	c.Sample("R %d bytes S %d bytes", lr, ls)
}

func c05keys(c *C) {
	priv := c.R.Bytes(32)
	pub := ref.Public(priv)
	m := c.msg(c.R.Intn(40))
	sig := mkSig(ref.Sign(priv, pub, m))
	var raw []byte
	switch c.Idx % 4 {
	case 0:
		n := c.R.Intn(130)
		raw = make([]byte, n)
		c.R.Fill(raw)
		if c.R.Bool() {
			copy(raw, pub)
		}
		if n != 32 {
			c.Hit("key:length")
		}
	case 1:
		for raw = c.R.Bytes(32); ref.Decode(raw) != nil; raw = c.R.Bytes(32) {
		}
		c.Hit("key:not-a-point")
	case 2:
		raw = make([]byte, 32)
		c.Hit("key:zero")
	case 3:
		// the right key, too long or too short
		raw = append(append([]byte{}, pub...), c.R.Bytes(1+c.R.Intn(40))...)
		if c.R.Bool() {
			raw = pub[:c.R.Intn(32)]
		}
		if c.R.Intn(4) == 0 {
			raw = nil
		}
		c.Hit("key:length")
	}
	// the hash covers the key: also try a signature made for exactly these bytes
	for _, sg := range []*crypto.Signature{sig, mkSig(ref.Sign(priv, raw, m)), mkSig(append(append([]byte{}, smallEncs[c.R.Intn(len(smallEncs))]...), c.reducedScalar()...))} {
		c.Eval(raw, sg.R, sg.S)
		kp := &crypto.KeyPair{PublicKey: crypto.NewPublicKey(raw)}
		if c.R.Bool() {
			kp.PrivateKey = crypto.NewPrivateKey(priv)
		}
		var got bool
		noPanic(c, fmt.Sprintf("Verify with public key %x", raw), func() { got = c.signer(kp).Verify(m, sg) })
		want := ref.Verify(raw, m, sigBytes(sg))
		c.Check(got == want, "malformed key accepted", "Verify = %v with public key %x (%d bytes), want %v", got, raw, len(raw), want)
	}
}

func c05nil(c *C) {
	priv := c.R.Bytes(32)
	s := c.signer(newPair(c, priv))
	if c.R.Bool() {
		s = c.signer(c.pubPair(ref.Public(priv)))
	}
	c.Eval(priv)
	m := c.msg(c.R.Intn(10))
	noPanic(c, "Verify(nil)", func() { c.Check(!s.Verify(m, nil), "nil accepted", "Verify accepts a nil signature") })
	noPanic(c, "IsCanonicalSignature(nil)", func() { c.Check(!s.IsCanonicalSignature(nil), "nil accepted", "nil is canonical") })
	noPanic(c, "MakeSignatureCanonical(nil)", func() {
		r, err := s.MakeSignatureCanonical(nil)
		c.Check(err != nil && r == nil, "nil accepted", "MakeSignatureCanonical(nil) = %v, %v", r, err)
	})
	for _, sg := range []*crypto.Signature{{}, {R: c.R.Bytes(32)}, {S: c.R.Bytes(32)}, {R: []byte{}, S: []byte{}}, {R: c.R.Bytes(64)}, {S: c.R.Bytes(64)}} {
		noPanic(c, "Verify(partly nil)", func() { c.Check(!s.Verify(m, sg), "nil part accepted", "Verify accepts %v", sg) })
		noPanic(c, "IsCanonicalSignature(partly nil)", func() { c.Check(!s.IsCanonicalSignature(sg), "nil part accepted", "%v is canonical", sg) })
		noPanic(c, "MakeSignatureCanonical(partly nil)", func() {
			r, err := s.MakeSignatureCanonical(sg)
			c.Check(err != nil || len(sg.R) == 32 && len(r.R) == 32 && len(r.S) == 32, "nil part accepted", "MakeSignatureCanonical(%v) = %v", sg, r)
		})
		c.Hit("nil-parts")
	}
}

func c05hostile(c *C) {
	lens := []int{0, 1, 16, 31, 32, 32, 32, 32, 32, 33, 63, 64, 65, 96, 128}
	b := func() []byte {
		n := lens[c.R.Intn(len(lens))]
		switch c.R.Intn(5) {
		case 0:
			return make([]byte, n)
		case 1:
			return bytes.Repeat([]byte{0xff}, n)
		case 2:
			e := append([]byte{}, smallEncs[c.R.Intn(len(smallEncs))]...)
			if n <= 32 {
				return e[:n]
			}
			return append(e, c.R.Bytes(n-32)...)
		case 3:
			e := c.scalar32()
			if n <= 32 {
				return e[:n]
			}
			return append(e, c.R.Bytes(n-32)...)
		}
		return c.R.Bytes(n)
	}
	sg := &crypto.Signature{R: b(), S: b()}
	pub := b()
	m := c.msg(c.msgLen(300))
	c.Eval(sg.R, sg.S, pub)
	kp := &crypto.KeyPair{PublicKey: crypto.NewPublicKey(pub)}
	s := c.signer(kp)
	want := len(pub) == 32 && len(sg.R) == 32 && len(sg.S) == 32 && ref.Verify(pub, m, sigBytes(sg))
	noPanic(c, fmt.Sprintf("signature check R %x S %x public %x", sg.R, sg.S, pub), func() {
		got := s.Verify(m, sg)
		c.Check(got == want, "verdict", "Verify = %v, want %v: R %x S %x public %x message %x", got, want, sg.R, sg.S, pub, m)
		gc := s.IsCanonicalSignature(sg)
		c.Check(gc == (len(sg.R) == 32 && ref.Canonical(sg.S)), "IsCanonicalSignature", "IsCanonicalSignature = %v: R %x S %x", gc, sg.R, sg.S)
		s.MakeSignatureCanonical(sg)
	})
}

func c05nokey(c *C) {
	pub := ref.Public(c.R.Bytes(32))
	if c.R.Intn(4) == 0 {
		pub = c.R.Bytes(c.R.Intn(40))
	}
	kp := &crypto.KeyPair{PublicKey: crypto.NewPublicKey(pub)}
	c.Eval(pub)
	noPanic(c, "Sign without private key", func() {
		sg, err := c.signer(kp).Sign(c.msg(c.R.Intn(100)))
		c.Check(err != nil && sg == nil, "signed without key", "Sign without a private key returns %v, %v", sg, err)
	})
}
