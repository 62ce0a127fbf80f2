package main

import (
	"bytes"
	"fmt"
	"io"
	"math/big"

	crypto "github.com/proximax-storage/go-xpx-crypto"

	"verifmon/ref"
)

// ---- structured blocks of a random source ----

// pattern gives n bytes with some structure.
func (c *C) pattern(n int) []byte {
	b := make([]byte, n)
	switch c.R.Intn(9) {
	case 0: // zeros
	case 1:
		v := byte(c.R.U64())
		for i := range b {
			b[i] = v
		}
	case 2: // one byte or bit
		b[c.R.Intn(n)] = byte(1 << uint(c.R.Intn(8)))
	case 3: // a count
		v := c.R.Intn(1 << 20)
		for i := range b {
			b[i] = byte(v)
			v >>= 8
		}
	case 4: // a count, the other way round
		b[n-1], b[n-2] = byte(c.R.U64()), byte(c.R.Intn(2))
	case 5: // repeated piece
		p := c.R.Bytes(1 + c.R.Intn(n/2))
		for i := range b {
			b[i] = p[i%len(p)]
		}
	case 6: // text
		for i := range b {
			b[i] = "0123456789abcdef \n"[c.R.Intn(18)]
		}
	case 7: // nearly all ones
		for i := range b {
			b[i] = 0xff
		}
		b[c.R.Intn(n)] ^= byte(c.R.Intn(4))
	default:
		c.R.Fill(b)
		c.R.Fill(b[:c.R.Intn(n)])
		for i, k := 0, c.R.Intn(n); i < k; i++ {
			b[i] = 0
		}
	}
	return b
}

// patterns is a sequence of structured blocks that also repeat.
func (c *C) patterns(blocks, n int) (d []byte) {
	var l [][]byte
	for i := 0; i < blocks; i++ {
		var b []byte
		switch k := c.R.Intn(4); {
		case k == 0 && len(l) > 0:
			b = l[len(l)-1]
		case k == 1 && len(l) > 0:
			b = l[c.R.Intn(len(l))]
		default:
			b = c.pattern(n)
		}
		l = append(l, b)
		d = append(d, b...)
	}
	return
}

// c07patterns: the bytes of the source are the keys, whatever they look like.
func c07patterns(c *C) {
	s := &source{r: c.R, failAt: -1, chunk: c.R.Intn(nChunks), data: append(c.patterns(8, 32), c.R.Bytes(64)...)}
	gen := crypto.KeyGenerator(crypto.NewEd25519KeyGenerator(s))
	eng, ok := bridge[func(io.Reader) crypto.CryptoEngine]("engine.seeded")
	for n := 0; n < 8; n++ {
		s.zeros = 0
		start := s.pos
		c.Eval(s.data[start : start+32])
		if ok && c.R.Intn(3) == 0 {
			kp, err := crypto.NewKeyPairByEngine(eng(s))
			c.checkPairOf(kp, err, s.data[start:start+32], s.reads)
		} else {
			c07gen(c, s, gen)
		}
		c.Hit("gen:pattern")
	}
	if c.R.Bool() { // nor do structured bytes count as a failure or hide one
		s.failAt = s.pos + c.R.Intn(32)
		s.kind = c.R.Intn(nFaults)
		c07gen(c, s, gen)
	}
}

// c09patterns: salt and IV are the bytes of the source, whatever they look like.
func c09patterns(c *C) {
	a, peer := c.privBytes(), c.peerPub()
	s := &source{r: c.R, failAt: -1, chunk: c.R.Intn(nChunks), data: append(c.patterns(18, 16), c.R.Bytes(96)...)}
	bc := crypto.NewEd25519BlockCipher(newPair(c, a), c.pubPair(peer), s)
	m := c.msg(c.R.Intn(40))
	for n := 0; n < 6; n++ {
		start := s.pos
		s.zeros = 0
		ct := c.encrypt(bc, m)
		c.Eval(ct)
		c.header(ct, s.data[start:start+48], s.reads)
		want, err := ref.Encrypt(a, peer, ct[:32], ct[32:48], m)
		if err != nil {
			panic(err)
		}
		c.Check(bytes.Equal(ct, want), "ciphertext differs", "sender %x peer %x message %s salt %x IV %x\ngot  %s\nwant %s", a, peer, hx(m), ct[:32], ct[32:48], hx(ct[48:]), hx(want[48:]))
		c.Hit("header:pattern")
	}
}

// c11patterns: every byte drawn goes into exactly one header, in order,
// whatever the bytes look like.
func c11patterns(c *C) {
	s := &source{r: c.R, failAt: -1, chunk: c.R.Intn(nChunks), data: append(c.patterns(30, 16), c.R.Bytes(96)...)}
	a := newPair(c, c.R.Bytes(32))
	p := c.pubPair(ref.Public(c.R.Bytes(32)))
	bcs := []crypto.BlockCipher{crypto.NewEd25519BlockCipher(a, p, s), crypto.NewEd25519BlockCipher(a, p, s)}
	m := c.msg(c.R.Intn(40))
	for n := 0; n < 10; n++ {
		start := s.pos
		s.zeros = 0
		ct := c.encrypt(bcs[c.R.Intn(2)], m)
		c.Eval(s.data[start : start+48])
		c.header(ct, s.data[start:start+48], s.reads)
		c.Check(s.pos-start == 48, "bytes lost", "one encryption drew %d bytes", s.pos-start)
		c.Hit("header:pattern")
	}
}

// ---- argument objects with other content ----

// c26objects calls an operation again and again with the same argument
// objects, whose content the caller replaces in between. Lengths stay.
func c26objects(c *C) { c.objects(c.Idx % 6) }

func objectsOf(op int) func(c *C) { return func(c *C) { c.objects(op) } }

func (c *C) objects(op int) {
	n := []int{0, 1, 31, 32, 33, 64, 100, 127, 128, 129, 255, 256, 257, 500, 512, 1000, 1023, 1024, 1025, 2000, 2048, 4096, 4097, 8192, 10000, 16384, 20000, 65536, 100000}[c.Idx/6%29]
	steps := 6
	next := func(b []byte) []byte { // other content of the same length
		if c.R.Intn(3) == 0 {
			return c.R.Bytes(len(b))
		}
		return c.related(b, true)
	}
	a, peer := c.privBytes(), c.R.Bytes(32)
	pub := ref.Public(a)
	kp := newPair(c, a)
	buf := c.R.Bytes(n)
	vals := [][]byte{append([]byte{}, buf...)}
	vals = append(vals, next(vals[0]), next(vals[0]))
	key := ""
	switch op {
	case 0: // DerivePublicKey(private key)
		key = "history derive"
		sk := crypto.NewPrivateKey(make([]byte, 32))
		gen := crypto.NewEd25519KeyGenerator(nil)
		ks := [][]byte{a, next(a), next(a)}
		for i := 0; i < steps; i++ {
			k := ks[c.R.Intn(3)]
			copy(sk.Raw, k)
			got := gen.DerivePublicKey(sk)
			want := ref.Public(k)
			c.Check(got != nil && bytes.Equal(got.Raw, want), key, "call %d with the same PrivateKey object, now holding %x: got %v, want %x", i, k, got, want)
			c.Eval([]byte("derive"), k)
			c.Hit("objects:derive")
		}
	case 1: // Sign(message)
		key = "history sign"
		s := c.signer(kp)
		for i := 0; i < steps; i++ {
			m := vals[c.R.Intn(3)]
			copy(buf, m)
			sig, err := s.Sign(buf)
			want := ref.Sign(a, pub, m)
			c.Check(err == nil && bytes.Equal(sigBytes(sig), want), key, "signature %d of one signer over the same buffer of %d bytes, now holding %s: got %s (%v), want %x", i, n, hx(m), sigText(sig), err, want)
			c.Eval([]byte("sign"), m, a)
			c.Hit("objects:sign")
		}
	case 2: // Verify(message, signature)
		key = "history verify"
		v := c.signer(c.pubPair(pub))
		sg := mkSig(make([]byte, 64))
		var sigs [][]byte
		for _, m := range vals {
			sigs = append(sigs, ref.Sign(a, pub, m))
		}
		for i := 0; i < 2*steps; i++ {
			m, r := c.R.Intn(3), c.R.Intn(3)
			if c.R.Bool() {
				r = m
			}
			copy(buf, vals[m])
			copy(sg.R, sigs[r][:32])
			copy(sg.S, sigs[r][32:])
			got, want := v.Verify(buf, sg), bytes.Equal(vals[m], vals[r])
			if got != want {
				c.Fail(key, "verification %d of one verifier with the same buffer of %d bytes and the same Signature object: got %v, want %v\nmessage %s\nsignature %x", i, n, got, want, hx(vals[m]), sigs[r])
			}
			c.Eval([]byte("verify"), vals[m], sigs[r])
			c.Hit("objects:verify")
		}
	case 3: // Encrypt(message)
		key = "history encrypt"
		q := ref.Public(peer)
		bc := crypto.NewEd25519BlockCipher(kp, c.pubPair(q), &scriptReader{c, -1})
		for i := 0; i < steps; i++ {
			m := vals[c.R.Intn(3)]
			copy(buf, m)
			ct, err := bc.Encrypt(buf)
			c.Check(err == nil && len(ct) >= 64, key, "encryption %d of one cipher: %v", i, err)
			want, _ := ref.Encrypt(a, q, ct[:32], ct[32:48], m)
			c.Check(bytes.Equal(ct, want), key, "encryption %d of one cipher over the same buffer of %d bytes, now holding %s: got %s, want %s", i, n, hx(m), hx(ct), hx(want))
			c.Eval([]byte("encrypt"), ct)
			c.Hit("objects:encrypt")
		}
	case 4: // Decrypt(ciphertext)
		key = "history decrypt"
		q := ref.Public(peer)
		bc := crypto.NewEd25519BlockCipher(c.pubPair(q), kp, nil)
		salt, iv := c.R.Bytes(32), c.R.Bytes(16)
		var cts [][]byte
		for i, m := range vals {
			if i == 2 && c.R.Bool() {
				salt = c.related(salt, true)
			}
			ct, err := ref.Encrypt(a, q, salt, iv, m)
			if err != nil {
				panic(err)
			}
			cts = append(cts, ct)
		}
		cb := make([]byte, len(cts[0]))
		for i := 0; i < steps; i++ {
			k := c.R.Intn(3)
			copy(cb, cts[k])
			m, err := bc.Decrypt(cb)
			c.Check(err == nil && bytes.Equal(m, vals[k]), key, "decryption %d of one cipher over the same buffer of %d bytes, now holding %s: got %s (%v), want %s", i, len(cb), hx(cts[k]), hx(m), err, hx(vals[k]))
			c.Eval([]byte("decrypt"), cts[k])
			c.Hit("objects:decrypt")
		}
	case 5: // GetSharedKey(private key, public key, salt)
		key = "history shared key"
		sk, pk, salt := crypto.NewPrivateKey(make([]byte, 32)), crypto.NewPublicKey(make([]byte, 32)), make([]byte, 32)
		ks := [][]byte{a, next(a)}
		ps := [][]byte{ref.Public(peer), ref.Public(next(peer))}
		ps = append(ps, append([]byte{}, ps[0]...))
		ps[2][31] ^= 0x80
		ss := [][]byte{c.R.Bytes(32), nil}
		ss[1] = next(ss[0])
		bc := c.anyCipher()
		for i := 0; i < 2*steps; i++ {
			x, y, z := ks[c.R.Intn(2)], ps[c.R.Intn(3)], ss[c.R.Intn(2)]
			copy(sk.Raw, x)
			copy(pk.Raw, y)
			copy(salt, z)
			got, err := bc.GetSharedKey(sk, pk, salt)
			want, _ := ref.SharedKey(x, y, z)
			c.Check(err == nil && bytes.Equal(got, want), key, "shared key %d of one cipher with the same argument objects, now %x, %x, salt %x: got %x (%v), want %x", i, x, y, z, got, err, want)
			c.Eval([]byte("shared"), x, y, z)
			c.Hit("objects:shared")
		}
	}
	c.Hit("objects")
}

// ---- integers of any size and sign ----

func (c *C) wildInt() *big.Int {
	v := c.fieldVal()
	switch c.R.Intn(8) {
	case 0:
		v.Add(v, ref.P)
	case 1:
		v.Add(v, new(big.Int).Mul(ref.P, bn(int64(c.R.Intn(1000)))))
	case 2:
		v.Neg(v)
	case 3:
		v = new(big.Int).Lsh(v, uint(c.R.Intn(300)))
	case 4:
		v = ref.Big(c.R.Bytes(c.R.Intn(70)))
	case 5:
		v = new(big.Int).Add(ref.P, bn(int64(c.R.Intn(60)-20)))
	case 6:
		v = new(big.Int).Add(pow2(uint(250+c.R.Intn(10))), bn(int64(c.R.Intn(60)-20)))
	case 7:
		v = new(big.Int).Mul(ref.L, bn(int64(c.R.Intn(40)-8)))
		v.Add(v, bn(int64(c.R.Intn(3)-1)))
	}
	return v
}

// c21wild: the operations on integers leave their arguments as they were,
// whatever their size and sign and even when they refuse them; the same
// integer may be several arguments at once.
func c21wild(c *C) {
	m := &crypto.MathUtils
	for n := 0; n < 6; n++ {
		vs := []*big.Int{c.wildInt(), c.wildInt(), c.fieldVal(), c.zval(), c.wildInt()}
		if c.R.Intn(3) == 0 {
			vs[c.R.Intn(5)] = vs[c.R.Intn(5)]
		}
		var was []string
		for _, v := range vs {
			was = append(was, v.String())
		}
		c.Eval([]byte(fmt.Sprint(was)))
		g := c.guard(c.R.Bytes(32))
		do := func(what string, f func()) {
			func() {
				defer func() { recover() }() // refusing is not this property's matter
				f()
			}()
			for i, v := range vs {
				if v.String() != was[i] {
					c.Fail("argument changed", "%s changes an integer from %s to %s", what, was[i], v)
				}
			}
			g.check(c, what)
			c.Hit("wild:" + what)
		}
		do("NewSignatureFromBigInt", func() { crypto.NewSignatureFromBigInt(vs[0], vs[1]) })
		do("NewPrivateKeyFromBigInt", func() { crypto.NewPrivateKeyFromBigInt(vs[1]) })
		do("ToByteArray", func() { m.ToByteArray(vs[0]) })
		do("ToEncodedFieldElement", func() { m.ToEncodedFieldElement(vs[0]) })
		do("ToFieldElement", func() { m.ToFieldElement(vs[0]) })
		do("BytesToBigInteger", func() { m.BytesToBigInteger(g.B) })
		do("XMulY_Plus_ZMulT_DelD", func() { m.XMulY_Plus_ZMulT_DelD(*vs[0], vs[1], vs[2], vs[3], vs[4]) })
		do("GetAffineXFromAffineY", func() { m.GetAffineXFromAffineY(vs[0], n&1 == 0) })
		if f, ok := bridge[func(u, v *big.Int) *big.Int]("mu.getSqrtOfFraction"); ok {
			do("getSqrtOfFraction", func() { f(vs[0], vs[4]) })
		}
	}
	if c.R.Intn(20) == 0 {
		c.sameState(stateAtStart, "helpers on integers")
	}
}
