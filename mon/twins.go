package main

import (
	"bytes"
	"fmt"
	"math/big"
	"sort"

	crypto "github.com/proximax-storage/go-xpx-crypto"

	"verifmon/ref"
	"verifmon/ref/ed"
)

// ---- lengths at which implementations change what they do ----

// sizes lists the lengths around multiples of powers of two and of ten from
// 64 to max bytes.
func sizes(max int) (l []int) {
	seen := map[int]bool{}
	add := func(n int) {
		for d := -1; d <= 1; d++ {
			if n+d >= 0 && n+d <= max && !seen[n+d] {
				seen[n+d] = true
				l = append(l, n+d)
			}
		}
	}
	for n := 64; n <= max; n *= 2 {
		for _, m := range []int{1, 2, 3, 5} {
			add(n * m)
		}
	}
	for n := 100; n <= max; n *= 10 {
		add(n)
		add(5 * n)
	}
	// and some beyond it, one on each side
	for n := max; n <= 8*max; n *= 2 {
		for d := -1; d <= 1; d++ {
			if !seen[n+d] {
				seen[n+d] = true
				l = append(l, n+d)
			}
		}
	}
	for _, n := range dictSizes(max) {
		if n > 0 && !seen[n] {
			seen[n] = true
			l = append(l, n)
		}
	}
	sort.Sort(sort.Reverse(sort.IntSlice(l))) // the long ones first
	return
}

func maxSize(t *Tier) int {
	if t.Thorough {
		return 16 << 20
	}
	return 1 << 20
}

func sizeFam(t *Tier, fn func(c *C, n int)) Fam {
	l := sizes(maxSize(t))
	return Fam{Name: "sizes", N: len(l), Fn: func(c *C) {
		fn(c, l[c.Idx])
		c.Hit("sizes")
	}}
}

func c01size(c *C, n int) {
	priv := c.R.Bytes(32)
	checkSign(c, c.signer(newPair(c, priv)), priv, ref.Public(priv), c.R.Bytes(n), "size")
}

func c02size(c *C, n int) { c02check(c, newPair(c, c.R.Bytes(32)), c.R.Bytes(n)) }

func c03size(c *C, n int) {
	priv := c.R.Bytes(32)
	pub := ref.Public(priv)
	m := c.R.Bytes(n)
	sig := ref.Sign(priv, pub, m)
	kp := c.pubPair(pub)
	verdict(c, kp, m, sig, "size")
	for k := 0; k < 3; k++ {
		i := []int{0, n - 1, c.R.Intn(n)}[k]
		m[i] ^= 1 << uint(c.R.Intn(8))
		verdict(c, kp, m, sig, fmt.Sprintf("size %d, a bit of byte %d changed", n, i))
	}
	verdict(c, kp, append(m, 0), sig, "size, extended")
	verdict(c, kp, m[:n-1], sig, "size, cut")
}

func c08size(c *C, n int) { c08one(c, c.R.Bytes(32), c.R.Bytes(32), c.R.Bytes(n)) }

func c09size(c *C, n int) {
	a, peer, m, rnd := c.R.Bytes(32), ref.Public(c.R.Bytes(32)), c.R.Bytes(n), c.R.Bytes(48)
	want, err := ref.Encrypt(a, peer, rnd[:32], rnd[32:], m)
	if err != nil {
		panic(err)
	}
	ct := c.encrypt(crypto.NewEd25519BlockCipher(newPair(c, a), c.pubPair(peer), bytes.NewReader(rnd)), m)
	c.Eval(rnd)
	c.Check(bytes.Equal(ct, want), "ciphertext differs", "sender %x peer %x message of %d bytes %s, got %s want %s", a, peer, n, hx(m), hx(ct), hx(want))
	c.decrypt(c.newCipher(c.pubPair(peer), newPair(c, a)), want, m, fmt.Sprintf("ciphertext of an independent implementation, message of %d bytes", n))
}

// c10size: a long ciphertext with wrong or right padding.
func c10size(c *C, n int) {
	r := c.receiver()
	n = (n + 15) / 16 * 16
	b := c.R.Bytes(n)
	switch c.R.Intn(3) {
	case 0:
		p := 1 + c.R.Intn(16)
		for i := 1; i <= p; i++ {
			b[n-i] = byte(p)
		}
	case 1:
		for i := 1; i <= 16; i++ {
			b[n-i] = 16
		}
		b[n-1-c.R.Intn(16)] ^= 1 << uint(c.R.Intn(8))
	}
	c10try(c, r.bc, r.b, r.peer, r.seal(c, b), fmt.Sprintf("%d bytes of plaintext", n))
}

func c13size(c *C, n int) {
	in := c.R.Bytes(n)
	for _, h := range hashes {
		c.checkHash(h, in)
	}
	k := c.R.Intn(n + 1)
	got, err := crypto.HashesSha3_512(in[:k], in[k:])
	want, _ := crypto.HashesSha3_512(in)
	c.Check(err == nil && bytes.Equal(got, want), "parts", "SHA3-512 of %d bytes in two parts, %d in the first, is %x (%v), in one part %x", n, k, got, err, want)
}

// ---- arguments that have much in common ----

type twin struct {
	enc []byte
	p   *ed.Point
	how string
}

// twins are points that share coordinates or parts of their encoding with A:
// A and -A and their sums with the points of small order.
func twins(A *ed.Point) (l []twin) {
	for i := 0; i < 8; i++ {
		q := new(ed.Point).Add(A, ref.Torsion[i])
		n := new(ed.Point).Negate(q)
		l = append(l, twin{q.Bytes(), q, fmt.Sprintf("A+T%d", i)}, twin{n.Bytes(), n, fmt.Sprintf("-(A+T%d)", i)})
	}
	return
}

// someTwins gives A, -A and others.
func (c *C) someTwins(A *ed.Point, n int) []twin {
	l := twins(A)
	r := l[:2:2]
	for len(r) < n {
		r = append(r, l[2+c.R.Intn(len(l)-2)])
	}
	return r
}

// headTwin gives a curve point whose encoding equals that of A except in the
// first or the last bytes.
func (c *C) headTwin(A *ed.Point) twin {
	for {
		b := A.Bytes()
		k := 1 + c.R.Intn(4)
		if c.R.Bool() {
			c.R.Fill(b[:k])
		} else {
			c.R.Fill(b[32-k:])
		}
		if p := ref.Decode(b); p != nil {
			return twin{b, p, fmt.Sprintf("differs from A in %d bytes", k)}
		}
	}
}

func (c *C) twinSet(A *ed.Point) []twin {
	l := c.someTwins(A, 4)
	l = append(l, c.headTwin(A), c.headTwin(A))
	if c.R.Intn(4) == 0 {
		for _, e := range nonReduced[:2+c.R.Intn(len(nonReduced)-1)] {
			l = append(l, twin{e, ref.Decode(e), "y not reduced"})
		}
		for k := 0; k < 2; k++ {
			i := c.R.Intn(len(smallEncs))
			l = append(l, twin{smallEncs[i], ref.Torsion[smallIdx[i]], "small order"})
		}
	}
	return l
}

// c12twins: one object derives the shared keys of peers, secrets and salts
// that have much in common, in any order.
func c12twins(c *C) {
	a := c.privBytes()
	privs := [][]byte{a, c.related(a, true)}
	salt := c.R.Bytes(32)
	salts := [][]byte{salt, c.related(salt, true)}
	ts := c.twinSet(ref.MulBase(c.R.Bytes(32)))
	bcs := []*crypto.Ed25519BlockCipher{c.anyCipher(), crypto.NewEd25519BlockCipher(newPair(c, a), c.pubPair(ts[0].enc), nil)}
	// the key objects stay, too
	pubs := make([]*crypto.PublicKey, len(ts))
	sks := make([]*crypto.PrivateKey, len(privs))
	for i, t := range ts {
		pubs[i] = crypto.NewPublicKey(append([]byte{}, t.enc...))
	}
	for i, p := range privs {
		sks[i] = crypto.NewPrivateKey(append([]byte{}, p...))
	}
	for n := 0; n < 24; n++ {
		i, j, k := c.R.Intn(len(ts)), 0, 0
		if c.R.Intn(4) == 0 {
			j = 1
		}
		if c.R.Intn(4) == 0 {
			k = 1
		}
		bc := bcs[0]
		if c.R.Intn(4) == 0 {
			bc = bcs[1]
		}
		got, err := bc.GetSharedKey(sks[j], pubs[i], append([]byte{}, salts[k]...))
		want, werr := ref.SharedKey(privs[j], ts[i].enc, salts[k])
		if werr != nil {
			panic(werr)
		}
		c.Eval(privs[j], ts[i].enc, salts[k])
		c.Logf("shared key of secret %d, public key %s, salt %d", j, ts[i].how, k)
		c.Check(err == nil && bytes.Equal(got, want), "shared key differs", "call %d on one object: GetSharedKey(%x, %x (%s), salt %x) = %x, %v, want %x", n, privs[j], ts[i].enc, ts[i].how, salts[k], got, err, want)
		c.Hit("twins")
	}
}

// c09twins: ciphers between one key pair and peers that have much in common.
func c09twins(c *C) {
	a := c.privBytes()
	ts := c.twinSet(ref.MulBase(c.R.Bytes(32)))
	own, _ := c.pairFor(a)
	s := &source{r: c.R, failAt: -1, data: c.R.Bytes(48 * 12)}
	encs, decs := map[int]crypto.BlockCipher{}, map[int]crypto.BlockCipher{}
	m := c.msg(c.R.Intn(40))
	for n := 0; n < 12; n++ {
		i := c.R.Intn(len(ts))
		if c.R.Bool() {
			if encs[i] == nil || c.R.Bool() {
				encs[i] = crypto.NewEd25519BlockCipher(own, c.pubPair(ts[i].enc), s)
			}
			ct := c.encrypt(encs[i], m)
			want, err := ref.Encrypt(a, ts[i].enc, ct[:32], ct[32:48], m)
			if err != nil {
				panic(err)
			}
			c.Check(bytes.Equal(ct, want), "ciphertext differs", "step %d: sender %x peer %x (%s) message %s\ngot  %s\nwant %s", n, a, ts[i].enc, ts[i].how, hx(m), hx(ct), hx(want))
			c.Eval(ct)
		} else {
			if decs[i] == nil || c.R.Bool() {
				decs[i] = c.newCipher(c.pubPair(ts[i].enc), own)
			}
			salt := c.R.Bytes(32)
			ct, err := ref.Encrypt(a, ts[i].enc, salt, salt[:16], m)
			if err != nil {
				panic(err)
			}
			c.decrypt(decs[i], ct, m, fmt.Sprintf("step %d, receiver %x peer %x (%s)", n, a, ts[i].enc, ts[i].how))
			c.Eval(ct)
		}
		c.Hit("twins")
	}
}

// c03twins: signers of public keys that have much in common judge the
// signatures made for each of them, in any order.
func c03twins(c *C) {
	priv := c.privBytes()
	a, _ := ref.Clamp(priv)
	A := ref.MulBase(a)
	m := c.msg(c.msgLen(100))
	r := c.reducedScalar()
	var ts []twin
	var sigs [][]byte
	for i := 0; i < 8; i++ {
		if i > 1 && c.R.Intn(3) > 0 {
			continue
		}
		for neg := 0; neg < 2; neg++ {
			q := new(ed.Point).Add(A, ref.Torsion[i])
			k := ref.Big(a)
			if neg == 1 {
				q.Negate(q)
				k.Neg(k)
			}
			t := twin{q.Bytes(), q, fmt.Sprintf("torsion %d, negative %v", i, neg == 1)}
			sig := []byte(nil)
			for j := 0; j < 8; j++ {
				R := new(ed.Point).Subtract(ref.MulBase(r), ref.Torsion[j]).Bytes()
				S := new(big.Int).Mul(ref.Big(ref.HRAM(R, t.enc, m)), k)
				S.Add(S, ref.Big(r)).Mod(S, ref.L)
				sig = append(R, ref.LE(S, 32)...)
				if ref.Verify(t.enc, m, sig) {
					break
				}
			}
			ts = append(ts, t)
			sigs = append(sigs, sig)
		}
	}
	sgs := make([]*crypto.Signature, len(sigs))
	kps := make([]*crypto.KeyPair, len(ts))
	sn := make([]signerOf, len(ts))
	for i := range ts {
		sgs[i] = mkSig(sigs[i])
		kps[i] = c.pubPair(ts[i].enc)
		sn[i] = c.signer(kps[i])
	}
	for n := 0; n < 40; n++ {
		i, j := c.R.Intn(len(ts)), c.R.Intn(len(ts))
		if c.R.Bool() {
			j = i
		}
		s := sn[i]
		if c.R.Bool() {
			s = c.signer(kps[i])
		}
		want := ref.Verify(ts[i].enc, m, sigs[j])
		c.Eval(ts[i].enc, sigs[j], m)
		if got := s.Verify(m, sgs[j]); got != want {
			c.Fail("verdict", "call %d: Verify = %v, the equation says %v (key of %s, signature for %s)\npublic %x\nR %x\nS %x\nmessage %s", n, got, want, ts[i].how, ts[j].how, ts[i].enc, sigs[j][:32], sigs[j][32:], hx(m))
		}
		c.Hit(fmt.Sprintf("twins:%v", want))
	}
}

// c16twins decodes encodings that have much in common one after the other.
func c16twins(c *C) {
	p, _ := c.point()
	ts := c.twinSet(p)
	var l [][]byte
	for _, t := range ts {
		l = append(l, t.enc)
	}
	for k := 0; k < 3; k++ {
		e := c.related(p.Bytes(), true)
		l = append(l, e)
	}
	for n := 0; n < 16; n++ {
		c.checkDecode(append([]byte{}, l[c.R.Intn(len(l))]...))
		c.Hit("twins")
	}
}

// c06twins derives the keys of private keys that have much in common, through
// objects that stay and new ones.
func c06twins(c *C) {
	a := c.privBytes()
	l := [][]byte{a}
	for k := 0; k < 4; k++ {
		l = append(l, c.related(l[c.R.Intn(len(l))], true))
	}
	gen := crypto.NewEd25519KeyGenerator(nil)
	var sks []*crypto.PrivateKey
	for _, p := range l {
		sks = append(sks, crypto.NewPrivateKey(append([]byte{}, p...)))
	}
	buf := make([]byte, 32)
	shared := crypto.NewPrivateKey(buf)
	for n := 0; n < 12; n++ {
		i := c.R.Intn(len(l))
		var got *crypto.PublicKey
		how := "an object derived from before"
		switch c.R.Intn(3) {
		case 0:
			got = gen.DerivePublicKey(sks[i])
		case 1:
			copy(buf, l[i])
			got = gen.DerivePublicKey(shared)
			how = "an object whose bytes were changed"
		case 2:
			got = crypto.NewEd25519KeyGenerator(nil).DerivePublicKey(crypto.NewPrivateKey(append([]byte{}, l[i]...)))
			how = "a new object"
		}
		if got == nil {
			c.Fail("no public key", "DerivePublicKey of %x gives nil", l[i])
		}
		c.Eval(l[i], []byte(how))
		c.checkPub("DerivePublicKey from "+how, got.Raw, ref.Public(l[i]), l[i])
		c.Hit("twins")
	}
}

// c02twins: keys and messages that have much in common; all signatures are
// made first and verified in any order afterwards.
func c02twins(c *C) {
	type one struct {
		k   int
		m   []byte
		sig *crypto.Signature
	}
	a := c.privBytes()
	privs := [][]byte{a, c.related(a, true), c.related(a, true)}
	m := c.R.Bytes(c.R.Intn(200))
	msgs := [][]byte{m, c.related(m, false), c.related(m, false)}
	var s []signerOf
	var kps []*crypto.KeyPair
	for _, p := range privs {
		kp, _ := c.pairFor(p)
		kps = append(kps, kp)
		s = append(s, c.signer(kp))
	}
	var l []one
	for n := 0; n < 12; n++ {
		k, m := c.R.Intn(len(s)), msgs[c.R.Intn(len(msgs))]
		sig, err := s[k].Sign(append([]byte{}, m...))
		c.Check(err == nil && sig != nil, "Sign error", "Sign: key %x message %s: %v", privs[k], hx(m), err)
		l = append(l, one{k, m, sig})
	}
	for n := 0; n < 24; n++ {
		x := l[c.R.Intn(len(l))]
		v := s[x.k]
		if c.R.Bool() {
			v = c.signer(c.carryPub(kps[x.k]))
		}
		c.Eval(privs[x.k], x.m)
		c.Check(v.Verify(append([]byte{}, x.m...), x.sig), "signature refused", "call %d: a signature made for key %x and message %s is refused: %x %x", n, privs[x.k], hx(x.m), x.sig.R, x.sig.S)
		c.Hit("twins")
	}
}

// c02long: one signer and one verifier sign and verify very often.
func c02long(c *C, n int) {
	priv := c.R.Bytes(32)
	s, v := c.signer(newPair(c, priv)), c.signer(c.pubPair(ref.Public(priv)))
	for i := 0; i < n; i++ {
		m := c.R.Bytes(i % 100)
		sig, err := s.Sign(m)
		c.Check(err == nil && sig != nil, "Sign error", "Sign number %d: key %x message %s: %v", i, priv, hx(m), err)
		w := v
		if i%3 == 0 {
			w = s
		}
		c.Check(w.Verify(m, sig), "signature refused", "signature number %d is refused: key %x message %s signature %x %x", i, priv, hx(m), sig.R, sig.S)
		c.Eval(m, priv)
		if i%64 == 0 {
			c.alive()
		}
	}
}
