package main

import (
	"fmt"
	"math/big"
	"strings"

	crypto "github.com/proximax-storage/go-xpx-crypto"

	"verifmon/ref"
)

func init() {
	register(&Prop{
		ID:   "C25",
		Rule: "a case fixes the public parameters and runs one operation with many secrets in a build that counts the executions of every block, of every right operand of && and || and the values of every index; runs whose result points have equal sign bits have to have equal counts; non-trivial when the secret is new",
		Fams: func(t *Tier) []Fam {
			return []Fam{
				{Name: "derive", Serial: true, N: t.N(14, 600), Fn: c25derive, Floor: map[string]int64{"compared:derive": 300}},
				{Name: "sign", Serial: true, N: t.N(60, 2500), Fn: c25sign, Floor: map[string]int64{"compared:sign": 400}},
				{Name: "shared-key", Serial: true, N: t.N(30, 1500), Fn: c25shared, Floor: map[string]int64{"compared:shared": 300}},
				{Name: "encrypt", Serial: true, N: t.N(16, 500), Fn: c25encrypt, Floor: map[string]int64{"compared:encrypt": 60, "compared:decrypt": 60}},
				{Name: "scalar-multiply", Serial: true, N: t.N(60, 3000), Fn: c25scalarMul, Needs: []string{"ge.scalarMultiply"}, Floor: map[string]int64{"compared:scalarMultiply": 1000}},
				{Name: "select", Serial: true, N: t.N(32, 320), Fn: c25select, Floor: map[string]int64{"compared:select": 500}},
				{Name: "radix16", Serial: true, N: t.N(10, 200), Fn: c25radix, Needs: []string{"ge.toRadix16"}, Floor: map[string]int64{"compared:toRadix16": 2000}},
				{Name: "modQ", Serial: true, N: t.N(20, 500), Fn: c25modQ, Needs: []string{"sc.modQ"}, Floor: map[string]int64{"compared:modQ": 2000}},
				{Name: "multiplyAndAddModQ", Serial: true, N: t.N(20, 500), Fn: c25mulAdd, Needs: []string{"sc.multiplyAndAddModQ"}, Floor: map[string]int64{"compared:multiplyAndAddModQ": 2000}},
				{Name: "field", Serial: true, N: t.N(40, 1000), Fn: c25field, Floor: map[string]int64{"compared:field": 1000}},
			}
		},
		Before: func() {
			tr.reset, _ = bridge[func()]("trace.reset")
			tr.read, _ = bridge[func(cnt []int64, idx [][2]uint64)]("trace.read")
			names, ok := bridge[func() (blocks, indices []string)]("trace.names")
			if !ok || tr.reset == nil || tr.read == nil {
				panic("this property needs the trace build")
			}
			tr.blocks, tr.indices = names()
			tr.lib = len(tr.blocks)
			if bn, ok := bridge[func() []string]("trace.big.names"); ok {
				reset, read := tr.reset, tr.read
				bigReset, _ := bridge[func()]("trace.big.reset")
				bigRead, _ := bridge[func(cnt []int64)]("trace.big.read")
				tr.blocks = append(append([]string{}, tr.blocks...), bn()...)
				tr.reset = func() { reset(); bigReset() }
				tr.read = func(cnt []int64, idx [][2]uint64) {
					read(cnt[:tr.lib], idx)
					bigRead(cnt[tr.lib:])
				}
			}
			tr.seen = make([]bool, len(tr.blocks))
		},
		After: func(c *C) {
			n := 0
			for i, s := range tr.seen {
				if s && i >= tr.lib {
					c.Hit("executed:math/big")
				} else if s {
					n++
					c.Hit("executed:" + strings.SplitN(tr.blocks[i], " ", 2)[1])
				}
			}
			c.HitN("blocks:instrumented", tr.lib-1)
			c.HitN("blocks:instrumented in math/big", len(tr.blocks)-tr.lib)
			c.HitN("blocks:executed", n)
			c.HitN("indices:instrumented", len(tr.indices)-1)
		},
	})
}

var tr struct {
	reset           func()
	read            func(cnt []int64, idx [][2]uint64)
	blocks, indices []string
	seen            []bool
	lib             int // number of blocks of the library; those of math/big follow
}

// profile is what one execution did: how often every block was entered and
// count and hash sum of the values of every index.
type profile struct {
	cnt   []int64
	idx   [][2]uint64
	again func() *profile // carries the execution out once more
}

func profileOf(f func()) *profile {
	p := &profile{make([]int64, len(tr.blocks)), make([][2]uint64, len(tr.indices)), func() *profile { return profileOf(f) }}
	tr.reset()
	f()
	tr.read(p.cnt, p.idx)
	for i, n := range p.cnt {
		if n != 0 {
			tr.seen[i] = true
		}
	}
	return p
}

// sub takes away what another execution did.
func (p *profile) sub(q *profile) *profile {
	r := &profile{make([]int64, len(p.cnt)), make([][2]uint64, len(p.idx)), func() *profile { return p.again().sub(q.again()) }}
	for i := range p.cnt {
		r.cnt[i] = p.cnt[i] - q.cnt[i]
	}
	for i := range p.idx {
		r.idx[i][0] = p.idx[i][0] - q.idx[i][0]
		r.idx[i][1] = p.idx[i][1] - q.idx[i][1]
	}
	return r
}

// diff lists the sites where two executions differ.
func (p *profile) diff(q *profile) map[string]string {
	d := map[string]string{}
	for i := range p.cnt {
		if p.cnt[i] != q.cnt[i] {
			d[tr.blocks[i]] = fmt.Sprintf("executed %d and %d times", p.cnt[i], q.cnt[i])
		}
	}
	for i := range p.idx {
		if p.idx[i][0] != q.idx[i][0] {
			d[tr.indices[i]] = fmt.Sprintf("evaluated %d and %d times", p.idx[i][0], q.idx[i][0])
		} else if p.idx[i] != q.idx[i] {
			d[tr.indices[i]] = fmt.Sprintf("took different values in %d evaluations", p.idx[i][0])
		}
	}
	return d
}

// sameProfile compares executions of one operation group by group.
type sameProfile struct {
	c    *C
	op   string
	base map[string]*runProfile
}

type runProfile struct {
	raw, sub *profile
	what     string
}

func newSame(c *C, op string) *sameProfile {
	return &sameProfile{c, op, map[string]*runProfile{}}
}

// add compares one execution with the first of its group. sub, when not nil,
// is the execution without work on public data: a site counts as different
// only when it differs in both.
func (s *sameProfile) add(group string, raw, sub *profile, what string) {
	if sub == nil {
		sub = raw
	}
	b := s.base[group]
	if b == nil {
		s.base[group] = &runProfile{raw, sub, what}
		return
	}
	s.c.Hit("compared:" + s.op)
	d := b.raw.diff(raw)
	if len(d) == 0 {
		return
	}
	e := b.sub.diff(sub)
	for k := range d {
		if _, ok := e[k]; !ok {
			delete(d, k)
		}
	}
	if len(d) == 0 {
		s.c.Hit("differs-on-public-data:" + s.op)
		return
	}
	// A difference counts when it stays the same whenever the two executions
	// are repeated: pools, caches and blinding differ from run to run.
	var x, y, sx, sy *profile
	for n := 0; n < 6; n++ {
		for _, r := range []struct {
			first **profile
			run   *profile
		}{{&x, b.raw}, {&y, raw}, {&sx, b.sub}, {&sy, sub}} {
			p := r.run.again()
			if *r.first == nil {
				*r.first = p
				continue
			}
			for k := range (*r.first).diff(p) {
				delete(d, k)
			}
		}
	}
	stable, sstable := x.diff(y), sx.diff(sy)
	n, msg := 0, ""
	for k := range d {
		if _, ok := sstable[k]; !ok || stable[k] == "" {
			continue
		}
		if n++; n <= 12 {
			msg += "  " + k + ": " + stable[k] + "\n"
		}
	}
	if n == 0 {
		s.c.Hit("differs-from-run-to-run:" + s.op)
		return
	}
	s.c.Fail(s.op+" depends on the secret", "%s (%s): %d places differ\n%s with %s\n and %s", s.op, group, n, msg, b.what, what)
}

// digits16 gives the signed base 16 digits of a 32-byte number below 2^255.
func digits16(s []byte) (d [64]int) {
	carry := 0
	for i := range d {
		v := int(s[i/2]>>(4*uint(i&1))&15) + carry
		carry = 0
		if v >= 8 && i < 63 {
			v -= 16
			carry = 1
		}
		d[i] = v
	}
	return
}

// score rates how special the digits of a scalar are, in a way picked by k.
func score(k int, s []byte) int {
	d := digits16(s)
	n := 0
	switch k % 8 {
	case 0: // zero digits
		for _, v := range d {
			if v == 0 {
				n++
			}
		}
	case 1: // zeros from below
		for n < 64 && d[n] == 0 {
			n++
		}
	case 2: // zeros from above, without the top digit
		for n < 62 && d[62-n] == 0 {
			n++
		}
	case 3: // negative digits
		for _, v := range d {
			if v < 0 {
				n++
			}
		}
	case 4:
		for _, v := range d {
			if v >= 0 {
				n++
			}
		}
	case 5: // digits of largest size
		for _, v := range d {
			if v == -8 || v == 7 {
				n++
			}
		}
	case 6: // equal neighbours
		for i := 1; i < 64; i++ {
			if d[i] == d[i-1] {
				n++
			}
		}
	case 7: // odd positions zero
		for i := 1; i < 64; i += 2 {
			if d[i] == 0 {
				n++
			}
		}
	}
	return n
}

// secretFor picks a private key; of is the scalar whose digits are to be special.
func (c *C) secretFor(tries int, of func(priv []byte) []byte) []byte {
	if c.R.Intn(3) > 0 {
		return c.privBytes()
	}
	k := c.R.Intn(8)
	best, bn := c.privBytes(), -1
	for i := 0; i < tries; i++ {
		p := c.R.Bytes(32)
		if n := score(k, of(p)); n > bn {
			best, bn = p, n
		}
	}
	c.Hit("secret:searched")
	return best
}

// generic tells whether public bytes are of no special form: code that works on
// public data may leave early when it meets a zero byte.
func generic(b []byte) bool {
	for _, v := range b {
		if v == 0 {
			return false
		}
	}
	return true
}

func signBit(b []byte) string { return fmt.Sprintf("sign bit %d", b[31]>>7) }

func scalarOf(priv []byte) []byte {
	a, _ := ref.Clamp(priv)
	return a
}

func c25derive(c *C) {
	gen := crypto.NewEd25519KeyGenerator(nil)
	eng := crypto.CryptoEngines.Ed25519Engine
	for _, op := range []string{"derive", "derive-pair"} {
		same := newSame(c, op)
		n := 60
		if op != "derive" {
			n = 15
		}
		for i := 0; i < n; i++ {
			priv := c.secretFor(1500, scalarOf)
			sk := crypto.NewPrivateKey(append([]byte{}, priv...))
			var pub *crypto.PublicKey
			var err error
			p := profileOf(func() {
				if op == "derive" {
					pub = gen.DerivePublicKey(sk)
					return
				}
				var kp *crypto.KeyPair
				kp, err = crypto.NewKeyPair(sk, nil, eng)
				if err == nil {
					pub = kp.PublicKey
				}
			})
			c.Check(err == nil && pub != nil && len(pub.Raw) == 32, op, "deriving from %x: %v", priv, err)
			c.Eval(priv)
			if !generic(pub.Raw) {
				continue
			}
			same.add(signBit(pub.Raw), p, nil, fmt.Sprintf("private key %x", priv))
		}
	}
}

func c25sign(c *C) {
	msg := c.msg(c.msgLen(600))
	if c.Idx == 0 {
		msg = []byte{}
	}
	same := newSame(c, "sign")
	for i := 0; i < 22; i++ {
		of := scalarOf
		if c.R.Bool() {
			of = func(p []byte) []byte { // the digits of the nonce
				_, pre := ref.Clamp(p)
				return ref.Reduce(ref.SHA3_512(pre, msg))
			}
		}
		priv := c.secretFor(300, of)
		kp := newPair(c, priv)
		s := crypto.NewEd25519DsaSigner(kp)
		var sig *crypto.Signature
		var err error
		p := profileOf(func() { sig, err = s.Sign(msg) })
		c.Check(err == nil && len(sig.R) == 32 && len(sig.S) == 32, "sign", "signing %s with %x: %v", hx(msg), priv, err)
		q := profileOf(func() { s.IsCanonicalSignature(sig) })
		c.Eval(priv, msg)
		if !generic(sig.R) || !generic(sig.S) || sig.S[31] >= 16 {
			continue
		}
		same.add(signBit(sig.R), p, p.sub(q), fmt.Sprintf("private key %x, message %s", priv, hx(msg)))
	}
}

func c25shared(c *C) {
	var peer []byte
	small := false
	switch c.R.Intn(6) {
	case 0:
		var p []byte
		for {
			q, cls := c.point()
			p = q.Bytes()
			small = cls == "small"
			if !small || c.R.Bool() {
				break
			}
		}
		peer = p
	default:
		peer = ref.Public(c.privBytes())
	}
	salt := c.R.Bytes(32)
	pk := crypto.NewPublicKey(peer)
	ciph := crypto.NewEd25519BlockCipher(newPair(c, c.R.Bytes(32)), c.pubPair(peer), nil)
	same := newSame(c, "shared")
	q8 := ref.Decode(peer)
	for i := 0; i < 26; i++ {
		priv := c.secretFor(800, scalarOf)
		sk := crypto.NewPrivateKey(append([]byte{}, priv...))
		var key []byte
		var err error
		p := profileOf(func() { key, err = ciph.GetSharedKey(sk, pk, salt) })
		c.Check(err == nil && len(key) == 32, "shared key", "shared key of %x and %x: %v", priv, peer, err)
		c.Eval(priv, peer)
		enc := ref.Mul(scalarOf(priv), q8).Bytes()
		if !small && !generic(enc) {
			continue
		}
		group := signBit(enc)
		if small {
			group += fmt.Sprintf(" %x", enc)
		}
		same.add(group, p, nil, fmt.Sprintf("private key %x, peer %x, salt %x", priv, peer, salt))
	}
}

func c25encrypt(c *C) {
	peer := ref.Public(c.privBytes())
	msg := c.msg(c.R.Intn(80))
	rnd := c.R.Bytes(48)
	same := newSame(c, "encrypt")
	back := newSame(c, "decrypt")
	q := ref.Decode(peer)
	for i := 0; i < 16; i++ {
		priv := c.secretFor(500, scalarOf)
		kp := newPair(c, priv)
		other := c.pubPair(peer)
		var ct, pt []byte
		var err error
		p := profileOf(func() {
			ct, err = crypto.NewEd25519BlockCipher(kp, other, strings.NewReader(string(rnd))).Encrypt(msg)
		})
		c.Check(err == nil, "encrypt", "encrypting %s with %x to %x: %v", hx(msg), priv, peer, err)
		// what the recipient of a message from peer does
		in := ref.Mul(scalarOf(priv), q).Bytes()
		rct, e := ref.Encrypt(priv, peer, rnd[:32], rnd[32:], msg)
		c.Check(e == nil && string(rct) == string(ct), "encrypt", "ciphertext %x, want %x", ct, rct)
		dec := crypto.NewEd25519BlockCipher(other, kp, nil)
		p2 := profileOf(func() { pt, err = dec.Decrypt(ct) })
		c.Check(err == nil && string(pt) == string(msg), "decrypt", "decrypting %x with %x: %x, %v", ct, priv, pt, err)
		c.Eval(priv, peer, msg)
		if !generic(in) || !generic(ct) {
			continue
		}
		w := fmt.Sprintf("private key %x, peer %x, message %x", priv, peer, msg)
		same.add(signBit(in), p, nil, w)
		back.add(signBit(in), p2, nil, w)
	}
}

func c25scalarMul(c *C) {
	mul := must[func(ge, []byte) ge]("ge.scalarMultiply")
	g := crypto.Ed25519Group.BASE_POINT()
	name := "base point"
	if c.Idx%3 == 2 {
		q := ref.Public(c.privBytes())
		e, err := crypto.NewEd25519EncodedGroupElement(q)
		if err == nil {
			g, err = e.Decode()
		}
		c.Check(err == nil, "decode", "decoding %x: %v", q, err)
		g.PrecomputeForScalarMultiplication()
		name = fmt.Sprintf("point %x", q)
	}
	same := newSame(c, "scalarMultiply")
	for i := 0; i < 24; i++ {
		s := c.scalar32()
		clamped := c.R.Bool()
		if clamped {
			s[0] &= 248
			s[31] |= 64
		} else {
			s = c.reducedScalar()
		}
		p := profileOf(func() { mul(g, s) })
		c.Eval(s)
		same.add(name, p, nil, fmt.Sprintf("scalar %x", s))
	}
}

func c25select(c *C) {
	g := crypto.Ed25519Group.BASE_POINT()
	if c.Idx%8 == 7 {
		e, err := crypto.NewEd25519EncodedGroupElement(ref.Public(c.privBytes()))
		if err == nil {
			g, err = e.Decode()
		}
		c.Check(err == nil, "decode", "%v", err)
		g.PrecomputeForScalarMultiplication()
	}
	pos := c.Idx % 32
	same := newSame(c, "select")
	for b := -8; b <= 8; b++ {
		p := profileOf(func() {
			if _, err := g.Select(pos, b); err != nil {
				c.Fail("select", "Select(%d, %d): %v", pos, b, err)
			}
		})
		c.Eval([]byte{byte(pos), byte(b)})
		same.add("table", p, nil, fmt.Sprintf("Select(%d, %d)", pos, b))
	}
}

func c25radix(c *C) {
	f := must[func(ge, []byte) []int8]("ge.toRadix16")
	same := newSame(c, "toRadix16")
	g := crypto.Ed25519Group.BASE_POINT()
	for i := 0; i < 400; i++ {
		s := c.scalar32()
		p := profileOf(func() { f(g, s) })
		c.Eval(s)
		same.add("all", p, nil, fmt.Sprintf("scalar %x", s))
	}
}

func c25modQ(c *C) {
	f := must[func([]byte) []byte]("sc.modQ")
	same := newSame(c, "modQ")
	for i := 0; i < 250; i++ {
		s := c.wide64()
		p := profileOf(func() { f(s) })
		c.Eval(s)
		same.add("64 bytes", p, nil, fmt.Sprintf("number %x", s))
	}
}

// wide64 returns a 64-byte number, often near a multiple of the group order.
func (c *C) wide64() []byte {
	switch c.R.Intn(4) {
	case 0:
		k := new(big.Int).Rsh(ref.Big(c.R.Bytes(32)), uint(c.R.Intn(256)))
		v := new(big.Int).Mul(k, ref.L)
		v.Add(v, bn(int64(c.R.Intn(5)-2)))
		if v.Sign() < 0 {
			v = bn(0)
		}
		return ref.LE(v, 64)
	case 1:
		s := make([]byte, 64)
		copy(s, c.scalar32())
		return s
	case 2:
		s := make([]byte, 64)
		copy(s[32:], c.scalar32())
		return s
	}
	return c.R.Bytes(64)
}

func c25mulAdd(c *C) {
	f := must[func(a, b, d []byte) []byte]("sc.multiplyAndAddModQ")
	same := newSame(c, "multiplyAndAddModQ")
	for i := 0; i < 200; i++ {
		h, a, r := c.reducedScalar(), c.scalar32(), c.reducedScalar()
		a[0] &= 248
		a[31] |= 64
		p := profileOf(func() { f(h, a, r) })
		c.Eval(h, a, r)
		same.add("32 bytes", p, nil, fmt.Sprintf("%x * %x + %x", h, a, r))
	}
}

func c25field(c *C) {
	bin := []string{"fe.multiply", "fe.add", "fe.subtract"}
	un := []string{"fe.square", "fe.squareAndDouble", "fe.negate"}
	b := bnd11
	vals := make([]limbs, 30)
	for i := range vals {
		switch {
		case i < 3:
			vals[i] = limbs{int64(i)}
		default:
			vals[i] = c.toLimbs(c.fieldVal(), b)
		}
	}
	for _, n := range bin {
		f, ok := bridge[func(a, b limbs) limbs](n)
		if !ok {
			continue
		}
		same := newSame(c, "field")
		for i := range vals {
			x, y := vals[i], vals[c.R.Intn(len(vals))]
			p := profileOf(func() { f(x, y) })
			c.Eval([]byte(fmt.Sprint(n, x, y)))
			same.add(n, p, nil, fmt.Sprint(x, y))
		}
	}
	for _, n := range un {
		f, ok := bridge[func(a limbs) limbs](n)
		if !ok {
			continue
		}
		same := newSame(c, "field")
		for i := range vals {
			x := vals[i]
			p := profileOf(func() { f(x) })
			c.Eval([]byte(fmt.Sprint(n, x)))
			same.add(n, p, nil, fmt.Sprint(x))
		}
	}
}
