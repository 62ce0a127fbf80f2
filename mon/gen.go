package main

import (
	"bytes"
	"fmt"
	"math/big"

	crypto "github.com/proximax-storage/go-xpx-crypto"

	"verifmon/ref"
	"verifmon/ref/ed"
)

// ---- guarded memory ----

// guarded is a slice with spare capacity and canaries around it.
type guarded struct {
	full []byte
	want []byte
	B    []byte
}

// guard copies b into memory with 32 canary bytes before and 80 behind it; the
// slice handed out has spare capacity that ends inside the canary.
func (c *C) guard(b []byte) *guarded {
	g := &guarded{full: make([]byte, 32+len(b)+80)}
	c.R.Fill(g.full)
	copy(g.full[32:], b)
	g.want = append([]byte(nil), g.full...)
	g.B = g.full[32 : 32+len(b) : 32+len(b)+64]
	return g
}

func (g *guarded) check(c *C, what string) {
	if !bytes.Equal(g.full, g.want) {
		for i := range g.full {
			if g.full[i] != g.want[i] {
				c.Fail("argument changed", "%s: byte %d of %d (slice starts at 32, %d long) changed from %02x to %02x", what, i, len(g.full), len(g.B), g.want[i], g.full[i])
			}
		}
	}
}

// ---- bytes ----

// privBytes returns a 32-byte private key of some class.
func (c *C) privBytes() []byte {
	k := c.R.Bytes(32)
	switch c.R.Intn(12) {
	case 0:
		for i, n := 0, 1+c.R.Intn(31); i < n; i++ {
			k[i] = 0
		}
		c.Hit("key:leading-zeros")
	case 1:
		for i, n := 0, 1+c.R.Intn(31); i < n; i++ {
			k[31-i] = 0
		}
		c.Hit("key:trailing-zeros")
	case 2:
		v := []byte{0, 0xff, 1, 0x80, 0x7f, byte(c.R.U64())}[c.R.Intn(6)]
		for i := range k {
			k[i] = v
		}
		c.Hit("key:constant")
	case 3:
		for i := range k {
			k[i] = 0
		}
		k[c.R.Intn(32)] = 1 << uint(c.R.Intn(8))
		c.Hit("key:one-bit")
	case 4:
		for i := range k {
			k[i] = "0123456789abcdef"[k[i]&15]
		}
		c.Hit("key:text")
	default:
		c.Hit("key:random")
	}
	return c.R.planted(k)
}

var rateLens = []int{0, 1, 2, 15, 16, 17, 31, 32, 33, 39, 40, 41, 47, 48, 55, 56, 63, 64, 65, 71, 72, 73, 103, 104, 105, 111, 112, 119, 120, 127, 128, 129, 135, 136, 137, 143, 144, 145, 207, 208, 216, 255, 256, 257, 271, 272, 288, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097}

// msgLen picks a message length with the hash and cipher block boundaries in mind.
func (c *C) msgLen(max int) int {
	for {
		n := 0
		switch c.R.Intn(8) {
		case 0, 1:
			n = rateLens[c.R.Intn(len(rateLens))]
		case 2:
			n = 72*c.R.Intn(30) + c.R.Intn(3) - 1
		case 3:
			n = 72*(1+c.R.Intn(30)) - 32 + c.R.Intn(3) - 1
		case 4:
			n = 72*(1+c.R.Intn(30)) - 64 + c.R.Intn(3) - 1
		case 5:
			n = c.R.Intn(300)
		case 6:
			n = 1 << uint(c.R.Intn(17))
			n += c.R.Intn(3) - 1
		case 7:
			n = c.R.Intn(64)
		}
		if n >= 0 && n <= max {
			return n
		}
	}
}

// edgeByte returns a byte that code handling texts, paddings or terminators looks for.
func (c *C) edgeByte() byte {
	return []byte{0, 0, 0xff, 0x80, 1, 0x10, ' ', '\n', '\r', '\t', '"', '0', 0xef, 0x7f, byte(c.R.U64()), byte(c.R.U64())}[c.R.Intn(16)]
}

// msg returns a message of n bytes of some content class.
func (c *C) msg(n int) []byte {
	m := c.R.Bytes(n)
	switch c.R.Intn(8) {
	case 0:
		for i := range m {
			m[i] = 0
		}
		c.Hit("msg:zeros")
	case 1:
		for i := range m {
			m[i] = 0xff
		}
		c.Hit("msg:ones")
	case 2:
		v := byte(c.R.Intn(32))
		for i := range m {
			m[i] = v
		}
		c.Hit("msg:constant")
	case 3:
		for i := range m {
			m[i] = m[i]%26 + 'a'
		}
		c.Hit("msg:text")
	case 4:
		// runs of one byte at the ends: what trims, strips or skips would touch
		h, e := c.R.Intn(n+1), c.R.Intn(n+1)
		if c.R.Bool() && n > 2 {
			h, e = c.R.Intn(3), c.R.Intn(3)
		}
		v, w := c.edgeByte(), c.edgeByte()
		for i := 0; i < h; i++ {
			m[i] = v
		}
		for i := n - e; i < n; i++ {
			m[i] = w
		}
		c.Hit("msg:edges")
	case 5:
		if c.R.Bool() {
			for i := range m {
				m[i] = "0123456789abcdefABCDEF"[int(m[i])%22]
			}
			if n >= 2 && c.R.Bool() {
				copy(m, "0x")
			}
			c.Hit("msg:hex")
		}
	default:
		c.Hit("msg:random")
	}
	switch {
	case n == 0:
		c.Hit("msglen:0")
		if c.R.Bool() {
			c.Hit("msg:nil")
			return nil
		}
	case n < 72:
		c.Hit("msglen:1-71")
	case n < 1024:
		c.Hit("msglen:72-1023")
	case n < 65536:
		c.Hit("msglen:1K-64K")
	default:
		c.Hit("msglen:64K+")
	}
	return c.R.planted(m)
}

// ---- key pairs of the library ----

func newPair(c *C, priv []byte) *crypto.KeyPair {
	kp, err := crypto.NewKeyPair(crypto.NewPrivateKey(append([]byte(nil), priv...)), nil, nil)
	if err != nil {
		c.Fail("NewKeyPair", "NewKeyPair(%s): %v", hx(priv), err)
	}
	return kp
}

// pairFor builds a key pair of a private key on one of the construction paths.
func (c *C) pairFor(priv []byte) (*crypto.KeyPair, string) {
	raw := append([]byte(nil), priv...)
	var eng crypto.CryptoEngine
	switch c.R.Intn(3) {
	case 1:
		eng = crypto.CryptoEngines.DefaultEngine
	case 2:
		eng = crypto.CryptoEngines.Ed25519Engine
	}
	var kp *crypto.KeyPair
	var err error
	path := ""
	switch c.R.Intn(7) {
	case 0:
		path = "raw"
		kp, err = crypto.NewKeyPair(crypto.NewPrivateKey(raw), nil, eng)
	case 1:
		path = "hex"
		var k *crypto.PrivateKey
		k, err = crypto.NewPrivateKeyfromHexString(fmt.Sprintf("%x", raw))
		if err == nil {
			kp, err = crypto.NewKeyPair(k, nil, eng)
		}
	case 2:
		path = "hex-upper"
		var k *crypto.PrivateKey
		k, err = crypto.NewPrivateKeyfromHexString(fmt.Sprintf("%X", raw))
		if err == nil {
			kp, err = crypto.NewKeyPair(k, nil, eng)
		}
	case 3:
		path = "bigint"
		kp, err = crypto.NewKeyPair(crypto.NewPrivateKeyFromBigInt(new(big.Int).SetBytes(raw)), nil, eng)
	case 4:
		path = "both"
		kp, err = crypto.NewKeyPair(crypto.NewPrivateKey(raw), crypto.NewPublicKey(ref.Public(priv)), eng)
	case 5:
		path = "generator"
		kp, err = crypto.NewEd25519KeyGenerator(bytes.NewReader(raw)).GenerateKeyPair()
	case 6:
		path = "literal"
		kp = &crypto.KeyPair{PrivateKey: crypto.NewPrivateKey(raw), PublicKey: crypto.NewPublicKey(ref.Public(priv))}
	}
	if err != nil || kp == nil {
		c.Fail("key pair", "building a key pair of %s (%s): %v", hx(priv), path, err)
	}
	c.Hit("pair:" + path)
	return kp, path
}

func (c *C) pubPair(pub []byte) *crypto.KeyPair {
	kp, err := crypto.NewKeyPair(nil, crypto.NewPublicKey(append([]byte(nil), pub...)), nil)
	if err != nil {
		c.Fail("NewKeyPair", "NewKeyPair(nil, %s): %v", hx(pub), err)
	}
	return kp
}

// signerOf is what both kinds of signers offer.
type signerOf interface {
	Sign([]byte) (*crypto.Signature, error)
	Verify([]byte, *crypto.Signature) bool
	IsCanonicalSignature(*crypto.Signature) bool
	MakeSignatureCanonical(*crypto.Signature) (*crypto.Signature, error)
}

// signer wraps a key pair on one of the construction paths.
func (c *C) signer(kp *crypto.KeyPair) signerOf {
	switch c.R.Intn(6) {
	case 0:
		return crypto.NewSignerFromKeyPair(kp, nil)
	case 1:
		return crypto.NewSignerFromKeyPair(kp, crypto.CryptoEngines.DefaultEngine)
	case 2:
		return crypto.NewSignerFromKeyPair(kp, crypto.CryptoEngines.Ed25519Engine)
	case 3:
		return crypto.NewEd25519DsaSigner(kp)
	case 4:
		return crypto.NewSigner(crypto.NewEd25519DsaSigner(kp))
	}
	return crypto.CryptoEngines.Ed25519Engine.CreateDsaSigner(kp)
}

func sigBytes(s *crypto.Signature) []byte {
	return append(append([]byte{}, s.R...), s.S...)
}

func mkSig(b []byte) *crypto.Signature {
	return &crypto.Signature{R: append([]byte(nil), b[:32]...), S: append([]byte(nil), b[32:]...)}
}

// ---- big integers and limbs ----

var (
	one   = big.NewInt(1)
	expo  = [10]uint{0, 26, 51, 77, 102, 128, 153, 179, 204, 230}
	width = [10]uint{26, 25, 26, 25, 26, 25, 26, 25, 26, 25}
)

func bn(x int64) *big.Int { return big.NewInt(x) }

func pow2(n uint) *big.Int { return new(big.Int).Lsh(one, n) }

func modP(v *big.Int) *big.Int { return new(big.Int).Mod(v, ref.P) }

// limbVal is the integer the limbs stand for (not reduced).
func limbVal(h limbs) *big.Int {
	s := new(big.Int)
	for i := range h {
		s.Add(s, new(big.Int).Lsh(bn(h[i]), expo[i]))
	}
	return s
}

// bound is a limb bound: even and odd indices.
type bound struct{ even, odd int64 }

var (
	bnd101 = bound{33889976, 16944988}   // 1.01*2^25, 1.01*2^24
	bnd11  = bound{36909875, 18454937}   // 1.1*2^25, 1.1*2^24
	bnd11d = bound{73819750, 36909875}   // 1.1*2^26, 1.1*2^25
	bnd165 = bound{110729625, 55364812}  // 1.65*2^26, 1.65*2^25
	bnd27  = bound{1<<27 - 1, 1<<27 - 1} // |h| < 2^27
)

func (b bound) at(i int) int64 {
	if i&1 == 0 {
		return b.even
	}
	return b.odd
}

func (b bound) holds(h limbs) int {
	for i, v := range h {
		if v > b.at(i) || v < -b.at(i) {
			return i
		}
	}
	return -1
}

// toLimbs gives a signed-limb representation of v mod p within bnd11, with
// random redundancy.
func (c *C) toLimbs(v *big.Int, b bound) limbs {
	v = modP(v)
	switch c.R.Intn(4) {
	case 0: // another representative of the class
		v.Sub(v, ref.P)
	}
	var h limbs
	rest := new(big.Int).Set(v)
	unsigned := b.even >= 1<<26 && b.odd >= 1<<25 && c.R.Intn(4) == 0
	for i := 0; i < 9; i++ {
		// centred digit
		m := new(big.Int).And(rest, new(big.Int).Sub(pow2(width[i]), one))
		d := m.Int64()
		if d >= 1<<(width[i]-1) && !unsigned {
			d -= 1 << width[i]
		}
		h[i] = d
		rest.Sub(rest, bn(d)).Rsh(rest, width[i])
	}
	h[9] = rest.Int64()
	for h[9] > b.odd {
		h[9] -= 1 << 25
		h[0] += 19
	}
	for h[9] < -b.odd {
		h[9] += 1 << 25
		h[0] -= 19
	}
	if unsigned && c.R.Bool() {
		return h
	}
	for n := c.R.Intn(12); n > 0; n-- {
		i := c.R.Intn(10)
		t := h
		s := int64(1)
		if c.R.Bool() {
			s = -1
		}
		t[i] += s << width[i]
		if i == 9 {
			t[0] -= 19 * s
		} else {
			t[i+1] -= s
		}
		if b.holds(t) < 0 {
			h = t
		}
	}
	return h
}

func (c *C) feOf(v *big.Int, b bound) *crypto.Ed25519FieldElement {
	return crypto.NewEd25519FieldElement(c.toLimbs(v, b))
}

// anyLimbs returns limbs within a bound, often at its extremes.
func (c *C) anyLimbs(b bound) (h limbs) {
	style := c.R.Intn(8)
	for i := range h {
		m := b.at(i)
		s := style
		if s == 7 {
			s = c.R.Intn(7)
		}
		switch s {
		case 0:
			h[i] = int64(c.R.U64()%uint64(2*m+1)) - m
		case 1:
			h[i] = m
		case 2:
			h[i] = -m
		case 3:
			h[i] = m
			if c.R.Bool() {
				h[i] = -m
			}
		case 4:
			h[i] = int64(c.R.Intn(3)) - 1
		case 5:
			h[i] = 1 << uint(c.R.Intn(26))
			h[i] += int64(c.R.Intn(3)) - 1
			if c.R.Bool() {
				h[i] = -h[i]
			}
			if h[i] > m {
				h[i] = m
			}
			if h[i] < -m {
				h[i] = -m
			}
		case 6:
			if c.R.Intn(4) == 0 {
				h[i] = m - int64(c.R.Intn(3))
			}
		}
	}
	c.Hit(fmt.Sprintf("limbs:style%d", style))
	return
}

// fieldVal returns a field value, often a special one.
func (c *C) fieldVal() *big.Int {
	switch c.R.Intn(8) {
	case 0:
		return bn(int64(c.R.Intn(40)))
	case 1:
		return new(big.Int).Sub(ref.P, bn(int64(1+c.R.Intn(40))))
	case 2:
		v := pow2(uint(c.R.Intn(255)))
		v.Add(v, bn(int64(c.R.Intn(5)-2)))
		return modP(v)
	case 3:
		return modP([]*big.Int{ref.SqrtM1, ref.D, new(big.Int).Lsh(ref.D, 1), new(big.Int).Rsh(ref.P, 1), new(big.Int).Neg(ref.SqrtM1), new(big.Int).Neg(ref.D)}[c.R.Intn(6)])
	}
	return modP(ref.Big(c.R.Bytes(32)))
}

// scalar32 returns a 32-byte little-endian number below 2^255, often special.
func (c *C) scalar32() []byte {
	s := c.R.Bytes(32)
	switch c.R.Intn(12) {
	case 0:
		v := new(big.Int).Mul(ref.L, bn(int64(c.R.Intn(8))))
		v.Add(v, bn(int64(c.R.Intn(5)-2)))
		if v.Sign() < 0 {
			v = bn(0)
		}
		s = ref.LE(v, 32)
		c.Hit("scalar:near-kL")
	case 1:
		v := pow2(uint(c.R.Intn(255)))
		v.Add(v, bn(int64(c.R.Intn(3)-1)))
		s = ref.LE(v, 32)
		c.Hit("scalar:near-2^k")
	case 2:
		n := byte(c.R.Intn(16))
		for i := range s {
			s[i] = n<<4 | n
		}
		c.Hit("scalar:same-nibbles")
	case 3:
		d := []byte{0x00, 0x77, 0x78, 0x87, 0x88, 0xff, 0xf0, 0x0f, 0x80, 0x08}
		for i := range s {
			s[i] = d[c.R.Intn(len(d))]
		}
		c.Hit("scalar:extreme-digits")
	case 4:
		for i := range s {
			s[i] = 0
		}
		for n := 1 + c.R.Intn(3); n > 0; n-- {
			s[c.R.Intn(32)] |= 1 << uint(c.R.Intn(8))
		}
		c.Hit("scalar:sparse")
	case 5:
		n := c.R.Intn(32)
		for i := n; i < 32; i++ {
			s[i] = 0
		}
		c.Hit("scalar:short")
	case 6:
		n := c.R.Intn(32)
		for i := 0; i < n; i++ {
			s[i] = 0
		}
		c.Hit("scalar:low-zeros")
	case 7:
		a, b := c.R.Intn(255), c.R.Intn(255)
		if a > b {
			a, b = b, a
		}
		v := new(big.Int).Sub(pow2(uint(b+1)), pow2(uint(a)))
		s = ref.LE(v, 32)
		c.Hit("scalar:run-of-ones")
	default:
		c.Hit("scalar:random")
	}
	s[31] &= 0x7f
	return s
}

// reducedScalar returns a number in [0, L), often special.
func (c *C) reducedScalar() []byte {
	for n := 0; n < 4; n++ {
		s := c.scalar32()
		if ref.Big(s).Cmp(ref.L) < 0 {
			return s
		}
		s[31] &= 0x0f
		if ref.Big(s).Cmp(ref.L) < 0 {
			return s
		}
	}
	return ref.Reduce(c.scalar32())
}

// ---- points ----

// point returns a curve point and its class.
func (c *C) point() (*ed.Point, string) {
	switch c.R.Intn(8) {
	case 0:
		c.Hit("point:small-order")
		return new(ed.Point).Set(ref.Torsion[c.R.Intn(8)]), "small"
	case 1:
		c.Hit("point:mixed-order")
		return new(ed.Point).Add(ref.MulBase(c.R.Bytes(32)), ref.Torsion[1+c.R.Intn(7)]), "mixed"
	case 2:
		c.Hit("point:small-multiple")
		return ref.MulBase(ref.LE(bn(int64(c.R.Intn(40))), 32)), "multiple"
	case 3:
		for {
			y := ref.LE(c.fieldVal(), 32)
			if p := ref.Decode(y); p != nil {
				c.Hit("point:special-y")
				if c.R.Bool() {
					p.Negate(p)
				}
				return p, "special"
			}
		}
	}
	c.Hit("point:prime-order")
	return ref.MulBase(c.R.Bytes(32)), "prime"
}

// zval returns a non-zero Z coordinate.
func (c *C) zval() *big.Int {
	if c.R.Intn(3) == 0 {
		return bn(1)
	}
	for {
		if z := c.fieldVal(); z.Sign() != 0 {
			return z
		}
	}
}

const (
	AFFINE      = crypto.AFFINE
	P2          = crypto.P2
	P3          = crypto.P3
	P1xP1       = crypto.P1xP1
	PRECOMPUTED = crypto.PRECOMPUTED
	CACHED      = crypto.CACHED
)

var sysNames = map[sys]string{AFFINE: "AFFINE", P2: "P2", P3: "P3", P1xP1: "P1xP1", PRECOMPUTED: "PRECOMPUTED", CACHED: "CACHED"}

func mulP(a ...*big.Int) *big.Int {
	r := bn(1)
	for _, v := range a {
		r.Mul(r, v).Mod(r, ref.P)
	}
	return r
}

// rep builds a library group element of a coordinate system for an affine
// point, with a random projective scaling and random limb redundancy.
func (c *C) rep(x, y *big.Int, s sys) ge {
	b := bnd11
	switch s {
	case AFFINE:
		return crypto.NewEd25519GroupElementAffine(c.feOf(x, b), c.feOf(y, b), c.feOf(bn(1), b))
	case P2:
		z := c.zval()
		return crypto.NewEd25519GroupElementP2(c.feOf(mulP(x, z), b), c.feOf(mulP(y, z), b), c.feOf(z, b))
	case P3:
		z := c.zval()
		return crypto.NewEd25519GroupElementP3(c.feOf(mulP(x, z), b), c.feOf(mulP(y, z), b), c.feOf(z, b), c.feOf(mulP(x, y, z), b))
	case P1xP1:
		z, t := c.zval(), c.zval()
		return crypto.NewEd25519GroupElementP1XP1(c.feOf(mulP(x, z), b), c.feOf(mulP(y, t), b), c.feOf(z, b), c.feOf(t, b))
	case PRECOMPUTED:
		return crypto.NewEd25519GroupElementPrecomputed(c.feOf(new(big.Int).Add(y, x), b), c.feOf(new(big.Int).Sub(y, x), b), c.feOf(mulP(bn(2), ref.D, x, y), b))
	case CACHED:
		z := c.zval()
		return crypto.NewEd25519GroupElementCached(c.feOf(mulP(z, new(big.Int).Add(y, x)), b), c.feOf(mulP(z, new(big.Int).Sub(y, x)), b), c.feOf(z, b), c.feOf(mulP(bn(2), ref.D, x, y, z), b))
	}
	panic("coordinate system")
}

// affineOf reads the point a library group element stands for, from its
// limbs. ok is false when the coordinates contradict each other or a
// denominator is zero.
func affineOf(g ge) (x, y *big.Int, ok bool) {
	v := func(f *crypto.Ed25519FieldElement) *big.Int { return modP(limbVal(f.Raw)) }
	inv := func(a *big.Int) *big.Int { return new(big.Int).ModInverse(a, ref.P) }
	switch g.GetCoordinateSystem() {
	case AFFINE:
		return v(g.X), v(g.Y), true
	case P2, P3:
		zi := inv(v(g.Z))
		if zi == nil {
			return nil, nil, false
		}
		x, y = mulP(v(g.X), zi), mulP(v(g.Y), zi)
		if g.GetCoordinateSystem() == P3 {
			return x, y, mulP(v(g.T), zi).Cmp(mulP(x, y)) == 0
		}
		return x, y, true
	case P1xP1:
		zi, ti := inv(v(g.Z)), inv(v(g.T))
		if zi == nil || ti == nil {
			return nil, nil, false
		}
		return mulP(v(g.X), zi), mulP(v(g.Y), ti), true
	case PRECOMPUTED, CACHED:
		z := bn(1)
		t := (*big.Int)(nil)
		if g.GetCoordinateSystem() == CACHED {
			z = v(g.Z)
			t = v(g.T)
		} else {
			t = v(g.Z)
		}
		zi := inv(new(big.Int).Lsh(z, 1))
		if zi == nil {
			return nil, nil, false
		}
		a, b := v(g.X), v(g.Y)
		x, y = mulP(modP(new(big.Int).Sub(a, b)), zi), mulP(modP(new(big.Int).Add(a, b)), zi)
		return x, y, mulP(bn(2), ref.D, x, y, z).Cmp(t) == 0
	}
	return nil, nil, false
}

func encOf(g ge) ([]byte, bool) {
	x, y, ok := affineOf(g)
	if !ok {
		return nil, false
	}
	return ref.EncodeAffine(x, y), true
}

func geStr(g ge) string {
	f := func(e *crypto.Ed25519FieldElement) string {
		if e == nil {
			return "nil"
		}
		return fmt.Sprint(e.Raw)
	}
	return fmt.Sprintf("%s X=%s Y=%s Z=%s T=%s", sysNames[g.GetCoordinateSystem()], f(g.X), f(g.Y), f(g.Z), f(g.T))
}
