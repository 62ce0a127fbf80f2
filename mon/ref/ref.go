// Package ref is the independent reference the monitors compare the library
// with: Ed25519 with SHA3-512, the block cipher format and the hash functions.
// It shares no code with the library; the curve arithmetic is the one of the
// Go standard library (crypto/internal/fips140/edwards25519), in package ed,
// which SelfTest cross-checks against plain big-integer formulas.
package ref

import (
	"bytes"
	"crypto/aes"
	"crypto/ed25519"
	"crypto/sha256"
	"crypto/sha3"
	"crypto/sha512"
	"encoding/hex"
	"errors"
	"fmt"
	"math/big"

	"verifmon/ref/ed"
)

var (
	// P is the field order, L the order of the base point, D the curve constant.
	P = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 255), big.NewInt(19))
	L = mustBig("7237005577332262213973186563042994240857116359379907606001950938285454250989")
	D = func() *big.Int {
		d := new(big.Int).ModInverse(big.NewInt(121666), P)
		d.Mul(d, big.NewInt(-121665))
		return d.Mod(d, P)
	}()
	// SqrtM1 is a square root of -1 (2^((p-1)/4)).
	SqrtM1 = func() *big.Int {
		e := new(big.Int).Rsh(new(big.Int).Sub(P, big.NewInt(1)), 2)
		return new(big.Int).Exp(big.NewInt(2), e, P)
	}()
)

func mustBig(s string) *big.Int {
	n, ok := new(big.Int).SetString(s, 10)
	if !ok {
		panic(s)
	}
	return n
}

// LE returns the n-byte little-endian form of v.
func LE(v *big.Int, n int) []byte {
	b := v.FillBytes(make([]byte, n))
	Reverse(b)
	return b
}

// Big reads little-endian bytes.
func Big(b []byte) *big.Int {
	c := append([]byte(nil), b...)
	Reverse(c)
	return new(big.Int).SetBytes(c)
}

// Reverse reverses b in place.
func Reverse(b []byte) {
	for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
		b[i], b[j] = b[j], b[i]
	}
}

// SHA3_512 hashes the concatenation of the parts.
func SHA3_512(parts ...[]byte) []byte {
	h := sha3.New512()
	for _, p := range parts {
		h.Write(p)
	}
	return h.Sum(nil)
}

// SHA3_256 is the standard hash.
func SHA3_256(b []byte) []byte { s := sha3.Sum256(b); return s[:] }

// SHA256 is the standard hash.
func SHA256(b []byte) []byte { s := sha256.Sum256(b); return s[:] }

// ---- scalars ----

// Reduce returns v mod L as 32 little-endian bytes.
func Reduce(b []byte) []byte {
	if len(b) == 64 {
		s, err := ed.NewScalar().SetUniformBytes(b)
		if err != nil {
			panic(err)
		}
		return s.Bytes()
	}
	v := Big(b)
	return LE(v.Mod(v, L), 32)
}

func scalar(b []byte) *ed.Scalar {
	s, err := ed.NewScalar().SetCanonicalBytes(b)
	if err != nil {
		panic(err)
	}
	return s
}

// Clamp returns the clamped secret scalar of a private key and the prefix.
func Clamp(priv []byte) (a, prefix []byte) {
	h := SHA3_512(priv)
	h[0] &= 248
	h[31] &= 127
	h[31] |= 64
	return h[:32:32], h[32:]
}

// MulBase returns s*B for any 32-byte s.
func MulBase(s []byte) *ed.Point {
	return new(ed.Point).ScalarBaseMult(scalar(Reduce(s)))
}

// Mul returns s*Q for any little-endian integer s and any curve point Q
// (double and add, so exact for points outside the prime-order subgroup too).
func Mul(s []byte, q *ed.Point) *ed.Point {
	r := ed.NewIdentityPoint()
	for i := len(s)*8 - 1; i >= 0; i-- {
		r.Add(r, r)
		if s[i/8]>>(i%8)&1 == 1 {
			r.Add(r, q)
		}
	}
	return r
}

// DoubleMul returns b*B - a*A for reduced a, b and any point A.
func DoubleMul(a []byte, A *ed.Point, b []byte) *ed.Point {
	n := new(ed.Point).Negate(A)
	return new(ed.Point).VarTimeDoubleScalarBaseMult(scalar(a), n, scalar(b))
}

// Decode decodes 32 bytes, nil when they are no curve point.
func Decode(b []byte) *ed.Point {
	p, err := new(ed.Point).SetBytes(b)
	if err != nil {
		return nil
	}
	return p
}

// ---- signatures ----

// Public returns the public key of a private key.
func Public(priv []byte) []byte {
	a, _ := Clamp(priv)
	return MulBase(a).Bytes()
}

// Sign returns the signature of msg; pub is hashed as it is.
func Sign(priv, pub, msg []byte) []byte {
	a, prefix := Clamp(priv)
	r := Reduce(SHA3_512(prefix, msg))
	R := MulBase(r).Bytes()
	h := Reduce(SHA3_512(R, pub, msg))
	s := ed.NewScalar().MultiplyAdd(scalar(h), scalar(Reduce(a)), scalar(r))
	return append(append([]byte{}, R...), s.Bytes()...)
}

// Canonical reports 0 < S < L.
func Canonical(s []byte) bool {
	if len(s) != 32 {
		return false
	}
	v := Big(s)
	return v.Sign() > 0 && v.Cmp(L) < 0
}

// HRAM returns H(R,A,M) mod L.
func HRAM(R, A, M []byte) []byte { return Reduce(SHA3_512(R, A, M)) }

// Verify is the acceptance condition of the library's documentation.
func Verify(pub, msg, sig []byte) bool {
	if len(pub) != 32 || len(sig) != 64 || !Canonical(sig[32:]) {
		return false
	}
	if bytes.Equal(pub, make([]byte, 32)) {
		return false
	}
	A := Decode(pub)
	if A == nil {
		return false
	}
	h := HRAM(sig[:32], pub, msg)
	return bytes.Equal(DoubleMul(h, A, sig[32:]).Bytes(), sig[:32])
}

// ---- block cipher ----

// SharedKey is SHA3-256(encode(a*Q) xor salt).
func SharedKey(priv, pub, salt []byte) ([]byte, error) {
	if len(pub) != 32 || len(salt) != 32 {
		return nil, errors.New("length")
	}
	Q := Decode(pub)
	if Q == nil {
		return nil, errors.New("no point")
	}
	a, _ := Clamp(priv)
	// a is a multiple of 8: a*Q = (a/8)*(8*Q), and 8*Q has order L
	e8 := new(ed.Point).Add(Q, Q)
	e8.Add(e8, e8)
	e8.Add(e8, e8)
	ai := Big(a)
	ai.Rsh(ai, 3).Mod(ai, L)
	k := new(ed.Point).ScalarMult(scalar(LE(ai, 32)), e8).Bytes()
	for i := range k {
		k[i] ^= salt[i]
	}
	return SHA3_256(k), nil
}

// CBC encrypts whole blocks without padding.
func CBC(key, iv, pt []byte) []byte {
	c, err := aes.NewCipher(key)
	if err != nil {
		panic(err)
	}
	out := make([]byte, len(pt))
	prev := iv
	for i := 0; i < len(pt); i += 16 {
		var b [16]byte
		for j := range b {
			b[j] = pt[i+j] ^ prev[j]
		}
		c.Encrypt(out[i:i+16], b[:])
		prev = out[i : i+16]
	}
	return out
}

// UnCBC decrypts whole blocks.
func UnCBC(key, iv, ct []byte) []byte {
	c, err := aes.NewCipher(key)
	if err != nil {
		panic(err)
	}
	out := make([]byte, len(ct))
	prev := iv
	for i := 0; i < len(ct); i += 16 {
		c.Decrypt(out[i:i+16], ct[i:i+16])
		for j := 0; j < 16; j++ {
			out[i+j] ^= prev[j]
		}
		prev = ct[i : i+16]
	}
	return out
}

// Pad is PKCS#7.
func Pad(m []byte) []byte {
	n := 16 - len(m)%16
	return append(append([]byte{}, m...), bytes.Repeat([]byte{byte(n)}, n)...)
}

// Unpad undoes PKCS#7.
func Unpad(b []byte) ([]byte, bool) {
	if len(b) == 0 || len(b)%16 != 0 {
		return nil, false
	}
	n := int(b[len(b)-1])
	if n < 1 || n > 16 {
		return nil, false
	}
	for _, v := range b[len(b)-n:] {
		if int(v) != n {
			return nil, false
		}
	}
	return b[:len(b)-n], true
}

// Encrypt builds a ciphertext in the wire format.
func Encrypt(priv, pub, salt, iv, msg []byte) ([]byte, error) {
	k, err := SharedKey(priv, pub, salt)
	if err != nil {
		return nil, err
	}
	out := append(append([]byte{}, salt...), iv...)
	return append(out, CBC(k, iv, Pad(msg))...), nil
}

// Decrypt reads a ciphertext in the wire format.
func Decrypt(priv, pub, ct []byte) ([]byte, error) {
	if len(ct) < 64 || len(ct)%16 != 0 {
		return nil, errors.New("length")
	}
	k, err := SharedKey(priv, pub, ct[:32])
	if err != nil {
		return nil, err
	}
	m, ok := Unpad(UnCBC(k, ct[32:48], ct[48:]))
	if !ok {
		return nil, errors.New("padding")
	}
	return m, nil
}

// ---- affine group law with big integers ----

// AddAffine adds two affine points.
func AddAffine(x1, y1, x2, y2 *big.Int) (*big.Int, *big.Int) {
	m := func(a, b *big.Int) *big.Int { r := new(big.Int).Mul(a, b); return r.Mod(r, P) }
	one := big.NewInt(1)
	t := m(D, m(m(x1, x2), m(y1, y2)))
	nx := new(big.Int).Add(m(x1, y2), m(x2, y1))
	ny := new(big.Int).Add(m(y1, y2), m(x1, x2))
	dx := new(big.Int).Add(one, t)
	dy := new(big.Int).Sub(one, t)
	dy.Mod(dy, P)
	return m(nx, dx.ModInverse(dx, P)), m(ny, dy.ModInverse(dy, P))
}

// EncodeAffine encodes an affine point.
func EncodeAffine(x, y *big.Int) []byte {
	b := LE(y, 32)
	b[31] |= byte(x.Bit(0)) << 7
	return b
}

// DecodeBig decodes with big integers; ok is false when there is no point.
func DecodeBig(b []byte) (x, y *big.Int, ok bool) {
	y = Big(b)
	sign := y.Bit(255)
	y.SetBit(y, 255, 0).Mod(y, P)
	yy := new(big.Int).Mul(y, y)
	u := new(big.Int).Sub(yy, big.NewInt(1))
	v := new(big.Int).Mul(D, yy)
	v.Add(v, big.NewInt(1)).Mod(v, P)
	w := u.Mul(u, v.ModInverse(v, P))
	w.Mod(w, P)
	x = new(big.Int).ModSqrt(w, P)
	if x == nil {
		return nil, nil, false
	}
	if x.Sign() != 0 && x.Bit(0) != sign {
		x.Sub(P, x)
	}
	return x, y, true
}

// MulAffine is double and add on affine big integers.
func MulAffine(s, x, y *big.Int) (*big.Int, *big.Int) {
	rx, ry := big.NewInt(0), big.NewInt(1)
	for i := s.BitLen() - 1; i >= 0; i-- {
		rx, ry = AddAffine(rx, ry, rx, ry)
		if s.Bit(i) == 1 {
			rx, ry = AddAffine(rx, ry, x, y)
		}
	}
	return rx, ry
}

// Torsion returns the eight points of small order; Torsion()[i] = i*T8.
var Torsion = func() []*ed.Point {
	// order-8 point: L times some full-order point
	for y := int64(2); ; y++ {
		b := LE(big.NewInt(y), 32)
		q := Decode(b)
		if q == nil {
			continue
		}
		t := Mul(LE(L, 32), q)
		t4 := new(ed.Point).Add(t, t)
		t4.Add(t4, t4)
		if t4.Equal(ed.NewIdentityPoint()) == 1 {
			continue
		}
		out := []*ed.Point{ed.NewIdentityPoint()}
		for i := 1; i < 8; i++ {
			out = append(out, new(ed.Point).Add(out[i-1], t))
		}
		return out
	}
}()

// SmallEncodings returns every 32-byte string that decodes to a small-order
// point, with the index of the point in Torsion (canonical and other forms).
func SmallEncodings() (encs [][]byte, idx []int) {
	for i, t := range Torsion {
		_, y := t.Affine()
		x, _ := t.Affine()
		for _, add := range []*big.Int{big.NewInt(0), P} {
			v := new(big.Int).Add(y, add)
			if v.BitLen() > 255 {
				continue
			}
			for _, sign := range []byte{0, 1} {
				if x.Sign() != 0 && byte(x.Bit(0)) != sign {
					continue
				}
				b := LE(v, 32)
				b[31] |= sign << 7
				encs = append(encs, b)
				idx = append(idx, i)
			}
		}
	}
	return
}

// SelfTest checks the reference against itself and published values.
func SelfTest() error {
	hx := func(s string) []byte {
		b, err := hex.DecodeString(s)
		if err != nil {
			panic(err)
		}
		return b
	}
	vec := []struct {
		f    func([]byte) []byte
		in   string
		want string
	}{
		{Keccak256, "", "c5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470"},
		{SHA3_256, "", "a7ffc6f8bf1ed76651c14756a061d662f580ff4de43b49fa82d80a4b80f8434a"},
		{SHA3_256, "abc", "3a985da74fe225b2045c172d6bd390bd855f086e3e9d525b46bfe24511431532"},
		{SHA256, "abc", "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad"},
		{Ripemd160, "", "9c1185a5c5e9fc54612808977ee8f548b2258d31"},
		{Ripemd160, "abc", "8eb208f7e05d987a9b044a8e98c6b087f15a0bfc"},
		{Ripemd160, "abcdbcdecdefdefgefghfghighijhijkijkljklmklmnlmnomnopnopq", "12a053384a9c0c88e405a06c27dcf49ada62eb2b"},
	}
	for _, v := range vec {
		if got := v.f([]byte(v.in)); !bytes.Equal(got, hx(v.want)) {
			return fmt.Errorf("reference hash of %q: %x", v.in, got)
		}
	}
	// own keccak against the standard library
	for n := 0; n < 300; n += 7 {
		b := bytes.Repeat([]byte{byte(n)}, n)
		if !bytes.Equal(keccak(b, 136, 6, 32), SHA3_256(b)) || !bytes.Equal(keccak(b, 72, 6, 64), SHA3_512(b)) {
			return errors.New("keccak differs from crypto/sha3")
		}
	}
	// curve: SHA-512 public keys of crypto/ed25519, and big-integer formulas
	bx, by, ok := DecodeBig(ed.NewGeneratorPoint().Bytes())
	if !ok {
		return errors.New("base point")
	}
	for i := 0; i < 3; i++ {
		seed := SHA256([]byte{byte(i)})
		h := sha512.Sum512(seed)
		h[0] &= 248
		h[31] &= 127
		h[31] |= 64
		pub := ed25519.NewKeyFromSeed(seed).Public().(ed25519.PublicKey)
		if !bytes.Equal(MulBase(h[:32]).Bytes(), pub) {
			return errors.New("base multiplication differs from crypto/ed25519")
		}
		x, y := MulAffine(Big(h[:32]), bx, by)
		if !bytes.Equal(EncodeAffine(x, y), pub) {
			return errors.New("affine multiplication differs from crypto/ed25519")
		}
		if !bytes.Equal(Mul(h[:32], ed.NewGeneratorPoint()).Bytes(), pub) {
			return errors.New("double and add differs from crypto/ed25519")
		}
		q := new(ed.Point).Add(MulBase(seed), Torsion[i+1])
		qx, qy, ok := DecodeBig(q.Bytes())
		if !ok {
			return errors.New("decode")
		}
		a := Reduce(h[:])
		ax, ay := MulAffine(Big(a), qx, qy)
		sx, sy := MulAffine(Big(Reduce(seed)), bx, by)
		ax.Sub(P, ax).Mod(ax, P)
		rx, ry := AddAffine(sx, sy, ax, ay)
		if !bytes.Equal(DoubleMul(a, q, Reduce(seed)).Bytes(), EncodeAffine(rx, ry)) {
			return errors.New("double multiplication differs from the affine formulas")
		}
	}
	return nil
}
