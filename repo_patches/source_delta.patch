From aab6c8af0177441a857f27d9870b9cfc8c65df4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:41 +0000
Subject: [PATCH 01/15] fix: accept only well-formed signatures with 0 < S <
 group order as canonical

IsCanonicalSignature compared the low 64 bits of S only, so S + k * group
order (and S >= group order in general) was canonical and Verify accepted a
second signature for the same message, while an S whose low 64 bits are zero
or equal to those of the group order was refused. A nil signature or an R or S
that is not 32 bytes long made Verify panic.
---
 ed25519_model.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/ed25519_model.go b/ed25519_model.go
index 77e25af..d6790a6 100644
--- a/ed25519_model.go
+++ b/ed25519_model.go
@@ -324,13 +324,22 @@ func (ref *Ed25519DsaSigner) Verify(mess []byte, signature *Signature) (res bool
 // IsCanonicalSignature check signature on canonical
 func (ref *Ed25519DsaSigner) IsCanonicalSignature(signature *Signature) bool {
 
-	sgnS := signature.GetS().Uint64()
-	return sgnS != Ed25519Group.GROUP_ORDER.Uint64() && sgnS > 0
+	if signature == nil || len(signature.R) != 32 || len(signature.S) != 32 {
+		return false
+	}
+
+	// 0 < S < group order
+	s := signature.GetS()
+	return s.Sign() > 0 && s.Cmp(Ed25519Group.GROUP_ORDER) < 0
 }
 
 // MakeSignatureCanonical return canonical signature
 func (ref *Ed25519DsaSigner) MakeSignatureCanonical(signature *Signature) (*Signature, error) {
 
+	if signature == nil {
+		return nil, errors.New("signature must not be nil")
+	}
+
 	sign := make([]byte, 64)
 	copy(sign, signature.S)
 	s, err := NewEd25519EncodedFieldElement(sign)
-- 
2.43.0


From 07518b5e04936c140f4db7a2d8b18ad49b10b01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:41 +0000
Subject: [PATCH 02/15] fix: Verify refuses a public key that is not 32 bytes
 long

A 64 byte public key was decoded from its first half.
---
 ed25519_model.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ed25519_model.go b/ed25519_model.go
index d6790a6..cc140ef 100644
--- a/ed25519_model.go
+++ b/ed25519_model.go
@@ -296,7 +296,12 @@ func (ref *Ed25519DsaSigner) Verify(mess []byte, signature *Signature) (res bool
 	// hReduced = h mod group order
 	hModQ := h.modQ()
 	// Must compute A.
-	A, err := (&Ed25519EncodedGroupElement{rawEncodedA}).Decode()
+	encodedA, err := NewEd25519EncodedGroupElement(rawEncodedA)
+	if err != nil {
+		fmt.Println(err)
+		return false
+	}
+	A, err := encodedA.Decode()
 	if err != nil {
 		fmt.Println(err)
 		return false
-- 
2.43.0


From 88774de17f6c70c82bfd9cff416ab665a8ba1d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:42 +0000
Subject: [PATCH 03/15] fix: Decrypt returns an error for input that is not a
 whole number of blocks

crypto/cipher panics when the ciphertext is not a multiple of the block size.
---
 ed25519_model.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ed25519_model.go b/ed25519_model.go
index cc140ef..a645459 100644
--- a/ed25519_model.go
+++ b/ed25519_model.go
@@ -179,6 +179,9 @@ func (ref *Ed25519BlockCipher) Decrypt(input []byte) ([]byte, error) {
 	if len(input) < 64 {
 		return nil, errors.New("input is to short for decryption")
 	}
+	if len(input)%16 != 0 {
+		return nil, errors.New("input is not a whole number of blocks")
+	}
 
 	salt := input[:ref.keyLength]
 	ivData := input[ref.keyLength:48]
-- 
2.43.0


From 4ee8c84574ef027126568ada80078d9d7f3e0b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:42 +0000
Subject: [PATCH 04/15] fix: Encrypt and Decrypt without the private key they
 need return an error

They panicked with a nil dereference, as did GetSharedKey with a short salt.
---
 ed25519_model.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ed25519_model.go b/ed25519_model.go
index a645459..50a91a3 100644
--- a/ed25519_model.go
+++ b/ed25519_model.go
@@ -118,6 +118,12 @@ func (ref *Ed25519BlockCipher) decode(ciphertext []byte, sharedKey []byte, ivDat
 
 // GetSharedKey create shared bytes
 func (ref *Ed25519BlockCipher) GetSharedKey(privateKey *PrivateKey, publicKey *PublicKey, salt []byte) ([]byte, error) {
+	if privateKey == nil {
+		return nil, errors.New("cannot create shared key without private key")
+	}
+	if len(salt) < ref.keyLength {
+		return nil, errors.New("salt is too short")
+	}
 
 	grA, err := NewEd25519EncodedGroupElement(publicKey.Raw)
 	if err != nil {
-- 
2.43.0


From 6be3248d1d4a80c8809758c1164858e8e87b1472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:42 +0000
Subject: [PATCH 05/15] fix: Signature.Bytes does not write behind R

append(ref.R, ...) wrote S into the spare capacity of R, which is memory of the
caller (and a data race between concurrent Bytes or String calls).
---
 signature.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/signature.go b/signature.go
index 8d1bae4..488481f 100644
--- a/signature.go
+++ b/signature.go
@@ -71,7 +71,9 @@ func (ref *Signature) GetS() *big.Int {
 // Bytes Gets a little-endian 64-byte representation of the signature.
 func (ref *Signature) Bytes() []byte {
 
-	return append(ref.R, ref.S...)
+	b := make([]byte, 0, len(ref.R)+len(ref.S))
+	b = append(b, ref.R...)
+	return append(b, ref.S...)
 }
 
 func (ref *Signature) String() string {
-- 
2.43.0


From 8b15e0226af49baace644589c56936dfbf9d0c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:43 +0000
Subject: [PATCH 06/15] fix: NewSignatureFromBigInt accepts exactly the values
 that fit into 32 bytes

It looked at the low 64 bits only: R and S of real signatures were refused,
values that do not fit into 32 bytes could be accepted and truncated, and
negative values lost their sign.
---
 signature.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/signature.go b/signature.go
index 488481f..33d62a3 100644
--- a/signature.go
+++ b/signature.go
@@ -7,7 +7,6 @@ package crypto
 import (
 	"encoding/hex"
 	"errors"
-	"math"
 	"math/big"
 
 	"github.com/proximax-storage/go-xpx-utils"
@@ -37,8 +36,8 @@ func NewSignature(r []byte, s []byte) (*Signature, error) {
 // NewSignatureFromBigInt create new Signature from big.Int parts
 func NewSignatureFromBigInt(rInt, sInt *big.Int) (*Signature, error) {
 	if (rInt == nil) || (sInt == nil) ||
-		(rInt.Uint64() > math.MaxInt32) ||
-		(sInt.Uint64() > math.MaxInt32) {
+		(rInt.Sign() < 0) || (rInt.BitLen() > 256) ||
+		(sInt.Sign() < 0) || (sInt.BitLen() > 256) {
 		return nil, errBadParamNewSignatureBigInt
 	}
 
-- 
2.43.0


From f6a2912e3c21a3578c13c721d4955894c1c94e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:43 +0000
Subject: [PATCH 07/15] fix: NewPrivateKeyFromBigInt keeps the leading zero
 bytes of a 32 byte key

big.Int.Bytes drops them, so the key of a big.Int below 2^248 was shorter than
32 bytes and had another public key than the 32 byte key it stands for.
---
 key_model.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/key_model.go b/key_model.go
index ef1ba0a..5342e1c 100644
--- a/key_model.go
+++ b/key_model.go
@@ -44,7 +44,11 @@ func NewPrivateKey(raw []byte) *PrivateKey {
 
 // NewPrivateKeyFromBigInt creates a new private key from []byte
 func NewPrivateKeyFromBigInt(val *big.Int) *PrivateKey {
-	return &PrivateKey{val, val.Bytes()}
+	raw := val.Bytes()
+	if len(raw) < 32 {
+		raw = append(make([]byte, 32-len(raw)), raw...)
+	}
+	return &PrivateKey{val, raw}
 }
 
 // NewPrivateKeyfromHexString creates a private key from a hex strings.
-- 
2.43.0


From 5837f870ebef05ac40e15f803d8dc4fbd8317e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:44 +0000
Subject: [PATCH 08/15] fix: AddGroupElements does not corrupt the x-coordinate
 of its first point

Multiplying the shallow copy of a big.Int by a one word number works in place
and overwrote the digits of the original: adding a point with a small affine
coordinate gave a point that is not on the curve.
---
 math.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/math.go b/math.go
index 480e390..08d910e 100644
--- a/math.go
+++ b/math.go
@@ -541,7 +541,8 @@ func (ref *mathUtils) AddGroupElements(g1 *Ed25519GroupElement, g2 *Ed25519Group
 }
 
 func (ref *mathUtils) XMulY_Plus_ZMulT_DelD(x big.Int, y, z, t, d *big.Int) *big.Int {
-	b := &x
+	// x shares its digits with the value of the caller
+	b := (&big.Int{}).Set(&x)
 	return b.Mul(b, y).Add(b, (&big.Int{}).Mul(z, t)).Mul(b, d.ModInverse(d, Ed25519Field.P)).Mod(b, Ed25519Field.P)
 }
 
-- 
2.43.0


From 62b75310f10f11ae3336cab61a751a0964b7b2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:44 +0000
Subject: [PATCH 09/15] fix: GetAffineXFromAffineY and ToGroupElement recover
 the right x-coordinate

v * x^2 was computed as v * x, and taking the sign of x overwrote x with its
lowest bit, so that every valid point was refused or decoded to a wrong point.
ToGroupElement also cleared the sign bit in the array of the caller.
---
 math.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/math.go b/math.go
index 08d910e..f225c5d 100644
--- a/math.go
+++ b/math.go
@@ -172,8 +172,8 @@ func (ref *mathUtils) ToFieldElement(b *big.Int) *Ed25519FieldElement {
 func (ref *mathUtils) ToGroupElement(bytes []byte) (*Ed25519GroupElement, error) {
 
 	shouldBeNegative := (bytes[31] >> 7) != 0
-	bytes[31] &= 0x7f
 	y := ref.BytesToBigInteger(bytes)
+	y.SetBit(y, 255, 0)
 	x, err := ref.GetAffineXFromAffineY(y, shouldBeNegative)
 	if err != nil {
 		return nil, err
@@ -206,7 +206,7 @@ func (ref *mathUtils) GetAffineXFromAffineY(y *big.Int, shouldBeNegative bool) (
 	x := ref.getSqrtOfFraction(u, v)
 
 	vx2 := (&big.Int{}).Mul(v, x)
-	vx2.Mul(v, x)
+	vx2.Mul(vx2, x).Mod(vx2, Ed25519Field.P)
 
 	if v.Sub(vx2, u).Mod(v, Ed25519Field.P).Cmp(bigIntegerZERO()) != 0 {
 		if vx2.Add(vx2, u).Mod(vx2, Ed25519Field.P).Cmp(bigIntegerZERO()) != 0 {
@@ -216,7 +216,7 @@ func (ref *mathUtils) GetAffineXFromAffineY(y *big.Int, shouldBeNegative bool) (
 		x = x.Mul(x, ref.IntsToBigInteger(Ed25519Field.I.Raw)).Mod(x, Ed25519Field.P)
 	}
 
-	isNegative := x.Mod(x, big.NewInt(2)).Cmp(bigIntegerONE()) == 0 // final
+	isNegative := x.Bit(0) == 1 // final
 	if (shouldBeNegative && !isNegative) || (!shouldBeNegative && isNegative) {
 		x = x.Neg(x).Mod(x, Ed25519Field.P)
 	}
-- 
2.43.0


From 365c64824bac86b2f56db0e8c59031fbcd176e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:44 +0000
Subject: [PATCH 10/15] fix: ToRepresentation converts from PRECOMPUTED
 coordinates

x and y are (gX -+ gY) / 2; the inverse was taken of the product instead.
---
 math.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/math.go b/math.go
index f225c5d..75c0d36 100644
--- a/math.go
+++ b/math.go
@@ -287,12 +287,10 @@ func (ref *mathUtils) ToRepresentation(g *Ed25519GroupElement, newCoorSys Coordi
 
 		return ref.getNeeCoor(x, y, newCoorSys)
 	case PRECOMPUTED:
-		// safaty gX for next calculation
-		x := (&big.Int{}).Sub(gX, gY)
-		x = x.Mul(x, gZ.Mul(gZ, big.NewInt(2))).ModInverse(x, Ed25519Field.P).Mod(x, Ed25519Field.P)
-
-		y := gX.Add(gX, gY)
-		y = y.Mul(y, big.NewInt(2)).ModInverse(y, Ed25519Field.P).Mod(y, Ed25519Field.P)
+		// (gX, gY) = (y + x, y - x)
+		two := big.NewInt(2)
+		x := xMulYModInverseAndModP((&big.Int{}).Sub(gX, gY), two)
+		y := xMulYModInverseAndModP((&big.Int{}).Add(gX, gY), two)
 		return ref.getNeeCoor(x, y, newCoorSys)
 	}
 	return nil, errors.New("NewUnsupportedOperationException")
-- 
2.43.0


From c6e364a2930b0a95038b6c088c4e28c5cdebaf68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:20 +0000
Subject: [PATCH 11/15] fix: Equals of group elements does not depend on the
 order of its operands

A P2 element equalled its P3 representation, but not the other way round: the
conversion of ge to the coordinate system of ref panicked and was reported as
inequality. Elements of different coordinate systems are now compared in
projective coordinates; AFFINE elements can be compared too.
---
 ed25519_encode.go | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/ed25519_encode.go b/ed25519_encode.go
index 05b61a7..9f1a01b 100644
--- a/ed25519_encode.go
+++ b/ed25519_encode.go
@@ -2105,14 +2105,7 @@ func NewEd25519GroupElementCached(
 func (ref *Ed25519GroupElement) Equals(ge *Ed25519GroupElement) (res bool) {
 
 	if ref.coordinateSystem != ge.coordinateSystem {
-		defer func() {
-			err := recover()
-			if err != nil {
-				fmt.Printf("%v, %d, %d", err, ref.coordinateSystem, ge.coordinateSystem)
-				res = false
-			}
-		}()
-		ge = ge.toCoordinateSystem(ref.coordinateSystem)
+		return ref.projective().Equals(ge.projective())
 	}
 
 	switch ref.coordinateSystem {
@@ -2126,6 +2119,8 @@ func (ref *Ed25519GroupElement) Equals(ge *Ed25519GroupElement) (res bool) {
 		x2 := ge.X.multiply(*(ref.Z))
 		y2 := ge.Y.multiply(*(ref.Z))
 		return x1.Equals(&x2) && y1.Equals(&y2)
+	case AFFINE:
+		return ref.X.Equals(ge.X) && ref.Y.Equals(ge.Y)
 	case P1xP1:
 		return ref.toP2().Equals(ge)
 	case PRECOMPUTED:
@@ -2149,6 +2144,28 @@ func (ref *Ed25519GroupElement) Equals(ge *Ed25519GroupElement) (res bool) {
 
 }
 
+// projective converts a group element of any coordinate system to P2.
+func (ref *Ed25519GroupElement) projective() *Ed25519GroupElement {
+
+	switch ref.coordinateSystem {
+	case AFFINE:
+		return NewEd25519GroupElementP2(ref.X, ref.Y, Ed25519FieldOne())
+	case PRECOMPUTED, CACHED:
+		// (X, Y) = (y + x, y - x), each times Z in CACHED coordinates;
+		// multiply reduces the limbs before they are added
+		yPlusX := ref.X.multiply(Ed25519Field.ONE)
+		yMinusX := ref.Y.multiply(Ed25519Field.ONE)
+		x := yPlusX.subtract(yMinusX)
+		y := yPlusX.add(yMinusX)
+		z := *Ed25519FieldTWO()
+		if ref.coordinateSystem == CACHED {
+			z = ref.Z.multiply(z)
+		}
+		return NewEd25519GroupElementP2(&x, &y, &z)
+	}
+	return ref.toP2()
+}
+
 // Convert a to 2^16 bit representation.
 // *
 // * @param encoded The encode field element.
-- 
2.43.0


From e5dce7df62b374618a194917ce09a70ce19e83d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:20 +0000
Subject: [PATCH 12/15] fix: String of a group element without T coordinate
 does not panic

---
 ed25519_encode.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ed25519_encode.go b/ed25519_encode.go
index 9f1a01b..95bab5c 100644
--- a/ed25519_encode.go
+++ b/ed25519_encode.go
@@ -915,6 +915,10 @@ func (ref *Ed25519FieldElement) Equals(ge *Ed25519FieldElement) bool {
 
 func (ref *Ed25519FieldElement) String() string {
 
+	if ref == nil {
+		// the T coordinate is not used in every coordinate system
+		return ""
+	}
 	return ref.Encode().String()
 }
 
-- 
2.43.0


From eff9de59322f245bb9ca311175441fd3774d7e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:50 +0000
Subject: [PATCH 13/15] fix: the conditional move of scalar multiplication does
 not branch on the secret

cmov, and with it Select, is documented to be constant time without secret
branching, but chose one of two pointers with an if on the secret digit.
---
 ed25519_encode.go | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/ed25519_encode.go b/ed25519_encode.go
index 95bab5c..7db8dea 100644
--- a/ed25519_encode.go
+++ b/ed25519_encode.go
@@ -2803,12 +2803,33 @@ func (ref *Ed25519GroupElement) negate() (*Ed25519GroupElement, error) {
 // * @return u if b == 1; ref if b == 0; nil otherwise.
 func (ref *Ed25519GroupElement) cmov(u *Ed25519GroupElement, b int) (*Ed25519GroupElement, error) {
 
-	if b == 1 {
-		return u, nil
-	} else if b == 0 {
-		return ref, nil
+	if b&^1 != 0 {
+		return nil, errors.New("parameter 'b' must by in range {0,1}")
 	}
-	return nil, errors.New("parameter 'b' must by in range {0,1}")
+
+	r := NewEd25519GroupElement(
+		ref.coordinateSystem,
+		ref.X.cmov(u.X, b),
+		ref.Y.cmov(u.Y, b),
+		ref.Z.cmov(u.Z, b),
+		nil)
+	if ref.T != nil && u.T != nil {
+		r.T = ref.T.cmov(u.T, b)
+	}
+	return r, nil
+}
+
+// Constant-time conditional move.
+// * @param u The field element to return if b == 1.
+// * @param b in {0, 1}
+// * @return u if b == 1; ref if b == 0.
+func (ref *Ed25519FieldElement) cmov(u *Ed25519FieldElement, b int) *Ed25519FieldElement {
+
+	h := ref.Raw
+	for i := range h {
+		h[i] ^= -int64(b) & (h[i] ^ u.Raw[i])
+	}
+	return &Ed25519FieldElement{h}
 }
 
 /**
-- 
2.43.0


From 058e1cedb2dc1574c3e1b77784db189c8c328c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:03 +0000
Subject: [PATCH 14/15] fix: Decrypt with a recipient key that is not 32 bytes
 long returns an error

---
 ed25519_model.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ed25519_model.go b/ed25519_model.go
index 50a91a3..16a73f2 100644
--- a/ed25519_model.go
+++ b/ed25519_model.go
@@ -188,6 +188,9 @@ func (ref *Ed25519BlockCipher) Decrypt(input []byte) ([]byte, error) {
 	if len(input)%16 != 0 {
 		return nil, errors.New("input is not a whole number of blocks")
 	}
+	if ref.keyLength != compressedKeySize {
+		return nil, ErrInvalidSizePublicKey
+	}
 
 	salt := input[:ref.keyLength]
 	ivData := input[ref.keyLength:48]
-- 
2.43.0


From 917dd4b42556fd2f6cca540867b844ccbdb59993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:06 +0000
Subject: [PATCH 15/15] fix: XMulY_Plus_ZMulT_DelD leaves its arguments as they
 are

---
 math.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math.go b/math.go
index 75c0d36..be6bbc1 100644
--- a/math.go
+++ b/math.go
@@ -541,7 +541,7 @@ func (ref *mathUtils) AddGroupElements(g1 *Ed25519GroupElement, g2 *Ed25519Group
 func (ref *mathUtils) XMulY_Plus_ZMulT_DelD(x big.Int, y, z, t, d *big.Int) *big.Int {
 	// x shares its digits with the value of the caller
 	b := (&big.Int{}).Set(&x)
-	return b.Mul(b, y).Add(b, (&big.Int{}).Mul(z, t)).Mul(b, d.ModInverse(d, Ed25519Field.P)).Mod(b, Ed25519Field.P)
+	return b.Mul(b, y).Add(b, (&big.Int{}).Mul(z, t)).Mul(b, (&big.Int{}).ModInverse(d, Ed25519Field.P)).Mod(b, Ed25519Field.P)
 }
 
 /** DoubleGroupElement
-- 
2.43.0

