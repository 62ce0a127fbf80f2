// Bridge of the verification harness (added by a build overlay only).

package crypto

func init() {
	VerifReg["sc.multiplyAndAddModQ"] = func(a, b, c []byte) []byte {
		x, err := NewEd25519EncodedFieldElement(a)
		if err != nil {
			panic(err)
		}
		y, err := NewEd25519EncodedFieldElement(b)
		if err != nil {
			panic(err)
		}
		z, err := NewEd25519EncodedFieldElement(c)
		if err != nil {
			panic(err)
		}
		return x.multiplyAndAddModQ(y, z).Raw
	}
}
