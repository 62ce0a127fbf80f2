// Bridge of the verification harness (added by a build overlay only).

package crypto

func init() {
	VerifReg["sc.modQ"] = func(b []byte) []byte {
		e, err := NewEd25519EncodedFieldElement(b)
		if err != nil {
			panic(err)
		}
		return e.modQ().Raw
	}
}
