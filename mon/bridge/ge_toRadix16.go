// Bridge of the verification harness (added by a build overlay only).

package crypto

func init() {
	VerifReg["ge.toRadix16"] = func(a *Ed25519GroupElement, s []byte) []int8 {
		e, err := NewEd25519EncodedFieldElement(s)
		if err != nil {
			panic(err)
		}
		return a.toRadix16(e)
	}
}
