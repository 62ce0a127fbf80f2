// Bridge of the verification harness (added by a build overlay only).

package crypto

func init() {
	VerifReg["ge.scalarMultiply"] = func(a *Ed25519GroupElement, s []byte) *Ed25519GroupElement {
		e, err := NewEd25519EncodedFieldElement(s)
		if err != nil {
			panic(err)
		}
		r, err := a.scalarMultiply(e)
		if err != nil {
			panic(err)
		}
		return r
	}
}
