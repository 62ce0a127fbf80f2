// Bridge of the verification harness (added by a build overlay only).

package crypto

func init() {
	VerifReg["ge.negate"] = func(a *Ed25519GroupElement) *Ed25519GroupElement {
		r, err := a.negate()
		if err != nil {
			panic(err)
		}
		return r
	}
}
