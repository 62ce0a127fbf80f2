// Bridge of the verification harness (added by a build overlay only).

package crypto

func init() {
	VerifReg["ge.subtract"] = func(a, b *Ed25519GroupElement) *Ed25519GroupElement {
		return a.subtract(b)
	}
}
