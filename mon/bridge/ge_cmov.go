// Bridge of the verification harness (added by a build overlay only).

package crypto

func init() {
	VerifReg["ge.cmov"] = func(a, u *Ed25519GroupElement, b int) (*Ed25519GroupElement, error) {
		return a.cmov(u, b)
	}
}
