// Bridge of the verification harness (added by a build overlay only).

package crypto

func init() {
	VerifReg["ge.precomputedForSingle"] = func(a *Ed25519GroupElement) [][]*Ed25519GroupElement {
		return a.precomputedForSingle
	}
}
