// Bridge of the verification harness (added by a build overlay only).

package crypto

func init() {
	VerifReg["ge.precomputedAdd"] = func(a, b *Ed25519GroupElement) *Ed25519GroupElement {
		r, err := a.precomputedAdd(b)
		if err != nil {
			panic(err)
		}
		return r
	}
}
