// Bridge of the verification harness (added by a build overlay only).

package crypto

func init() {
	VerifReg["mu.multiplyAndAddModGroupOrder"] = func(a, b, c *Ed25519EncodedFieldElement) *Ed25519EncodedFieldElement {
		return MathUtils.multiplyAndAddModGroupOrder(a, b, c)
	}
}
