// Bridge of the verification harness (added by a build overlay only).

package crypto

import "math/big"

func init() {
	VerifReg["mu.toEncodedFieldElement"] = func(b *big.Int) (*Ed25519EncodedFieldElement, error) {
		return MathUtils.toEncodedFieldElement(b)
	}
}
