// Bridge of the verification harness (added by a build overlay only).

package crypto

import "math/big"

func init() {
	VerifReg["mu.getSqrtOfFraction"] = func(u, v *big.Int) *big.Int {
		return MathUtils.getSqrtOfFraction(u, v)
	}
}
