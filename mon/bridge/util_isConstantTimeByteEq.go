// Bridge of the verification harness (added by a build overlay only).

package crypto

func init() {
	VerifReg["util.isConstantTimeByteEq"] = func(a, b int) int {
		return isConstantTimeByteEq(a, b)
	}
}
