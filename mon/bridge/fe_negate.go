// Bridge of the verification harness (added by a build overlay only).

package crypto

func init() {
	VerifReg["fe.negate"] = func(a [10]int64) [10]int64 {
		return Ed25519FieldElement{a}.negate().Raw
	}
}
