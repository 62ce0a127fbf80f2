// Bridge of the verification harness (added by a build overlay only).

package crypto

func init() {
	VerifReg["fe.multiply"] = func(a, b [10]int64) [10]int64 {
		return Ed25519FieldElement{a}.multiply(Ed25519FieldElement{b}).Raw
	}
}
