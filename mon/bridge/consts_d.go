// Bridge of the verification harness (added by a build overlay only).

package crypto

func init() {
	VerifReg["consts.d"] = func() []FieldElements {
		return []FieldElements{d, d2}
	}
}
