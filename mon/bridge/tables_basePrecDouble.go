// Bridge of the verification harness (added by a build overlay only).

package crypto

func init() {
	VerifReg["tables.basePrecDouble"] = func() []*Ed25519GroupElement {
		return basePrecDouble
	}
}
