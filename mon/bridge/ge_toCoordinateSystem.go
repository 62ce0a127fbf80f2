// Bridge of the verification harness (added by a build overlay only).

package crypto

func init() {
	VerifReg["ge.toCoordinateSystem"] = func(a *Ed25519GroupElement, c CoordinateSystem) *Ed25519GroupElement {
		return a.toCoordinateSystem(c)
	}
}
