// Bridge of the verification harness (added by a build overlay only).

package crypto

func init() {
	VerifReg["pk.hex"] = func(k *PublicKey) string {
		return k.hex()
	}
}
