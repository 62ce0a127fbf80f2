// Bridge of the verification harness (added by a build overlay only).

package crypto

import "io"

func init() {
	VerifReg["engine.seeded"] = func(r io.Reader) CryptoEngine {
		return &Ed25519SeedCryptoEngine{r}
	}
}
