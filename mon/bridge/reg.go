// Bridge of the verification harness (added by a build overlay only).

package crypto

// VerifReg maps names of package-private operations to functions.
var VerifReg = map[string]interface{}{}
