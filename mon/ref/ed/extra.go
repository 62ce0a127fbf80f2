package ed

import (
	"math/big"

	"verifmon/ref/ed/field"
)

// Additions of the verification harness: access to affine coordinates.

func feBig(v *field.Element) *big.Int {
	b := v.Bytes()
	for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
		b[i], b[j] = b[j], b[i]
	}
	return new(big.Int).SetBytes(b)
}

// Affine returns the affine coordinates of v.
func (v *Point) Affine() (x, y *big.Int) {
	var zi, fx, fy field.Element
	zi.Invert(&v.z)
	fx.Multiply(&v.x, &zi)
	fy.Multiply(&v.y, &zi)
	return feBig(&fx), feBig(&fy)
}
