package main

import (
	crypto "github.com/proximax-storage/go-xpx-crypto"
)

// bridge returns a package-private operation, ok is false when the tree has
// none of that name and type (its bridge file did not compile).
func bridge[T any](name string) (fn T, ok bool) {
	v, found := crypto.VerifReg[name]
	if !found {
		return
	}
	fn, ok = v.(T)
	return
}

func must[T any](name string) T {
	fn, ok := bridge[T](name)
	if !ok {
		panic("bridge " + name)
	}
	return fn
}

func missingBridges(names []string) (miss []string) {
	for _, n := range names {
		if _, ok := crypto.VerifReg[n]; !ok {
			miss = append(miss, n)
		}
	}
	return
}

type (
	limbs = [10]int64
	ge    = *crypto.Ed25519GroupElement
	fe    = crypto.Ed25519FieldElement
	sys   = crypto.CoordinateSystem
)
