package main

import (
	"math/big"
	"sync"

	"verifmon/ref"
	"verifmon/ref/ed"
)

// Polynomials modulo p, lowest coefficient first, to find different points of
// the curve for which one coordinate of a point representation coincides.

type poly []*big.Int

func (f poly) trim() poly {
	for len(f) > 0 && f[len(f)-1].Sign() == 0 {
		f = f[:len(f)-1]
	}
	return f
}

// mod reduces f modulo g.
func (f poly) mod(g poly) poly {
	r := append(poly{}, f...).trim()
	inv := new(big.Int).ModInverse(g[len(g)-1], ref.P)
	for len(r) >= len(g) {
		q := mulP(r[len(r)-1], inv)
		at := len(r) - len(g)
		for i := range g {
			r[at+i] = modP(new(big.Int).Sub(r[at+i], mulP(q, g[i])))
		}
		r = r.trim()
	}
	return r
}

// div divides f by x - a, which has to be a factor.
func (f poly) div(a *big.Int) poly {
	q := make(poly, len(f)-1)
	c := bn(0)
	for i := len(f) - 1; i > 0; i-- {
		c = modP(new(big.Int).Add(f[i], mulP(c, a)))
		q[i-1] = c
	}
	return q
}

func (f poly) mul(g poly) poly {
	r := make(poly, len(f)+len(g))
	for i := range r {
		r[i] = bn(0)
	}
	for i := range f {
		for j := range g {
			r[i+j] = modP(new(big.Int).Add(r[i+j], mulP(f[i], g[j])))
		}
	}
	return r.trim()
}

func (f poly) pow(e *big.Int, m poly) poly {
	r := poly{bn(1)}
	for i := e.BitLen() - 1; i >= 0; i-- {
		r = r.mul(r).mod(m)
		if e.Bit(i) == 1 {
			r = r.mul(f).mod(m)
		}
	}
	return r
}

func gcdPoly(f, g poly) poly {
	for f, g = f.trim(), g.trim(); len(g) > 0; {
		f, g = g, f.mod(g)
	}
	return f
}

// minus subtracts a constant times x^n.
func (f poly) minus(a *big.Int, n int) poly {
	r := append(poly{}, f...)
	for len(r) <= n {
		r = append(r, bn(0))
	}
	r[n] = modP(new(big.Int).Sub(r[n], a))
	return r.trim()
}

// root returns a root of f or nil.
func (f poly) root(c *Rng) *big.Int {
	x := poly{bn(0), bn(1)}
	g := gcdPoly(f, x.pow(ref.P, f).minus(bn(1), 1))
	half := new(big.Int).Rsh(ref.P, 1)
	for len(g) > 2 {
		a := modP(ref.Big(c.Bytes(32)))
		h := gcdPoly(g, poly{a, bn(1)}.pow(half, g).minus(bn(1), 0))
		if len(h) > 1 && len(h) < len(g) {
			g = h
		}
	}
	if len(g) < 2 {
		return nil
	}
	return negP(mulP(g[0], new(big.Int).ModInverse(g[1], ref.P)))
}

// coincidences are pairs of different points (x, y), (u, v) with y + x = v + u.
var coincidences = sync.OnceValue(func() (l [][4]*big.Int) {
	c := newRng("coincidences")
	for n := 0; n < 200 && len(l) < 12; n++ {
		p := ref.Decode(c.Bytes(32))
		if p == nil {
			continue
		}
		x, y := p.Affine()
		s := modP(new(big.Int).Add(x, y))
		// d x^2 (s-x)^2 - (s-x)^2 + x^2 + 1
		f := poly{bn(0), s, bn(-1)}
		f[2] = negP(bn(1))
		f = f.mul(f).mul(poly{ref.D})
		f = f.minus(mulP(s, s), 0).minus(negP(bn(1)), 0).minus(negP(mulP(bn(2), s)), 1)
		u := f.div(x).root(c)
		if u == nil {
			continue
		}
		v := modP(new(big.Int).Sub(s, u))
		if u.Cmp(x) == 0 || !onCurve(u, v) {
			continue
		}
		l = append(l, [4]*big.Int{x, y, u, v})
	}
	return l
})

// coincident returns two different points with equal y + x or y - x.
func (c *C) coincident() (p, q *ed.Point, rel string) {
	l := coincidences()
	if len(l) == 0 {
		return nil, nil, ""
	}
	k := l[c.R.Intn(len(l))]
	x, u, rel := k[0], k[2], "same y+x"
	if c.R.Bool() {
		x, u, rel = negP(x), negP(u), "same y-x"
	}
	return ref.Decode(ref.EncodeAffine(x, k[1])), ref.Decode(ref.EncodeAffine(u, k[3])), rel
}
