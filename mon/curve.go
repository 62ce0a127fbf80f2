package main

import (
	"bytes"
	"fmt"
	"math/big"

	crypto "github.com/proximax-storage/go-xpx-crypto"

	"verifmon/ref"
	"verifmon/ref/ed"
)

func init() {
	register(&Prop{
		ID:   "C16",
		Rule: "a case is one 32-byte string decoded, or one point encoded, and compared with big-integer formulas; non-trivial when the bytes or the coordinates are new; both accepted and refused strings are required",
		Fams: func(t *Tier) []Fam {
			return []Fam{
				{Name: "decode", N: t.N(300000, 6000000), Fn: c16decode, Floor: map[string]int64{"decode:accepted": 8000, "decode:refused": 5000, "enc:flipped": 1000, "enc:near-power": 500, "enc:small-y": 500}},
				{Name: "decode-special", N: 2 * len(c16special()), Fn: c16decodeSpecial, Floor: map[string]int64{"special:accepted": 10, "special:refused": 10, "special:non-canonical": 5, "special:x=0": 4}},
				{Name: "encode", N: t.N(90000, 2000000), Fn: c16encode, Floor: map[string]int64{"encode:P2": 500, "encode:P3": 500, "encode:P1xP1": 500, "point:small-order": 100}},
				{Name: "off-curve", N: t.N(90000, 2000000), Fn: c16off, Floor: map[string]int64{"off:P2": 500, "off:P3": 500, "off:P1xP1": 500}},
				{Name: "lengths", N: 200, Fn: c16length},
				{Name: "twins", N: t.N(2000, 60000), Fn: c16twins, Floor: map[string]int64{"twins": 10000}},
			}
		},
	})
	register(&Prop{
		ID:   "C17",
		Rule: "a case is one group operation on library elements whose result is converted to affine coordinates and compared with an independent implementation; non-trivial when operation and operands are new",
		Fams: func(t *Tier) []Fam {
			return []Fam{
				{Name: "pairs", N: t.N(40000, 600000), Fn: c17pairs, Floor: map[string]int64{"rel:equal": 200, "rel:opposite": 200, "rel:neutral": 200, "rel:torsion": 200, "point:small-order": 500}, Needs: []string{"ge.add", "ge.subtract", "ge.precomputedAdd", "ge.precomputedSubtract"}},
				{Name: "small-pairs", N: 64 * t.N(4, 40), Fn: c17smallPairs, Needs: []string{"ge.add", "ge.subtract", "ge.precomputedAdd", "ge.precomputedSubtract"}},
				{Name: "unary", N: t.N(7000, 200000), Fn: c17unary, Needs: []string{"ge.dbl", "ge.negate", "ge.toCoordinateSystem"}},
				{Name: "cmov", N: t.N(2000, 40000), Fn: c17cmov, Needs: []string{"ge.cmov"}},
				{Name: "chains", N: t.N(800, 20000), Fn: c17chains, Needs: []string{"ge.add", "ge.subtract", "ge.dbl", "ge.negate", "ge.toP2", "ge.toP3", "ge.toCached", "ge.precomputedAdd", "ge.precomputedSubtract"}},
				{Name: "base-tables", N: 1, Fn: c17baseTables, Floor: map[string]int64{"select": 544}},
				{Name: "base-double-table", N: 1, Fn: c17baseDouble, Needs: []string{"ge.precomputedForDouble"}},
				{Name: "tables", N: t.N(90, 2500), Fn: c17tables, Floor: map[string]int64{"select:table": 500}},
				{Name: "double-tables", N: t.N(400, 10000), Fn: c17doubleTables, Needs: []string{"ge.precomputedForDouble"}},
				{Name: "base-multiply", N: t.N(40000, 500000), Fn: c17baseMul, Floor: map[string]int64{"scalar:near-kL": 100, "scalar:extreme-digits": 100, "scalar:run-of-ones": 100}, Needs: []string{"ge.scalarMultiply"}},
				{Name: "point-multiply", N: t.N(600, 7000), Fn: c17pointMul, Needs: []string{"ge.scalarMultiply"}},
				{Name: "double-multiply", N: t.N(20000, 250000), Fn: c17double, Needs: []string{"ge.doubleScalarMultiplyVariableTime"}},
				{Name: "small-scalars", N: 512, Fn: c17smallScalars, Needs: []string{"ge.scalarMultiply"}},
				{Name: "recode", N: t.N(100000, 1000000), Fn: c17recode, Needs: []string{"ge.slide", "ge.toRadix16"}},
				{Name: "public", N: t.N(500, 10000), Fn: c17public},
			}
		},
	})
}

// ---- C16 ----

func decodeLib(e []byte) (ge, error) {
	g, err := crypto.NewEd25519EncodedGroupElement(e)
	if err != nil {
		return nil, err
	}
	return g.Decode()
}

func (c *C) checkDecode(e []byte) bool {
	g := c.guard(e)
	c.Eval(e)
	x, y, ok := ref.DecodeBig(e)
	if (ref.Decode(e) != nil) != ok {
		panic("references disagree on " + hx(e))
	}
	var p ge
	var err error
	noPanic(c, "Decode of "+hx(e), func() { p, err = decodeLib(g.B) })
	g.check(c, "Decode")
	if !ok {
		c.Check(err != nil, "decode accepts", "%s is no encoding of a curve point, but Decode returns %v", hx(e), p)
		enc, _ := crypto.NewEd25519EncodedGroupElement(g.B)
		_, err = enc.GetAffineX()
		c.Check(err != nil, "GetAffineX accepts", "%s is no encoding of a curve point, but GetAffineX succeeds", hx(e))
		return false
	}
	if err != nil || p == nil {
		c.Fail("decode refuses", "%s is the encoding of x=%x y=%x, but Decode fails: %v", hx(e), x, y, err)
	}
	gx, gy, cons := affineOf(p)
	if !cons || gx.Cmp(x) != 0 || gy.Cmp(y) != 0 {
		c.Fail("decoded point", "%s decodes to x=%x y=%x (consistent %v), want x=%x y=%x", hx(e), gx, gy, cons, x, y)
	}
	c.Check(p.GetCoordinateSystem() == P3, "coordinate system", "Decode returns %s", sysNames[p.GetCoordinateSystem()])
	c.Check(p.SatisfiesCurveEquation(), "curve equation", "the point decoded from %s does not satisfy the curve equation", hx(e))
	back, err := p.Encode()
	want := ref.EncodeAffine(x, y)
	if err != nil || !bytes.Equal(back.Raw, want) {
		c.Fail("encode(decode)", "encode(decode(%s)) is %v (%v), want %s", hx(e), back, err, hx(want))
	}
	if !bytes.Equal(want, e) {
		c.Hit("decode:non-canonical")
	}
	enc, _ := crypto.NewEd25519EncodedGroupElement(g.B)
	ax, err := enc.GetAffineX()
	if err != nil || modP(limbVal(ax.Raw)).Cmp(x) != 0 {
		c.Fail("GetAffineX", "GetAffineX of %s is %v (%v), want %x", hx(e), ax, err, x)
	}
	ay, err := enc.GetAffineY()
	if err != nil || modP(limbVal(ay.Raw)).Cmp(y) != 0 {
		c.Fail("GetAffineY", "GetAffineY of %s is %v (%v), want %x", hx(e), ay, err, y)
	}
	return true
}

func c16decode(c *C) {
	var e []byte
	switch c.R.Intn(8) {
	case 0:
		p, _ := c.point()
		e = p.Bytes()
		e[c.R.Intn(32)] ^= 1 << uint(c.R.Intn(8))
		c.Hit("enc:flipped")
	case 1:
		v := pow2(uint(c.R.Intn(256)))
		v.Add(v, bn(int64(c.R.Intn(41)-20)))
		if v.Sign() < 0 || v.BitLen() > 256 {
			v = bn(0)
		}
		e = ref.LE(v, 32)
		c.Hit("enc:near-power")
	case 2:
		e = ref.LE(bn(int64(c.R.Intn(5000))), 32)
		c.Hit("enc:small-y")
	case 3:
		e = ref.LE(new(big.Int).Sub(pow2(255), bn(int64(1+c.R.Intn(5000)))), 32)
		c.Hit("enc:large-y")
	case 4:
		p, _ := c.point()
		e = p.Bytes()
		c.Hit("enc:point")
	default:
		e = c.R.Bytes(32)
		c.Hit("enc:random")
	}
	if c.R.Bool() {
		e[31] ^= 0x80
	}
	if c.checkDecode(e) {
		c.Hit("decode:accepted")
	} else {
		c.Hit("decode:refused")
	}
	c.Sample("decode %s", hx(e))
}

// c16special lists y = -40..40 and 2^255-60..2^255-1 modulo 2^255 and the
// encodings of small-order points.
func c16special() (out [][]byte) {
	for i := int64(0); i <= 40; i++ {
		out = append(out, ref.LE(bn(i), 32))
	}
	for i := int64(1); i <= 60; i++ {
		out = append(out, ref.LE(new(big.Int).Sub(pow2(255), bn(i)), 32))
	}
	encs, _ := ref.SmallEncodings()
	for _, e := range encs {
		e = append([]byte(nil), e...)
		e[31] &= 0x7f
		out = append(out, e)
	}
	return
}

func c16decodeSpecial(c *C) {
	l := c16special()
	e := append([]byte(nil), l[c.Idx/2]...)
	e[31] |= byte(c.Idx&1) << 7
	x, y, ok := ref.DecodeBig(e)
	if c.checkDecode(e) {
		c.Hit("special:accepted")
		if !bytes.Equal(ref.EncodeAffine(x, y), e) {
			c.Hit("special:non-canonical")
		}
		if x.Sign() == 0 {
			c.Hit("special:x=0")
		}
	} else {
		c.Hit("special:refused")
	}
	_ = ok
}

func (c *C) anySys() sys { return []sys{P2, P3, P1xP1}[c.R.Intn(3)] }

func c16encode(c *C) {
	p, kind := c.point()
	x, y := p.Affine()
	s := c.anySys()
	g := c.rep(x, y, s)
	c.Hit("encode:" + sysNames[s])
	before := geStr(g)
	c.Eval([]byte(before))
	var e *crypto.Ed25519EncodedGroupElement
	var err error
	noPanic(c, "Encode of "+before, func() { e, err = g.Encode() })
	if err != nil || !bytes.Equal(e.Raw, p.Bytes()) {
		c.Fail("encode", "Encode of %s (%s) is %v (%v), want %x", before, kind, e, err, p.Bytes())
	}
	c.Check(g.SatisfiesCurveEquation(), "curve equation", "the curve point %s (%s) does not satisfy the curve equation", before, kind)
	q, err := e.Decode()
	if err != nil {
		c.Fail("decode(encode)", "the encoding %x is refused: %v", e.Raw, err)
	}
	qx, qy, ok := affineOf(q)
	c.Check(ok && qx.Cmp(x) == 0 && qy.Cmp(y) == 0, "decode(encode)", "decode(encode(%s)) is (%x, %x), want (%x, %x)", before, qx, qy, x, y)
	c.Sample("encode %s point in %s", kind, sysNames[s])
}

func onCurve(x, y *big.Int) bool {
	xx, yy := mulP(x, x), mulP(y, y)
	l := modP(new(big.Int).Sub(yy, xx))
	r := modP(new(big.Int).Add(one, mulP(ref.D, xx, yy)))
	return l.Cmp(r) == 0
}

func c16off(c *C) {
	p, _ := c.point()
	x, y := p.Affine()
	switch c.R.Intn(6) {
	case 0:
		x = modP(new(big.Int).Add(x, pow2(uint(c.R.Intn(255)))))
	case 1:
		y = modP(new(big.Int).Add(y, pow2(uint(c.R.Intn(255)))))
	case 2:
		x, y = y, x
	case 3:
		x, y = c.fieldVal(), c.fieldVal()
	case 4:
		// another curve of the same family: y^2 - x^2 = 1 - d x^2 y^2
		x = mulP(x, ref.SqrtM1)
	case 5:
		x = mulP(x, bn(2))
	}
	s := c.anySys()
	g := c.rep(x, y, s)
	want := onCurve(x, y)
	got := false
	c.Eval([]byte(geStr(g)))
	noPanic(c, "SatisfiesCurveEquation", func() { got = g.SatisfiesCurveEquation() })
	if want {
		c.Hit("off:still-on")
	} else {
		c.Hit("off:" + sysNames[s])
	}
	c.Check(got == want, "curve equation", "SatisfiesCurveEquation of x=%x y=%x in %s is %v, want %v", x, y, geStr(g), got, want)
}

func c16length(c *C) {
	n := c.Idx
	b := c.R.Bytes(n)
	_, err := crypto.NewEd25519EncodedGroupElement(b)
	c.Eval(b)
	c.Check((err == nil) == (n == 32), "length", "NewEd25519EncodedGroupElement of %d bytes: %v", n, err)
}

// ---- C17 ----

// geIs checks that a library element stands for a point.
func (c *C) geIs(g ge, p *ed.Point, format string, a ...interface{}) {
	if g == nil {
		c.Fail("group law", "%s is nil", fmt.Sprintf(format, a...))
	}
	e, ok := encOf(g)
	if !ok || !bytes.Equal(e, p.Bytes()) {
		c.Fail("group law", "%s is %x (consistent %v: %s), want %x", fmt.Sprintf(format, a...), e, ok, geStr(g), p.Bytes())
	}
}

func (c *C) repOf(p *ed.Point, s sys) ge {
	x, y := p.Affine()
	return c.rep(x, y, s)
}

type binop = func(a, b ge) ge

func (c *C) pairOps(p, q *ed.Point, what string) {
	sum, diff := new(ed.Point).Add(p, q), new(ed.Point).Subtract(p, q)
	c.Eval(p.Bytes(), q.Bytes())
	a := c.repOf(p, P3)
	b := c.repOf(q, CACHED)
	if f, ok := bridge[func(ge) ge]("ge.toCached"); ok && c.R.Bool() {
		b = f(c.repOf(q, P3))
	}
	m := c.repOf(q, PRECOMPUTED)
	type op struct {
		name string
		r    *ed.Point
		arg  ge
	}
	for _, o := range []op{{"ge.add", sum, b}, {"ge.subtract", diff, b}, {"ge.precomputedAdd", sum, m}, {"ge.precomputedSubtract", diff, m}} {
		before := geStr(a) + " / " + geStr(o.arg)
		r := must[binop](o.name)(a, o.arg)
		c.geIs(r, o.r, "%s of %x and %x (%s): %s: result", o.name, p.Bytes(), q.Bytes(), what, before)
		c.Check(geStr(a)+" / "+geStr(o.arg) == before, "operand changed", "%s changes its operands: %s", o.name, before)
		if f, ok := bridge[func(ge) ge]("ge.toP3"); ok {
			c.geIs(f(r), o.r, "%s.toP3", o.name)
		}
		if f, ok := bridge[func(ge) ge]("ge.toP2"); ok {
			c.geIs(f(r), o.r, "%s.toP2", o.name)
		}
		c.Hit("op:" + o.name)
	}
}

func c17pairs(c *C) {
	p, k := c.point()
	var q *ed.Point
	rel := ""
	switch c.R.Intn(6) {
	case 0:
		q, rel = new(ed.Point).Set(p), "equal"
	case 1:
		q, rel = new(ed.Point).Negate(p), "opposite"
	case 2:
		q, rel = ed.NewIdentityPoint(), "neutral"
		if c.R.Bool() {
			p, q = q, p
		}
	case 3:
		q, rel = new(ed.Point).Add(p, ref.Torsion[1+c.R.Intn(7)]), "torsion"
		if c.R.Bool() {
			q.Negate(q)
		}
	default:
		q, rel = c.point()
		rel = "random"
	}
	if c.R.Intn(12) == 0 {
		if x, y, r := c.coincident(); x != nil {
			p, q, rel = x, y, r
		}
	}
	c.Hit("rel:" + rel)
	c.pairOps(p, q, k+" "+rel)
	c.Sample("add/subtract %s %s", k, rel)
}

func c17smallPairs(c *C) {
	n := c.Idx % 64
	c.pairOps(ref.Torsion[n/8], ref.Torsion[n%8], "small")
}

func c17unary(c *C) {
	p, k := c.point()
	c.Eval(p.Bytes())
	for _, s := range []sys{P2, P3} {
		g := c.repOf(p, s)
		c.geIs(must[func(ge) ge]("ge.dbl")(g), new(ed.Point).Add(p, p), "dbl of %s (%s)", geStr(g), k)
	}
	g := c.repOf(p, P3)
	before := geStr(g)
	c.geIs(must[func(ge) ge]("ge.negate")(g), new(ed.Point).Negate(p), "negate of %s (%s)", before, k)
	c.Check(geStr(g) == before, "operand changed", "negate changes its operand %s", before)
	conv := must[func(ge, sys) ge]("ge.toCoordinateSystem")
	for _, t := range [][2]sys{{P2, P2}, {P3, P2}, {P3, P3}, {P3, CACHED}, {P1xP1, P2}, {P1xP1, P3}, {P1xP1, P1xP1}, {PRECOMPUTED, PRECOMPUTED}, {CACHED, CACHED}} {
		g := c.repOf(p, t[0])
		r := conv(g, t[1])
		c.Hit("conv:" + sysNames[t[0]] + "->" + sysNames[t[1]])
		c.Check(r.GetCoordinateSystem() == t[1], "coordinate system", "conversion %s to %s gives %s", sysNames[t[0]], sysNames[t[1]], geStr(r))
		c.geIs(r, p, "%s to %s of %s", sysNames[t[0]], sysNames[t[1]], geStr(g))
	}
	if f, ok := bridge[func(ge) ge]("ge.copy"); ok {
		s := []sys{AFFINE, P2, P3, P1xP1, PRECOMPUTED, CACHED}[c.R.Intn(6)]
		g := c.repOf(p, s)
		r := f(g)
		c.Check(r.GetCoordinateSystem() == s, "coordinate system", "copy changes the coordinate system")
		c.geIs(r, p, "copy of %s", geStr(g))
	}
}

func c17cmov(c *C) {
	p, _ := c.point()
	q, _ := c.point()
	s := []sys{PRECOMPUTED, P2, P3, CACHED}[c.R.Intn(4)]
	a, b := c.repOf(p, s), c.repOf(q, s)
	before := geStr(a) + geStr(b)
	c.Eval(p.Bytes(), q.Bytes())
	f := must[func(a, u ge, b int) (ge, error)]("ge.cmov")
	for i, want := range []*ed.Point{p, q} {
		r, err := f(a, b, i)
		c.Check(err == nil && r != nil, "cmov", "cmov with %d: %v", i, err)
		c.geIs(r, want, "cmov with %d of %s and %s", i, geStr(a), geStr(b))
	}
	c.Check(geStr(a)+geStr(b) == before, "operand changed", "cmov changes its operands")
}

// c17chains runs a random program of group operations on a pool of elements.
func c17chains(c *C) {
	type item struct {
		g ge
		p *ed.Point
	}
	var pool []item
	for i := 0; i < 4; i++ {
		p, _ := c.point()
		pool = append(pool, item{c.repOf(p, P3), p})
	}
	toP3, toP2, toCached := must[func(ge) ge]("ge.toP3"), must[func(ge) ge]("ge.toP2"), must[func(ge) ge]("ge.toCached")
	steps := 60
	for n := 0; n < steps; n++ {
		a, b := pool[c.R.Intn(len(pool))], pool[c.R.Intn(len(pool))]
		var r item
		r.p = new(ed.Point)
		switch k := c.R.Intn(8); k {
		case 0, 1:
			c.Logf("add")
			r.g = toP3(must[binop]("ge.add")(a.g, toCached(b.g)))
			r.p.Add(a.p, b.p)
		case 2, 3:
			c.Logf("subtract")
			r.g = toP3(must[binop]("ge.subtract")(a.g, toCached(b.g)))
			r.p.Subtract(a.p, b.p)
		case 4:
			c.Logf("dbl of P3")
			r.g = toP3(must[func(ge) ge]("ge.dbl")(a.g))
			r.p.Add(a.p, a.p)
		case 5:
			n := 1 + c.R.Intn(6)
			c.Logf("%d dbl in P2", n)
			g := a.g
			r.p.Set(a.p)
			for ; n > 1; n-- {
				g = toP2(must[func(ge) ge]("ge.dbl")(g))
				r.p.Add(r.p, r.p)
			}
			r.g = toP3(must[func(ge) ge]("ge.dbl")(g))
			r.p.Add(r.p, r.p)
		case 6:
			c.Logf("negate")
			r.g = must[func(ge) ge]("ge.negate")(a.g)
			r.p.Negate(a.p)
		case 7:
			m := c.repOf(b.p, PRECOMPUTED)
			c.Logf("precomputed")
			if c.R.Bool() {
				r.g = toP3(must[binop]("ge.precomputedAdd")(a.g, m))
				r.p.Add(a.p, b.p)
			} else {
				r.g = toP3(must[binop]("ge.precomputedSubtract")(a.g, m))
				r.p.Subtract(a.p, b.p)
			}
		}
		c.Hit("chain-step")
		if n%6 == 5 || n == steps-1 {
			c.geIs(r.g, r.p, "result of step %d", n)
			c.Eval(r.p.Bytes())
		}
		if len(pool) < 10 {
			pool = append(pool, r)
		} else {
			pool[c.R.Intn(len(pool))] = r
		}
	}
	for i, it := range pool {
		c.geIs(it.g, it.p, "pool element %d after all steps", i)
		e, err := it.g.Encode()
		c.Check(err == nil && bytes.Equal(e.Raw, it.p.Bytes()), "encode", "Encode of pool element %d is %v, want %x", i, e, it.p.Bytes())
	}
}

// checkSelect visits positions and digits of the precomputed table of g.
func (c *C) checkSelect(g ge, p *ed.Point, all bool, class string) {
	row := new(ed.Point).Set(p) // 256^pos * p
	for pos := 0; pos < 32; pos++ {
		if all || c.R.Intn(6) == 0 || pos == 31 {
			d := new(ed.Point).Set(ed.NewIdentityPoint())
			for b := 0; b <= 8; b++ {
				for _, s := range []int{b, -b} {
					if s == 0 && b != 0 {
						continue
					}
					r, err := g.Select(pos, s)
					if err != nil {
						c.Fail("Select", "Select(%d, %d): %v", pos, s, err)
					}
					want := d
					if s < 0 {
						want = new(ed.Point).Negate(d)
					}
					c.geIs(r, want, "Select(%d, %d) of %x", pos, s, p.Bytes())
					if i := bnd11d.holds(r.X.Raw); i >= 0 {
						c.Fail("table limbs", "Select(%d, %d): limb %d of %s is outside the bounds", pos, s, i, geStr(r))
					}
					if b > 0 || s == 0 {
						c.Hit(class)
					}
					if b == 0 {
						break
					}
				}
				d = new(ed.Point).Add(d, row)
			}
		}
		for k := 0; k < 8; k++ {
			row = new(ed.Point).Add(row, row)
		}
	}
	c.Eval(p.Bytes())
}

func c17baseTables(c *C) {
	B := ref.MulBase(ref.LE(bn(1), 32))
	c.checkSelect(crypto.Ed25519Group.BASE_POINT(), B, true, "select")
	c.geIs(crypto.Ed25519Group.BASE_POINT(), B, "BASE_POINT")
	c.geIs(crypto.Ed25519Group.ZERO_P2(), ed.NewIdentityPoint(), "ZERO_P2")
	c.geIs(crypto.Ed25519Group.ZERO_P3(), ed.NewIdentityPoint(), "ZERO_P3")
	c.geIs(crypto.Ed25519Group.ZERO_PRECOMPUTED(), ed.NewIdentityPoint(), "ZERO_PRECOMPUTED")
	c.Check(crypto.Ed25519Group.GROUP_ORDER.Cmp(ref.L) == 0, "group order", "GROUP_ORDER is %v", crypto.Ed25519Group.GROUP_ORDER)
	if f, ok := bridge[func(ge) [][]ge]("ge.precomputedForSingle"); ok {
		c.checkSingleTable(f(crypto.Ed25519Group.BASE_POINT()), B)
	}
	if f, ok := bridge[func() [][]ge]("tables.basePrecSingle"); ok {
		c.checkSingleTable(f(), B)
	}
}

func (c *C) checkSingleTable(t [][]ge, p *ed.Point) {
	row := new(ed.Point).Set(p)
	for i := range t {
		d := new(ed.Point).Set(row)
		for j := range t[i] {
			c.geIs(t[i][j], d, "entry %d,%d of the table of %x", i, j, p.Bytes())
			c.Hit("table-entry")
			d = new(ed.Point).Add(d, row)
		}
		for k := 0; k < 8; k++ {
			row = new(ed.Point).Add(row, row)
		}
	}
}

func (c *C) checkDoubleTable(t []ge, p *ed.Point) {
	d := new(ed.Point).Set(p)
	two := new(ed.Point).Add(p, p)
	for i := range t {
		c.geIs(t[i], d, "entry %d of the double table of %x", i, p.Bytes())
		c.Hit("double-table-entry")
		d = new(ed.Point).Add(d, two)
	}
}

func c17baseDouble(c *C) {
	B := ref.MulBase(ref.LE(bn(1), 32))
	b := crypto.Ed25519Group.BASE_POINT()
	c.Check(b.IsPrecomputedForDoubleScalarMultiplication(), "base point", "the base point is not precomputed")
	t := must[func(ge) []ge]("ge.precomputedForDouble")(b)
	c.checkDoubleTable(t, B)
	if f, ok := bridge[func() []ge]("tables.basePrecDouble"); ok {
		c.checkDoubleTable(f(), B)
	}
}

func c17tables(c *C) {
	p, k := c.point()
	g := c.repOf(p, P3)
	g.PrecomputeForScalarMultiplication()
	c.checkSelect(g, p, false, "select:table")
	if f, ok := bridge[func(ge) [][]ge]("ge.precomputedForSingle"); ok {
		c.checkSingleTable(f(g), p)
	}
	g.PrecomputeForScalarMultiplication()
	c.checkSelect(g, p, false, "select:table")
	c.geIs(g, p, "the precomputed point itself")
	c.Sample("tables of a %s point", k)
}

func c17doubleTables(c *C) {
	p, _ := c.point()
	g := c.repOf(p, P3)
	c.Check(!g.IsPrecomputedForDoubleScalarMultiplication(), "precomputed", "a new element says it is precomputed")
	for i := 0; i < 2; i++ {
		g.PrecomputeForDoubleScalarMultiplication()
		c.Check(g.IsPrecomputedForDoubleScalarMultiplication(), "precomputed", "the element does not say that it is precomputed")
		c.checkDoubleTable(must[func(ge) []ge]("ge.precomputedForDouble")(g), p)
	}
	c.geIs(g, p, "the precomputed point itself")
	c.Eval(p.Bytes())
}

func c17baseMul(c *C) {
	s := c.scalar32()
	g := c.guard(s)
	r := must[func(ge, []byte) ge]("ge.scalarMultiply")(crypto.Ed25519Group.BASE_POINT(), g.B)
	g.check(c, "scalarMultiply(scalar)")
	c.Eval(s)
	c.geIs(r, ref.MulBase(s), "base point times %x", s)
	c.Sample("B times %s", hx(s))
}

func c17pointMul(c *C) {
	p, k := c.point()
	g := c.repOf(p, P3)
	g.PrecomputeForScalarMultiplication()
	for i := 0; i < 6; i++ {
		s := c.scalar32()
		r := must[func(ge, []byte) ge]("ge.scalarMultiply")(g, s)
		c.Eval(p.Bytes(), s)
		c.geIs(r, ref.Mul(s, p), "%s point %x times %x", k, p.Bytes(), s)
		c.Hit("mul:" + k)
	}
}

func c17smallScalars(c *C) {
	v := bn(int64(c.Idx / 2))
	if c.Idx&1 == 1 {
		v.Sub(pow2(255), one).Sub(v, bn(int64(c.Idx/2)))
		v.Sub(pow2(255), bn(1+int64(c.Idx/2)))
	}
	s := ref.LE(v, 32)
	r := must[func(ge, []byte) ge]("ge.scalarMultiply")(crypto.Ed25519Group.BASE_POINT(), s)
	c.Eval(s)
	c.geIs(r, ref.MulBase(s), "base point times %x", s)
}

func c17double(c *C) {
	p, k := c.point()
	g := c.repOf(p, P3)
	g.PrecomputeForDoubleScalarMultiplication()
	for i := 0; i < 2; i++ {
		a, b := c.reducedScalar(), c.reducedScalar()
		switch c.R.Intn(10) {
		case 0:
			a = make([]byte, 32)
			c.Hit("double:a=0")
		case 1:
			b = make([]byte, 32)
			c.Hit("double:b=0")
		case 2:
			b = append([]byte(nil), a...)
			c.Hit("double:a=b")
		case 3:
			v := new(big.Int).Sub(ref.L, ref.Big(a))
			b = ref.LE(v.Mod(v, ref.L), 32)
			c.Hit("double:a=-b")
		case 4:
			a = c.scalar32()
			c.Hit("double:a-any")
		case 5:
			b = c.scalar32()
			c.Hit("double:b-any")
		case 6:
			a, b = c.scalar32(), c.scalar32()
			c.Hit("double:any")
		}
		ga, gb := c.guard(a), c.guard(b)
		base := crypto.Ed25519Group.BASE_POINT()
		f := must[func(base, A ge, a, b []byte) ge]("ge.doubleScalarMultiplyVariableTime")
		r := f(base, g, ga.B, gb.B)
		ga.check(c, "doubleScalarMultiply(a)")
		gb.check(c, "doubleScalarMultiply(b)")
		c.Eval(p.Bytes(), a, b)
		c.Hit("double:" + k)
		want := new(ed.Point).Subtract(ref.MulBase(b), ref.Mul(a, p))
		c.geIs(r, want, "%x*B - %x*%x (%s)", b, a, p.Bytes(), k)
	}
}

func c17recode(c *C) {
	s := c.scalar32()
	g := crypto.Ed25519Group.ZERO_P3()
	c.Eval(s)
	e := must[func(ge, []byte) []int8]("ge.toRadix16")(g, s)
	v := new(big.Int)
	for i := len(e) - 1; i >= 0; i-- {
		v.Lsh(v, 4).Add(v, bn(int64(e[i])))
	}
	c.Check(v.Cmp(ref.Big(s)) == 0, "recoding", "the radix-16 digits of %x are %v", s, e)
	s = c.reducedScalar()
	e = must[func(ge, []byte) []int8]("ge.slide")(g, s)
	v = new(big.Int)
	for i := len(e) - 1; i >= 0; i-- {
		v.Lsh(v, 1).Add(v, bn(int64(e[i])))
	}
	c.Check(v.Cmp(ref.Big(s)) == 0, "recoding", "the sliding digits of %x are %v", s, e)
}

// c17public observes the group law through the exported interface only.
func c17public(c *C) {
	a := c.R.Bytes(32)
	pub := crypto.NewEd25519KeyGenerator(nil).DerivePublicKey(crypto.NewPrivateKey(a)).Raw
	s, _ := ref.Clamp(a)
	p := ref.MulBase(s)
	c.Eval(a)
	c.Check(bytes.Equal(pub, p.Bytes()), "public key", "public key of %x is %x, want %x", a, pub, p.Bytes())
	g, err := decodeLib(pub)
	if err != nil {
		c.Fail("decode refuses", "decoding %x: %v", pub, err)
	}
	for _, e := range []*crypto.Ed25519GroupElement{g, crypto.Ed25519Group.BASE_POINT(), crypto.Ed25519Group.ZERO_P2(), crypto.Ed25519Group.ZERO_P3()} {
		for i, f := range []func() *crypto.Ed25519FieldElement{e.GetX, e.GetY, e.GetZ, e.GetT} {
			want := []*crypto.Ed25519FieldElement{e.X, e.Y, e.Z, e.T}[i]
			got := f()
			same := (got == nil) == (want == nil) && (got == nil || bytes.Equal(feBytes(got), feBytes(want)))
			c.Check(same, "coordinate", "Get%c of %x does not return the coordinate", "XYZT"[i], pub)
		}
	}
	k := ref.LE(bn(int64(c.R.Intn(17)-8)+8), 32)
	d := int(k[0]) - 8
	pos := c.R.Intn(32)
	g.PrecomputeForScalarMultiplication()
	r, err := g.Select(pos, d)
	if err != nil {
		c.Fail("Select", "%v", err)
	}
	m := make([]byte, 33)
	v := d
	if v < 0 {
		v = -v
	}
	m[pos] = byte(v)
	want := ref.Mul(m, p)
	if d < 0 {
		want.Negate(want)
	}
	c.geIs(r, want, "Select(%d, %d) of %x", pos, d, pub)
}

func feBytes(f *crypto.Ed25519FieldElement) []byte { return f.Encode().Raw }
