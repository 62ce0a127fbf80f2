package main

import (
	"bytes"
	"fmt"
	"math/big"

	crypto "github.com/proximax-storage/go-xpx-crypto"

	"verifmon/ref"
	"verifmon/ref/ed"
)

func init() {
	register(&Prop{
		ID:   "C22",
		Rule: "a case is one comparison of two library elements (in both orders) whose points are known; non-trivial when the coordinates are new; every pair of coordinate systems is required for equal, opposite and other points",
		Fams: func(t *Tier) []Fam {
			fl := map[string]int64{"rel:same y+x": 5000, "rel:same y-x": 5000}
			for _, a := range allSys {
				for _, b := range allSys {
					fl["eq:"+sysNames[a]+"/"+sysNames[b]] = 20
					fl["ne:"+sysNames[a]+"/"+sysNames[b]] = 20
				}
			}
			return []Fam{
				{Name: "pairs", N: 36 * t.N(9000, 120000), Fn: c22pairs, Floor: fl},
				{Name: "small", N: 64 * 36 * t.N(4, 40), Fn: c22small},
				{Name: "triples", N: t.N(40000, 600000), Fn: c22triples},
				{Name: "made", N: t.N(4000, 80000), Fn: c22made},
				{Name: "encoded", N: t.N(60000, 1000000), Fn: c22encoded, Floor: map[string]int64{"encoded:equal": 1000, "encoded:one-bit": 1000, "encoded:length": 500}},
			}
		},
	})
	register(&Prop{
		ID:   "C23",
		Rule: "a case is one call of a MathUtils helper compared with big-integer formulas (random helpers: validity and variation of the drawn elements); non-trivial when the arguments are new",
		Fams: func(t *Tier) []Fam {
			return []Fam{
				{Name: "conversions", N: t.N(120000, 800000), Fn: c23conv},
				{Name: "points", N: t.N(40000, 300000), Fn: c23points, Floor: map[string]int64{"rel:equal": 100, "rel:opposite": 100, "rel:neutral": 100, "point:small-order": 100}},
				{Name: "representations", N: 36 * t.N(600, 12000), Fn: c23reps},
				{Name: "decode", N: t.N(20000, 300000), Fn: c23decode, Floor: map[string]int64{"decode:accepted": 1000, "decode:refused": 500}},
				{Name: "decode-special", N: 2 * len(c16special()), Fn: c23decodeSpecial},
				{Name: "sqrt", N: t.N(4000, 60000), Fn: c23sqrt},
				{Name: "multiply", N: t.N(1000, 6000), Fn: c23mul},
				{Name: "double-multiply", N: t.N(96, 2000), Fn: c23doubleMul, Needs: []string{"mu.doubleScalarMultiplyGroupElements"}},
				{Name: "scalars", N: t.N(400000, 2000000), Fn: c23scalars},
				{Name: "random", N: t.N(8, 40), Fn: c23random},
				{Name: "random-field-element", N: 1, Fn: c23randomField},
				{Name: "constants", N: 1, Fn: c23constants},
			}
		},
	})
}

var allSys = []sys{AFFINE, P2, P3, P1xP1, PRECOMPUTED, CACHED}

// ---- C22 ----

func (c *C) eqIs(a, b ge, want bool, what string) {
	sa, sb := geStr(a), geStr(b)
	c.Eval([]byte(sa), []byte(sb))
	var r1, r2 bool
	noPanic(c, "Equals of "+sa+" and "+sb, func() { r1, r2 = a.Equals(b), b.Equals(a) })
	if r1 != want || r2 != want {
		c.Fail("equality", "%s: %s\nand %s\ncompare as %v and %v (other order), want %v", what, sa, sb, r1, r2, want)
	}
	if geStr(a) != sa || geStr(b) != sb {
		c.Fail("operand changed", "Equals changes its operands: %s and %s", sa, sb)
	}
	p := sysNames[a.GetCoordinateSystem()] + "/" + sysNames[b.GetCoordinateSystem()]
	if want {
		c.Hit("eq:" + p)
	} else {
		c.Hit("ne:" + p)
	}
}

// repZ is rep with given denominators.
func (c *C) repZ(x, y, z, t *big.Int, s sys) ge {
	b := bnd11
	switch s {
	case P2:
		return crypto.NewEd25519GroupElementP2(c.feOf(mulP(x, z), b), c.feOf(mulP(y, z), b), c.feOf(z, b))
	case P3:
		return crypto.NewEd25519GroupElementP3(c.feOf(mulP(x, z), b), c.feOf(mulP(y, z), b), c.feOf(z, b), c.feOf(mulP(x, y, z), b))
	case P1xP1:
		return crypto.NewEd25519GroupElementP1XP1(c.feOf(mulP(x, z), b), c.feOf(mulP(y, t), b), c.feOf(z, b), c.feOf(t, b))
	case CACHED:
		return crypto.NewEd25519GroupElementCached(c.feOf(mulP(z, new(big.Int).Add(y, x)), b), c.feOf(mulP(z, new(big.Int).Sub(y, x)), b), c.feOf(z, b), c.feOf(mulP(bn(2), ref.D, x, y, z), b))
	}
	return c.rep(x, y, s)
}

func negP(v *big.Int) *big.Int { return modP(new(big.Int).Neg(v)) }

// relate returns a point related to (x, y) and whether it is the same.
func (c *C) relate(x, y *big.Int) (u, v *big.Int, rel string) {
	switch c.R.Intn(9) {
	case 0:
		return negP(x), y, "same y"
	case 1:
		return x, negP(y), "same x"
	case 2:
		return negP(x), negP(y), "both negated"
	case 3:
		u, v = ref.AddAffine(x, y, basePoint[0], basePoint[1])
		return u, v, "neighbour"
	case 4:
		q, _ := c.point()
		u, v = q.Affine()
		return u, v, "other"
	case 5:
		// (x, y) + point of order 4 or 8
		tx, ty := ref.Torsion[1+c.R.Intn(7)].Affine()
		u, v = ref.AddAffine(x, y, tx, ty)
		return u, v, "torsion"
	case 6:
		return bn(0), bn(1), "neutral"
	}
	return x, y, "equal"
}

var basePoint = func() [2]*big.Int {
	x, y := ref.MulBase(ref.LE(bn(1), 32)).Affine()
	return [2]*big.Int{x, y}
}()

func c22pairs(c *C) {
	s1, s2 := allSys[c.Idx%6], allSys[c.Idx/6%6]
	p, k := c.point()
	x, y := p.Affine()
	u, v, rel := c.relate(x, y)
	if l := coincidences(); len(l) > 0 && c.R.Intn(10) == 0 {
		q := l[c.R.Intn(len(l))]
		x, y, u, v, rel, k = q[0], q[1], q[2], q[3], "same y+x", "found"
		if c.R.Bool() {
			x, u, rel = negP(x), negP(u), "same y-x"
		}
	}
	same := u.Cmp(x) == 0 && v.Cmp(y) == 0
	z1, t1 := c.zval(), c.zval()
	z2, t2 := c.zval(), c.zval()
	switch c.R.Intn(6) {
	case 0:
		z2, t2 = z1, t1
		c.Hit("scaling:equal")
	case 1:
		z2, t2 = negP(z1), negP(t1)
		c.Hit("scaling:opposite")
	case 2:
		z2, t2 = z1, negP(t1)
		c.Hit("scaling:half-opposite")
	case 3:
		z2, t2 = t1, z1
		c.Hit("scaling:swapped")
	}
	a, b := c.repZ(x, y, z1, t1, s1), c.repZ(u, v, z2, t2, s2)
	c.eqIs(a, b, same, k+" "+rel)
	if c.R.Intn(8) == 0 {
		c.eqIs(a, a, true, "the element itself")
	}
	c.Hit("rel:" + rel)
	c.Sample("%s: %s against %s", rel, sysNames[s1], sysNames[s2])
}

func c22small(c *C) {
	i, j := c.Idx%8, c.Idx/8%8
	s1, s2 := allSys[c.Idx/64%6], allSys[c.Idx/384%6]
	x, y := ref.Torsion[i].Affine()
	u, v := ref.Torsion[j].Affine()
	c.eqIs(c.rep(x, y, s1), c.rep(u, v, s2), i == j, "small order")
}

func c22triples(c *C) {
	p, _ := c.point()
	x, y := p.Affine()
	u, v, rel := c.relate(x, y)
	s := func() sys { return allSys[c.R.Intn(6)] }
	es := []ge{c.rep(x, y, s()), c.rep(u, v, s()), c.rep(x, y, s())}
	var m [3][3]bool
	noPanic(c, "Equals", func() {
		for i := range es {
			for j := range es {
				m[i][j] = es[i].Equals(es[j])
			}
		}
	})
	c.Eval([]byte(geStr(es[0])), []byte(geStr(es[1])))
	for i := range es {
		c.Check(m[i][i], "reflexivity", "%s does not equal itself", geStr(es[i]))
		for j := range es {
			c.Check(m[i][j] == m[j][i], "symmetry", "%s and %s", geStr(es[i]), geStr(es[j]))
			for k := range es {
				c.Check(!(m[i][j] && m[j][k]) || m[i][k], "transitivity", "%s: %s, %s, %s", rel, geStr(es[i]), geStr(es[j]), geStr(es[k]))
			}
		}
	}
	c.Hit("triple")
}

// c22made compares elements that the library computed itself.
func c22made(c *C) {
	e1 := c.R.Bytes(32)
	var es []ge
	var ps []*ed.Point
	p := ref.Decode(e1)
	for p == nil {
		e1 = c.R.Bytes(32)
		p = ref.Decode(e1)
	}
	g, err := decodeLib(e1)
	if err != nil {
		c.Fail("decode refuses", "%x: %v", e1, err)
	}
	add := func(x ge, q *ed.Point) { es, ps = append(es, x), append(ps, q) }
	add(g, p)
	add(crypto.MathUtils.NegateGroupElement(g), new(ed.Point).Negate(p))
	two := new(ed.Point).Add(p, p)
	add(crypto.MathUtils.DoubleGroupElement(g), two)
	if f, ok := bridge[func(ge) ge]("ge.dbl"); ok {
		add(f(g), two)
	}
	if f, ok := bridge[binop]("ge.add"); ok {
		if h, ok := bridge[func(ge) ge]("ge.toCached"); ok {
			add(h(g), p)
			add(f(g, h(g)), two)
		}
	}
	add(crypto.Ed25519Group.ZERO_P3(), ed.NewIdentityPoint())
	add(crypto.Ed25519Group.ZERO_P2(), ed.NewIdentityPoint())
	add(crypto.Ed25519Group.ZERO_PRECOMPUTED(), ed.NewIdentityPoint())
	add(crypto.Ed25519Group.BASE_POINT(), ref.MulBase(ref.LE(bn(1), 32)))
	q := new(ed.Point).Set(p)
	h, err := decodeLib(q.Bytes())
	if err != nil {
		c.Fail("decode refuses", "%x: %v", q.Bytes(), err)
	}
	add(h, q)
	for i := range es {
		j := c.R.Intn(len(es))
		c.eqIs(es[i], es[j], ps[i].Equal(ps[j]) == 1, "computed elements")
	}
}

func c22encoded(c *C) {
	n := 32
	field := c.R.Bool()
	if field && c.R.Intn(4) == 0 {
		n = 64
	}
	a := c.R.Bytes(n)
	b := append([]byte(nil), a...)
	switch c.R.Intn(4) {
	case 0:
		c.Hit("encoded:equal")
	case 1:
		b[c.R.Intn(n)] ^= 1 << uint(c.R.Intn(8))
		c.Hit("encoded:one-bit")
	case 2:
		if field {
			b = make([]byte, 96-n)
			copy(b, a)
			c.Hit("encoded:length")
		} else {
			c.R.Fill(b[c.R.Intn(n):])
		}
	case 3:
		// the same value modulo p in other bytes, for y < 19
		v := bn(int64(c.R.Intn(19)))
		a = ref.LE(v, 32)
		b = ref.LE(v.Add(v, ref.P), 32)
		c.Hit("encoded:same-value")
	}
	want := bytes.Equal(a, b)
	c.Eval(a, b)
	if field {
		x, err := crypto.NewEd25519EncodedFieldElement(a)
		y, err2 := crypto.NewEd25519EncodedFieldElement(b)
		if err != nil || err2 != nil {
			c.Fail("encoded element", "%v %v", err, err2)
		}
		c.Check(x.Equals(y) == want && y.Equals(x) == want, "encoded equality", "encoded field elements %x and %x compare as %v/%v", a, b, x.Equals(y), y.Equals(x))
		return
	}
	x, err := crypto.NewEd25519EncodedGroupElement(a)
	y, err2 := crypto.NewEd25519EncodedGroupElement(b)
	if err != nil || err2 != nil {
		c.Fail("encoded element", "%v %v", err, err2)
	}
	c.Check(x.Equals(y) == want && y.Equals(x) == want, "encoded equality", "encoded points %x and %x compare as %v/%v", a, b, x.Equals(y), y.Equals(x))
}

// ---- C23 ----

var mu = &crypto.MathUtils

func (c *C) bigIs(got, want *big.Int, format string, a ...interface{}) {
	if got == nil || got.Cmp(want) != 0 {
		c.Fail("integer helper", "%s is %x, want %x", fmt.Sprintf(format, a...), got, want)
	}
}

func c23conv(c *C) {
	b := c.R.Bytes(c.R.Intn(80))
	if c.R.Intn(4) == 0 && len(b) > 0 {
		for i := c.R.Intn(len(b)); i < len(b); i++ {
			b[i] = 0
		}
	}
	c.Eval(b)
	g := c.guard(b)
	c.bigIs(mu.BytesToBigInteger(g.B), ref.Big(b), "BytesToBigInteger(%x)", b)
	g.check(c, "BytesToBigInteger")
	// field elements
	h := c.encLimbs(bnd27)
	c.bigIs(mu.IntsToBigInteger(h), limbVal(h), "IntsToBigInteger(%s)", ls(h))
	c.bigIs(mu.FieldToBigInteger(crypto.NewEd25519FieldElement(h)), modP(limbVal(h)), "FieldToBigInteger(%s)", ls(h))
	e := c.wide(32 << uint(c.R.Intn(2)))
	enc, err := crypto.NewEd25519EncodedFieldElement(e)
	if err != nil {
		c.Fail("encoded element", "%v", err)
	}
	c.bigIs(mu.EncodedFieldToBigInteger(enc), ref.Big(e), "EncodedFieldToBigInteger(%x)", e)
	// integers to bytes and field elements
	v := ref.Big(c.wide(32))
	keep := new(big.Int).Set(v)
	c.Check(bytes.Equal(mu.ToByteArray(v), ref.LE(v, 32)), "integer helper", "ToByteArray(%x) is %x", v, mu.ToByteArray(v))
	ee := mu.ToEncodedFieldElement(v)
	c.Check(bytes.Equal(ee.Raw, ref.LE(v, 32)), "integer helper", "ToEncodedFieldElement(%x) is %x", v, ee.Raw)
	c.Check(ee.IsNonZero() == (v.Sign() != 0), "integer helper", "ToEncodedFieldElement(%x).IsNonZero is %v", v, ee.IsNonZero())
	if f, ok := bridge[func(*big.Int) (*crypto.Ed25519EncodedFieldElement, error)]("mu.toEncodedFieldElement"); ok {
		x, err := f(v)
		c.Check(err == nil && bytes.Equal(x.Raw, ref.LE(v, 32)), "integer helper", "toEncodedFieldElement(%x) is %v %v", v, x, err)
	}
	c.Check(v.Cmp(keep) == 0, "operand changed", "a conversion changes the integer %x", keep)
	w := new(big.Int).Mod(v, pow2(255))
	c.bigIs(modP(limbVal(mu.ToFieldElement(w).Raw)), modP(w), "ToFieldElement(%x)", w)
	c.Sample("conversions of %x", v)
}

func (c *C) p23(p *ed.Point) (ge, sys) {
	s := P3
	if c.R.Bool() {
		s = P2
	}
	return c.repOf(p, s), s
}

func c23points(c *C) {
	p, k := c.point()
	var q *ed.Point
	rel := "random"
	switch c.R.Intn(6) {
	case 0:
		q, rel = new(ed.Point).Set(p), "equal"
	case 1:
		q, rel = new(ed.Point).Negate(p), "opposite"
	case 2:
		q, rel = ed.NewIdentityPoint(), "neutral"
	case 3:
		q, rel = new(ed.Point).Add(p, ref.Torsion[1+c.R.Intn(7)]), "torsion"
		if c.R.Bool() {
			q.Negate(q)
		}
	default:
		q, _ = c.point()
	}
	if c.R.Intn(12) == 0 {
		if x, y, r := c.coincident(); x != nil {
			p, q, rel = x, y, r
		}
	}
	c.Hit("rel:" + rel)
	a, _ := c.p23(p)
	b, _ := c.p23(q)
	before := geStr(a) + geStr(b)
	c.Eval([]byte(before))
	sum := new(ed.Point).Add(p, q)
	r := mu.AddGroupElements(a, b)
	c.geIs(r, sum, "AddGroupElements of %s and %s (%s %s)", geStr(a), geStr(b), k, rel)
	c.Check(r.GetCoordinateSystem() == P3, "coordinate system", "AddGroupElements gives %s", geStr(r))
	d := mu.DoubleGroupElement(a)
	c.geIs(d, new(ed.Point).Add(p, p), "DoubleGroupElement of %s", geStr(a))
	n := c.repOf(p, P3)
	c.geIs(mu.NegateGroupElement(n), new(ed.Point).Negate(p), "NegateGroupElement of %s", geStr(n))
	c.Check(geStr(a)+geStr(b) == before, "operand changed", "a helper changes its operands %s", before)
	if f, ok := bridge[binop]("ge.add"); ok {
		o := f(c.repOf(p, P3), c.repOf(q, CACHED))
		c.Check(o.Equals(r) && r.Equals(o), "agreement", "the helper gives %s, the optimised addition %s", geStr(r), geStr(o))
	}
	// (x*y + z*t) / d
	v := []*big.Int{c.fieldVal(), c.fieldVal(), c.fieldVal(), c.fieldVal(), c.zval()}
	want := mulP(modP(new(big.Int).Add(mulP(v[0], v[1]), mulP(v[2], v[3]))), new(big.Int).ModInverse(v[4], ref.P))
	var kept []*big.Int
	for _, x := range v {
		kept = append(kept, new(big.Int).Set(x))
	}
	c.bigIs(mu.XMulY_Plus_ZMulT_DelD(*v[0], v[1], v[2], v[3], v[4]), want, "(%x*%x + %x*%x) / %x", kept[0], kept[1], kept[2], kept[3], kept[4])
	for i := range v {
		c.Check(v[i].Cmp(kept[i]) == 0, "operand changed", "XMulY_Plus_ZMulT_DelD changes argument %d from %x to %x", i, kept[i], v[i])
	}
	c.Sample("add %s %s", k, rel)
}

func c23reps(c *C) {
	s1, s2 := allSys[c.Idx%6], allSys[c.Idx/6%6]
	p, k := c.point()
	g := c.repOf(p, s1)
	before := geStr(g)
	c.Eval([]byte(before), []byte{byte(s2)})
	r, err := mu.ToRepresentation(g, s2)
	if err != nil || r == nil {
		c.Fail("representation", "ToRepresentation of %s to %s: %v", before, sysNames[s2], err)
	}
	c.Check(r.GetCoordinateSystem() == s2, "coordinate system", "ToRepresentation to %s gives %s", sysNames[s2], geStr(r))
	c.geIs(r, p, "ToRepresentation of %s (%s) to %s", before, k, sysNames[s2])
	c.Check(geStr(g) == before, "operand changed", "ToRepresentation changes %s", before)
	c.Hit("rep:" + sysNames[s1] + "->" + sysNames[s2])
	if c.R.Intn(50) == 0 {
		bad := []sys{-1, 6, 7}[c.R.Intn(3)]
		_, err = mu.ToRepresentation(g, bad)
		c.Check(err != nil, "representation", "ToRepresentation to %d gives no error", bad)
	}
}

func (c *C) muDecode(e []byte) {
	c.Eval(e)
	x, _, ok := ref.DecodeBig(e)
	g := c.guard(e)
	r, err := mu.ToGroupElement(g.B)
	g.check(c, "ToGroupElement")
	c.Check((err == nil) == ok, "decoding helper", "ToGroupElement(%x): %v, valid %v", e, err, ok)
	low := append([]byte(nil), e...)
	low[31] &= 0x7f
	y := modP(ref.Big(low))
	neg := c.R.Bool()
	ax, err2 := mu.GetAffineXFromAffineY(y, neg)
	c.Check((err2 == nil) == ok, "decoding helper", "GetAffineXFromAffineY(%x): %v, valid %v", y, err2, ok)
	if !ok {
		c.Hit("decode:refused")
		return
	}
	c.Hit("decode:accepted")
	gx, gy, cons := affineOf(r)
	c.Check(cons && gx.Cmp(x) == 0 && gy.Cmp(y) == 0 && r.GetCoordinateSystem() == P3, "decoding helper", "ToGroupElement(%x) is %s, want (%x, %x)", e, geStr(r), x, y)
	want := new(big.Int).Set(x)
	if want.Sign() != 0 && (want.Bit(0) == 1) != neg {
		want.Sub(ref.P, want)
	}
	c.bigIs(ax, want, "GetAffineXFromAffineY(%x, %v)", y, neg)
	o, err := decodeLib(e)
	c.Check(err == nil && o.Equals(r), "agreement", "ToGroupElement(%x) is %s, Decode %v", e, geStr(r), o)
}

func c23decode(c *C) {
	e := c.R.Bytes(32)
	switch c.R.Intn(4) {
	case 0:
		p, _ := c.point()
		e = p.Bytes()
	case 1:
		e = ref.LE(c.fieldVal(), 32)
		e[31] |= byte(c.R.Intn(2)) << 7
	}
	c.muDecode(e)
}

func c23decodeSpecial(c *C) {
	e := append([]byte(nil), c16special()[c.Idx/2]...)
	e[31] |= byte(c.Idx&1) << 7
	c.muDecode(e)
}

func c23sqrt(c *C) {
	f, ok := bridge[func(u, v *big.Int) *big.Int]("mu.getSqrtOfFraction")
	if !ok {
		return
	}
	u, v := c.fieldVal(), c.zval()
	if c.R.Bool() {
		w := c.fieldVal()
		u = mulP(v, w, w)
	}
	ku, kv := new(big.Int).Set(u), new(big.Int).Set(v)
	x := f(u, v)
	c.Eval(u.Bytes(), v.Bytes())
	c.Check(u.Cmp(ku) == 0 && v.Cmp(kv) == 0, "operand changed", "getSqrtOfFraction changes its operands")
	got := mulP(v, x, x)
	w := u
	if u.Sign() != 0 && big.Jacobi(mulP(u, new(big.Int).ModInverse(v, ref.P)), ref.P) != 1 {
		w = mulP(u, ref.SqrtM1)
	}
	c.Check(got.Cmp(w) == 0 || got.Cmp(negP(w)) == 0, "square root helper", "getSqrtOfFraction(%x, %x) = %x", u, v, x)
}

func c23mul(c *C) {
	p, k := c.point()
	g, _ := c.p23(p)
	v := c.fieldVal()
	if c.R.Bool() {
		v = modP(ref.Big(c.scalar32()))
	}
	f := fe{Raw: c.toLimbs(v, bnd11)}
	before := geStr(g)
	c.Eval([]byte(before), v.Bytes())
	r := mu.ScalarMultiplyGroupElement(g, f)
	c.geIs(r, ref.Mul(ref.LE(v, 32), p), "ScalarMultiplyGroupElement of %s (%s) by %x", before, k, v)
	c.Check(geStr(g) == before, "operand changed", "ScalarMultiplyGroupElement changes %s", before)
	if h, ok := bridge[func(ge, []byte) ge]("ge.scalarMultiply"); ok {
		o := c.repOf(p, P3)
		o.PrecomputeForScalarMultiplication()
		x := h(o, ref.LE(v, 32))
		c.Check(x.Equals(r), "agreement", "the helper gives %s, the optimised multiplication %s", geStr(r), geStr(x))
	}
}

func c23doubleMul(c *C) {
	p, _ := c.point()
	q, _ := c.point()
	g, _ := c.p23(p)
	h, _ := c.p23(q)
	v, w := c.fieldVal(), c.fieldVal()
	f := must[func(g1 ge, f1 fe, g2 ge, f2 fe) ge]("mu.doubleScalarMultiplyGroupElements")
	r := f(g, fe{Raw: c.toLimbs(v, bnd11)}, h, fe{Raw: c.toLimbs(w, bnd11)})
	c.Eval(p.Bytes(), q.Bytes(), v.Bytes(), w.Bytes())
	want := new(ed.Point).Subtract(ref.Mul(ref.LE(v, 32), p), ref.Mul(ref.LE(w, 32), q))
	c.geIs(r, want, "%x*%x - %x*%x", v, p.Bytes(), w, q.Bytes())
}

func c23scalars(c *C) {
	b := c.wide(32 << uint(c.R.Intn(2)))
	e, err := crypto.NewEd25519EncodedFieldElement(append([]byte(nil), b...))
	if err != nil {
		c.Fail("encoded element", "%v", err)
	}
	c.Eval(b)
	v := ref.Big(b)
	want := ref.LE(v.Mod(v, ref.L), 32)
	r := mu.ReduceModGroupOrder(e)
	c.Check(bytes.Equal(r.Raw, want), "reduction helper", "ReduceModGroupOrder(%x) is %x, want %x", b, r.Raw, want)
	c.Check(bytes.Equal(e.Raw, b), "operand changed", "ReduceModGroupOrder changes %x", b)
	if len(b) == 64 {
		if f, ok := bridge[func([]byte) []byte]("sc.modQ"); ok {
			c.Check(bytes.Equal(f(b), r.Raw), "agreement", "modulo L of %x: helper %x, optimised %x", b, r.Raw, f(b))
		}
	}
	if f, ok := bridge[func(a, b, c *crypto.Ed25519EncodedFieldElement) *crypto.Ed25519EncodedFieldElement]("mu.multiplyAndAddModGroupOrder"); ok {
		x := [][]byte{c.wide(32), c.wide(32), c.wide(32)}
		var es []*crypto.Ed25519EncodedFieldElement
		for _, b := range x {
			e, _ := crypto.NewEd25519EncodedFieldElement(b)
			es = append(es, e)
		}
		got := f(es[0], es[1], es[2])
		v := new(big.Int).Mul(ref.Big(x[0]), ref.Big(x[1]))
		v.Add(v, ref.Big(x[2])).Mod(v, ref.L)
		c.Check(bytes.Equal(got.Raw, ref.LE(v, 32)), "reduction helper", "%x*%x+%x modulo L is %x, want %x", x[0], x[1], x[2], got.Raw, ref.LE(v, 32))
	}
}

// bitsVary checks that every bit of the drawn strings takes both values.
func (c *C) bitsVary(what string, draws [][]byte, except func(bit int) bool) {
	n := len(draws[0]) * 8
	for i := 0; i < n; i++ {
		if except != nil && except(i) {
			continue
		}
		ones := 0
		for _, d := range draws {
			ones += int(d[i/8] >> uint(i%8) & 1)
		}
		if ones == 0 || ones == len(draws) {
			c.Fail("random helper", "%s: bit %d is %d in all of %d draws", what, i, ones/len(draws), len(draws))
		}
	}
	seen := map[string]bool{}
	for _, d := range draws {
		if len(d) >= 16 && seen[string(d)] {
			c.Fail("random helper", "%s returns %x twice in %d draws", what, d, len(draws))
		}
		seen[string(d)] = true
	}
	c.HitN("random:"+what, len(draws))
}

func c23random(c *C) {
	const n = 200
	var arr, enc32, enc64, ints, encG, grp [][]byte
	l := 1 + c.R.Intn(80)
	for i := 0; i < n; i++ {
		a := mu.GetRandomByteArray(l)
		c.Check(len(a) == l, "random helper", "GetRandomByteArray(%d) has %d bytes", l, len(a))
		arr = append(arr, append([]byte(nil), a...))
		c.Eval(a)
		e := mu.GetRandomEncodedFieldElement(32)
		c.Check(len(e.Raw) == 32 && e.Raw[31] < 0x80, "random helper", "GetRandomEncodedFieldElement(32) is %x", e.Raw)
		c.Check(e.IsNonZero(), "random helper", "GetRandomEncodedFieldElement(32) says it is zero: %x", e.Raw)
		enc32 = append(enc32, e.Raw)
		e = mu.GetRandomEncodedFieldElement(64)
		c.Check(len(e.Raw) == 64, "random helper", "GetRandomEncodedFieldElement(64) is %x", e.Raw)
		c.Check(e.IsNonZero(), "random helper", "GetRandomEncodedFieldElement(64) says it is zero: %x", e.Raw)
		enc64 = append(enc64, e.Raw)
		v := uint64(mu.GetRandomInt64())
		b := make([]byte, 8)
		for k := range b {
			b[k] = byte(v >> (8 * k))
		}
		ints = append(ints, b)
		g := mu.GetRandomGroupElement()
		x, y, ok := affineOf(g)
		c.Check(ok && onCurve(x, y), "random helper", "GetRandomGroupElement is no curve point: %s", geStr(g))
		grp = append(grp, ref.EncodeAffine(x, y))
		eg := mu.GetRandomEncodedGroupElement()
		c.Check(len(eg.Raw) == 32 && ref.Decode(eg.Raw) != nil, "random helper", "GetRandomEncodedGroupElement is no curve point: %x", eg.Raw)
		encG = append(encG, eg.Raw)
	}
	c.bitsVary("GetRandomByteArray", arr, nil)
	c.bitsVary("GetRandomEncodedFieldElement(32)", enc32, func(b int) bool { return b == 255 })
	c.bitsVary("GetRandomEncodedFieldElement(64)", enc64, func(b int) bool { return b == 255 })
	c.bitsVary("GetRandomInt64", ints, nil)
	c.bitsVary("GetRandomGroupElement", grp, nil)
	c.bitsVary("GetRandomEncodedGroupElement", encG, nil)
	for i := 0; i < 4; i++ {
		a := mu.GetRandomByteArray(0)
		c.Check(len(a) == 0, "random helper", "GetRandomByteArray(0) has %d bytes", len(a))
	}
}

func c23randomField(c *C) {
	const n = 64
	first := mu.GetRandomFieldElement()
	same := true
	for i := 0; i < n; i++ {
		f := mu.GetRandomFieldElement()
		c.evalLimbs("random", f.Raw)
		if j := bnd27.holds(f.Raw); j >= 0 {
			c.Fail("random helper", "GetRandomFieldElement gives limbs %s, limb %d cannot be encoded", ls(f.Raw), j)
		}
		want := ref.LE(modP(limbVal(f.Raw)), 32)
		c.Check(bytes.Equal(f.Encode().Raw, want), "random helper", "GetRandomFieldElement gives %s, encoded %x, want %x", ls(f.Raw), f.Encode().Raw, want)
		if f.Raw != first.Raw {
			same = false
		}
	}
	if !same {
		c.Hit("random:GetRandomFieldElement")
		return
	}
	var k limbs
	for i := range k {
		k[i] = 1 << 24
	}
	if first.Raw == k {
		c.Fail("GetRandomFieldElement constant", "all of %d draws are %s", n+1, ls(first.Raw))
	}
	c.Fail("random helper", "all of %d draws of GetRandomFieldElement are %s", n+1, ls(first.Raw))
}

func c23constants(c *C) {
	c.Check(len(mu.EXPONENTS) == 10, "constant", "EXPONENTS has %d entries", len(mu.EXPONENTS))
	for i, e := range mu.EXPONENTS {
		c.Check(e == expo[i], "constant", "EXPONENTS[%d] is %d", i, e)
	}
	c.bigIs(modP(mu.D), modP(ref.D), "MathUtils.D")
	c.Eval([]byte("constants"))

}
