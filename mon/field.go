package main

import (
	"bytes"
	"fmt"
	"math/big"
	"os"

	crypto "github.com/proximax-storage/go-xpx-crypto"

	"verifmon/ref"
)

func init() {
	register(&Prop{
		ID:   "C18",
		Rule: "a case is one field operation on limb vectors within its documented bounds, compared with big integers modulo p, its result limbs compared with the documented bounds; run twice, the second time in a build in which every 64-bit operation of the library checks for overflow; non-trivial when the limbs are new",
		Fams: func(t *Tier) []Fam {
			bin := []string{"fe.add", "fe.subtract", "fe.multiply"}
			un := []string{"fe.negate", "fe.square", "fe.squareAndDouble"}
			return []Fam{
				{Name: "binary", N: t.N(700000, 20000000), Fn: c18binary, Needs: bin, Floor: map[string]int64{"limbs:style1": 500, "limbs:style2": 500, "limbs:style3": 500}},
				{Name: "unary", N: t.N(500000, 12000000), Fn: c18unary, Needs: un},
				{Name: "corners", N: 1024, Fn: c18corners, Needs: append(append([]string{}, bin...), un...)},
				{Name: "single-limbs", N: 400, Fn: c18single, Needs: []string{"fe.multiply"}},
				{Name: "invert", N: t.N(30000, 600000), Fn: c18invert, Needs: []string{"fe.invert"}},
				{Name: "power", N: t.N(12000, 300000), Fn: c18power, Needs: []string{"fe.pow2to252sub4"}},
				{Name: "sqrt", N: t.N(30000, 600000), Fn: c18sqrt, Floor: map[string]int64{"sqrt:square": 1000, "sqrt:non-square": 1000, "sqrt:u=0": 100, "sqrt:v=0": 100}},
				{Name: "encode", N: t.N(700000, 20000000), Fn: c18encode, Floor: map[string]int64{"encode:zero": 1000, "encode:near-kp": 10000, "limbs:unsigned": 10000}},
				{Name: "decode", N: t.N(700000, 20000000), Fn: c18decode},
				{Name: "equals", N: t.N(500000, 12000000), Fn: c18equals, Floor: map[string]int64{"equals:yes": 1000, "equals:no": 1000}},
				{Name: "encoded", N: t.N(50000, 1000000), Fn: c18encoded},
				{Name: "chains", N: t.N(12000, 300000), Fn: c18chains, Needs: append(append([]string{}, bin...), un...)},
				{Name: "constants", N: 1, Fn: c18constants},
				{Name: "instrumented", N: 1, Fn: instrumented},
			}
		},
	})
	register(&Prop{
		ID:   "C19",
		Rule: "a case is one reduction or one a*b+c modulo L compared with big integers; run twice, the second time in a build in which every 64-bit operation of the library checks for overflow; non-trivial when the operands are new",
		Fams: func(t *Tier) []Fam {
			fl := map[string]int64{"wide:near-kL": 5000, "wide:limbs": 5000, "wide:near-2^k": 2000, "wide:blocks": 2000}
			return []Fam{
				{Name: "reduce", N: t.N(2000000, 50000000), Fn: c19reduce, Needs: []string{"sc.modQ"}, Floor: fl},
				{Name: "multiply-add", N: t.N(2000000, 50000000), Fn: c19muladd, Needs: []string{"sc.multiplyAndAddModQ"}, Floor: map[string]int64{"ma:target": 5000, "ma:extreme": 5000}},
				{Name: "edges", N: 4096, Fn: c19edges, Needs: []string{"sc.modQ"}},
				{Name: "instrumented", N: 1, Fn: instrumented},
				{Name: "canonical", N: t.N(400000, 8000000), Fn: c19canonical},
			}
		},
	})
}

// instrumented records how much of the library the overflow build checks and
// that a checked operation notices an overflow.
func instrumented(c *C) {
	if os.Getenv("VERIF_MODE") != "overflow" {
		return
	}
	n, _ := bridge[int]("overflow.sites")
	c.HitN("overflow-checked-operations", n)
	caught := false
	func() {
		defer func() { caught = recover() != nil }()
		must[func(a, b int64) int64]("overflow.add")(1<<63-1, 1)
	}()
	if n == 0 || !caught {
		fmt.Fprintln(os.Stderr, "the overflow build does not check")
		os.Exit(3)
	}
}

// ---- C18 ----

func ls(h limbs) string { return fmt.Sprint([10]int64(h)) }

// feIs checks value and bounds of a result.
func (c *C) feIs(got limbs, want *big.Int, b *bound, format string, a ...interface{}) {
	if modP(limbVal(got)).Cmp(modP(want)) != 0 {
		c.Fail("field value", "%s is %s = %x, want %x", fmt.Sprintf(format, a...), ls(got), modP(limbVal(got)), modP(want))
	}
	if b != nil {
		if i := b.holds(got); i >= 0 {
			c.Fail("limb bounds", "%s is %s: limb %d is outside the documented bound %d", fmt.Sprintf(format, a...), ls(got), i, b.at(i))
		}
	}
}

func (c *C) evalLimbs(op string, hs ...limbs) {
	p := [][]byte{[]byte(op)}
	for _, h := range hs {
		b := make([]byte, 0, 80)
		for _, v := range h {
			for k := 0; k < 8; k++ {
				b = append(b, byte(v>>(8*k)))
			}
		}
		p = append(p, b)
	}
	c.Eval(p...)
}

type fe2 = func(a, b limbs) limbs
type fe1 = func(a limbs) limbs

func (c *C) mulCheck(a, b limbs) {
	c.evalLimbs("mul", a, b)
	want := new(big.Int).Mul(limbVal(a), limbVal(b))
	c.feIs(must[fe2]("fe.multiply")(a, b), want, &bnd101, "multiply %s by %s", ls(a), ls(b))
}

func (c *C) addCheck(a, b limbs) {
	c.evalLimbs("add", a, b)
	va, vb := limbVal(a), limbVal(b)
	c.feIs(must[fe2]("fe.add")(a, b), new(big.Int).Add(va, vb), &bnd11d, "add %s and %s", ls(a), ls(b))
	c.feIs(must[fe2]("fe.subtract")(a, b), new(big.Int).Sub(va, vb), &bnd11d, "subtract %s and %s", ls(a), ls(b))
}

func (c *C) squareCheck(a limbs) {
	c.evalLimbs("square", a)
	v := limbVal(a)
	v.Mul(v, v)
	c.feIs(must[fe1]("fe.square")(a), v, &bnd101, "square of %s", ls(a))
	c.feIs(must[fe1]("fe.squareAndDouble")(a), new(big.Int).Lsh(v, 1), &bnd101, "doubled square of %s", ls(a))
}

func (c *C) negateCheck(a limbs) {
	c.evalLimbs("negate", a)
	c.feIs(must[fe1]("fe.negate")(a), new(big.Int).Neg(limbVal(a)), &bnd11, "negation of %s", ls(a))
}

func c18binary(c *C) {
	if c.R.Intn(3) == 0 {
		c.addCheck(c.anyLimbs(bnd11), c.anyLimbs(bnd11))
		return
	}
	a, b := c.anyLimbs(bnd165), c.anyLimbs(bnd165)
	c.mulCheck(a, b)
	c.Sample("multiply %s by %s", ls(a), ls(b))
}

func c18unary(c *C) {
	if c.R.Intn(3) == 0 {
		c.negateCheck(c.anyLimbs(bnd11))
		return
	}
	c.squareCheck(c.anyLimbs(bnd165))
}

func corner(n int, b bound) (h limbs) {
	for i := range h {
		h[i] = b.at(i)
		if n>>uint(i)&1 == 1 {
			h[i] = -h[i]
		}
	}
	return
}

func c18corners(c *C) {
	a := corner(c.Idx, bnd165)
	c.squareCheck(a)
	for _, n := range []int{c.Idx, c.Idx ^ 1023, c.R.Intn(1024), c.R.Intn(1024), 0, 1023} {
		c.mulCheck(a, corner(n, bnd165))
		c.addCheck(corner(c.Idx, bnd11), corner(n, bnd11))
		c.Hit("corner")
	}
	c.negateCheck(corner(c.Idx, bnd11))
}

func c18single(c *C) {
	var a, b limbs
	i, j := c.Idx%10, c.Idx/10%10
	a[i], b[j] = bnd165.at(i), bnd165.at(j)
	if c.Idx/100&1 == 1 {
		a[i] = -a[i]
	}
	if c.Idx/200&1 == 1 {
		b[j] = -b[j]
	}
	c.mulCheck(a, b)
	a[i], b[j] = 1, 1
	c.mulCheck(a, b)
}

// anyField returns limbs of a random or a special value within bounds.
func (c *C) anyField(b bound) limbs {
	if c.R.Bool() {
		return c.toLimbs(c.fieldVal(), b)
	}
	return c.anyLimbs(b)
}

func c18invert(c *C) {
	a := c.anyField(bnd165)
	c.evalLimbs("invert", a)
	v := modP(limbVal(a))
	want := bn(0)
	if v.Sign() != 0 {
		want.ModInverse(v, ref.P)
	} else {
		c.Hit("invert:zero")
	}
	c.feIs(must[fe1]("fe.invert")(a), want, &bnd101, "inverse of %s", ls(a))
}

func c18power(c *C) {
	a := c.anyField(bnd165)
	c.evalLimbs("power", a)
	e := new(big.Int).Sub(pow2(252), bn(4))
	want := e.Exp(modP(limbVal(a)), e, ref.P)
	c.feIs(must[fe1]("fe.pow2to252sub4")(a), want, &bnd101, "(2^252-4)th power of %s", ls(a))
}

func c18sqrt(c *C) {
	u, v := c.fieldVal(), c.fieldVal()
	switch c.R.Intn(8) {
	case 0:
		u = bn(0)
	case 1:
		v = bn(0)
	case 2, 3:
		// u = v*w^2
		w := c.fieldVal()
		u = mulP(v, w, w)
	}
	ul, vl := c.toLimbs(u, bnd165), c.toLimbs(v, bnd165)
	c.evalLimbs("sqrt", ul, vl)
	r := crypto.Ed25519FieldElementSqrt(fe{Raw: ul}, fe{Raw: vl})
	x := modP(limbVal(r.Raw))
	if i := bnd101.holds(r.Raw); i >= 0 {
		c.Fail("limb bounds", "square root of %s / %s is %s: limb %d out of bounds", ls(ul), ls(vl), ls(r.Raw), i)
	}
	got := mulP(v, x, x)
	if u.Sign() == 0 || v.Sign() == 0 {
		if u.Sign() == 0 {
			c.Hit("sqrt:u=0")
		}
		if v.Sign() == 0 {
			c.Hit("sqrt:v=0")
		}
		c.Check(x.Sign() == 0, "square root", "square root of %x/%x is %x, want 0", u, v, x)
		return
	}
	q := mulP(u, new(big.Int).ModInverse(v, ref.P))
	w := u
	if big.Jacobi(q, ref.P) == 1 {
		c.Hit("sqrt:square")
	} else {
		w = mulP(u, ref.SqrtM1)
		c.Hit("sqrt:non-square")
	}
	if got.Cmp(w) != 0 && got.Cmp(modP(new(big.Int).Neg(w))) != 0 {
		c.Fail("square root", "x = sqrt(%x / %x) = %x: v*x^2 = %x, want +-%x", u, v, x, got, w)
	}
}

// limbsOf gives limbs of an integer, not reduced, within a bound; ok is false
// when it does not fit.
func (c *C) limbsOf(v *big.Int, b bound) (h limbs, ok bool) {
	rest := new(big.Int).Set(v)
	unsigned := b.even >= 1<<26 && b.odd >= 1<<25 && c.R.Intn(3) == 0
	for i := 0; i < 9; i++ {
		m := new(big.Int).And(rest, new(big.Int).Sub(pow2(width[i]), one))
		d := m.Int64()
		if d >= 1<<(width[i]-1) && !unsigned {
			d -= 1 << width[i]
		}
		h[i] = d
		rest.Sub(rest, bn(d)).Rsh(rest, width[i])
	}
	if !rest.IsInt64() {
		return h, false
	}
	h[9] = rest.Int64()
	if b.holds(h) >= 0 {
		return h, false
	}
	if unsigned && c.R.Bool() {
		c.Hit("limbs:unsigned")
		return h, true
	}
	for n := c.R.Intn(30); n > 0; n-- {
		i := c.R.Intn(9)
		t := h
		s := int64(1 + c.R.Intn(2))
		if c.R.Bool() {
			s = -s
		}
		t[i] += s << width[i]
		t[i+1] -= s
		if b.holds(t) < 0 {
			h = t
		}
	}
	return h, true
}

func (c *C) encLimbs(b bound) limbs {
	for {
		switch c.R.Intn(4) {
		case 0, 1:
			// near a multiple of p
			k := c.R.Intn(11) - 5
			v := new(big.Int).Mul(ref.P, bn(int64(k)))
			e := bn(0)
			switch c.R.Intn(4) {
			case 0:
				e = bn(int64(c.R.Intn(41) - 20))
			case 1:
				e = pow2(uint(c.R.Intn(255)))
				e.Add(e, bn(int64(c.R.Intn(3)-1)))
				if c.R.Bool() {
					e.Neg(e)
				}
			case 2:
				e = c.fieldVal()
			}
			if h, ok := c.limbsOf(v.Add(v, e), b); ok {
				c.Hit("encode:near-kp")
				return h
			}
		case 2:
			return c.anyLimbs(b)
		case 3:
			return c.toLimbs(c.fieldVal(), bnd11)
		}
	}
}

func c18encode(c *C) {
	h := c.encLimbs(bnd27)
	c.evalLimbs("encode", h)
	v := modP(limbVal(h))
	want := ref.LE(v, 32)
	if v.Sign() == 0 {
		c.Hit("encode:zero")
	}
	f := crypto.NewEd25519FieldElement(h)
	e := f.Encode()
	c.Check(bytes.Equal(e.Raw, want), "encoding", "encoding of %s is %x, want %x", ls(h), e.Raw, want)
	c.Check(f.IsNonZero() == (v.Sign() != 0), "zero test", "IsNonZero of %s = %x is %v", ls(h), v, f.IsNonZero())
	c.Check(e.IsNonZero() == (v.Sign() != 0), "zero test", "IsNonZero of the encoding %x is %v", e.Raw, e.IsNonZero())
	c.Check(e.IsNegative() == (v.Bit(0) == 1), "sign test", "IsNegative of the encoding %x is %v", e.Raw, e.IsNegative())
	c.Check(f.IsNegative() == (v.Bit(0) == 1), "sign test", "IsNegative of %s = %x is %v", ls(h), v, f.IsNegative())
	c.Check(f.Raw == h, "operand changed", "the limbs changed to %s", ls(f.Raw))
	if m, ok := bridge[fe1]("fe.modP"); ok {
		r := m(h)
		c.feIs(r, v, nil, "modP of %s", ls(h))
		c.Check(limbVal(r).Cmp(v) == 0, "reduction", "modP of %s is %s, not reduced", ls(h), ls(r))
	}
	c.Sample("encode %s", ls(h))
}

func c18decode(c *C) {
	b := c.R.Bytes(32)
	switch c.R.Intn(6) {
	case 0:
		b = ref.LE(c.fieldVal(), 32)
	case 1:
		b = ref.LE(new(big.Int).Sub(pow2(255), bn(int64(1+c.R.Intn(64)))), 32)
	case 2:
		for i := range b {
			b[i] = []byte{0, 0xff, 0x80, 0x7f, 1}[c.R.Intn(5)]
		}
	case 3:
		v := pow2(uint(c.R.Intn(256)))
		b = ref.LE(v.Sub(v, bn(int64(c.R.Intn(2)))), 32)
	}
	if c.R.Bool() {
		b[31] |= 0x80
	}
	g := c.guard(b)
	e, err := crypto.NewEd25519EncodedFieldElement(g.B)
	if err != nil {
		c.Fail("decode", "NewEd25519EncodedFieldElement(%x): %v", b, err)
	}
	f := e.Decode()
	g.check(c, "Decode")
	c.Eval(b)
	v := ref.Big(b)
	v.SetBit(v, 255, 0)
	c.feIs(f.Raw, v, &bnd11, "decoding of %x", b)
	want := ref.LE(modP(v), 32)
	c.Check(bytes.Equal(f.Encode().Raw, want), "encode(decode)", "encode(decode(%x)) is %x, want %x", b, f.Encode().Raw, want)
	c.Check(f.IsNonZero() == (modP(v).Sign() != 0), "zero test", "IsNonZero of decode(%x) is %v", b, f.IsNonZero())
	c.Check(f.IsNegative() == (modP(v).Bit(0) == 1), "sign test", "IsNegative of decode(%x) is %v", b, f.IsNegative())
}

func c18equals(c *C) {
	a := c.encLimbs(bnd27)
	v := modP(limbVal(a))
	w := new(big.Int).Set(v)
	switch c.R.Intn(4) {
	case 0:
		w = c.fieldVal()
	case 1:
		w.Add(w, bn(int64(c.R.Intn(3)-1)))
	case 2:
		w.Xor(w, pow2(uint(c.R.Intn(255))))
	}
	b := c.toLimbs(w, bnd11)
	if c.R.Bool() {
		if h, ok := c.limbsOf(new(big.Int).Add(modP(w), new(big.Int).Mul(ref.P, bn(int64(c.R.Intn(5)-2)))), bnd27); ok {
			b = h
		}
	}
	c.evalLimbs("equals", a, b)
	want := v.Cmp(modP(limbVal(b))) == 0
	if want {
		c.Hit("equals:yes")
	} else {
		c.Hit("equals:no")
	}
	f, g := crypto.NewEd25519FieldElement(a), crypto.NewEd25519FieldElement(b)
	c.Check(f.Equals(g) == want && g.Equals(f) == want, "equality test", "%s equals %s: %v and %v, want %v", ls(a), ls(b), f.Equals(g), g.Equals(f), want)
	c.Check(f.Equals(f), "equality test", "%s does not equal itself", ls(a))
}

// c18encoded observes the tests on encoded elements of 32 and 64 bytes.
func c18encoded(c *C) {
	n := 32 << uint(c.R.Intn(2))
	b := make([]byte, n)
	switch c.R.Intn(4) {
	case 0:
	case 1, 2:
		b[c.R.Intn(n)] = 1 << uint(c.R.Intn(8))
	default:
		c.R.Fill(b)
	}
	e, err := crypto.NewEd25519EncodedFieldElement(b)
	if err != nil {
		c.Fail("encoded element", "%d bytes: %v", n, err)
	}
	c.Eval(b)
	zero := bytes.Equal(b, make([]byte, n))
	c.Check(e.IsNonZero() == !zero, "zero test", "IsNonZero of %x is %v", b, e.IsNonZero())
	c.Check(e.IsNegative() == (b[0]&1 == 1), "sign test", "IsNegative of %x is %v", b, e.IsNegative())
	m := c.R.Intn(100)
	if m != 32 && m != 64 {
		_, err = crypto.NewEd25519EncodedFieldElement(make([]byte, m))
		c.Check(err != nil, "encoded element", "%d bytes are accepted", m)
	}
}

// c18chains follows random expressions, with the bounds as a type discipline:
// products may be added once before they are multiplied again.
func c18chains(c *C) {
	type val struct {
		h limbs
		v *big.Int
		w int // 0: usable for add, 1: for multiplication only
	}
	var pool []val
	for i := 0; i < 4; i++ {
		h := c.anyField(bnd11)
		pool = append(pool, val{h, modP(limbVal(h)), 0})
	}
	for n := 0; n < 120; n++ {
		a, b := pool[c.R.Intn(len(pool))], pool[c.R.Intn(len(pool))]
		var r val
		switch k := c.R.Intn(7); k {
		case 0, 1:
			r = val{must[fe2]("fe.multiply")(a.h, b.h), mulP(a.v, b.v), 0}
		case 2:
			r = val{must[fe1]("fe.square")(a.h), mulP(a.v, a.v), 0}
		case 3:
			r = val{must[fe1]("fe.squareAndDouble")(a.h), mulP(bn(2), a.v, a.v), 0}
		case 4, 5:
			if a.w+b.w > 0 {
				continue
			}
			if k == 4 {
				r = val{must[fe2]("fe.add")(a.h, b.h), modP(new(big.Int).Add(a.v, b.v)), 1}
			} else {
				r = val{must[fe2]("fe.subtract")(a.h, b.h), modP(new(big.Int).Sub(a.v, b.v)), 1}
			}
		case 6:
			if a.w > 0 {
				continue
			}
			r = val{must[fe1]("fe.negate")(a.h), modP(new(big.Int).Neg(a.v)), 0}
		}
		bd := &bnd11
		if r.w == 1 {
			bd = &bnd11d
		}
		c.feIs(r.h, r.v, bd, "step %d", n)
		c.evalLimbs("chain", r.h)
		c.Hit("chain-step")
		if len(pool) < 8 {
			pool = append(pool, r)
		} else {
			pool[c.R.Intn(8)] = r
		}
	}
	for _, x := range pool {
		e := crypto.NewEd25519FieldElement(x.h).Encode().Raw
		c.Check(bytes.Equal(e, ref.LE(x.v, 32)), "encoding", "encoding of %s is %x, want %x", ls(x.h), e, ref.LE(x.v, 32))
	}
}

func c18constants(c *C) {
	F := crypto.Ed25519Field
	c.Check(F.P.Cmp(ref.P) == 0 && crypto.Ed25519FieldP().Cmp(ref.P) == 0, "constant", "P is %x", F.P)
	is := func(name string, f *crypto.Ed25519FieldElement, want *big.Int) {
		c.feIs(f.Raw, want, &bnd11, "%s", name)
		c.Eval([]byte(name))
	}
	is("ZERO", &F.ZERO, bn(0))
	is("ONE", &F.ONE, bn(1))
	is("TWO", &F.TWO, bn(2))
	is("D", &F.D, ref.D)
	is("DTimesTWO", &F.DTimesTWO, new(big.Int).Lsh(ref.D, 1))
	is("Ed25519FieldZero()", crypto.Ed25519FieldZero(), bn(0))
	is("Ed25519FieldOne()", crypto.Ed25519FieldOne(), bn(1))
	is("Ed25519FieldTWO()", crypto.Ed25519FieldTWO(), bn(2))
	is("Ed25519FieldD()", crypto.Ed25519FieldD(), ref.D)
	is("Ed25519FieldDTimesTwo()", crypto.Ed25519FieldDTimesTwo(), new(big.Int).Lsh(ref.D, 1))
	i := modP(limbVal(F.I.Raw))
	c.Check(mulP(i, i).Cmp(new(big.Int).Sub(ref.P, one)) == 0, "constant", "I is %x and no square root of -1", i)
	c.Check(bytes.Equal(crypto.Ed25519FieldZeroShort(), make([]byte, 32)), "constant", "ZeroShort")
	c.Check(bytes.Equal(crypto.Ed25519FieldZeroLong(), make([]byte, 64)), "constant", "ZeroLong")
}

// ---- C19 ----

// wide returns n little-endian bytes of some class.
func (c *C) wide(n int) []byte {
	bits := 8 * n
	fit := func(v *big.Int) []byte {
		if v.Sign() < 0 || v.BitLen() > bits {
			return c.R.Bytes(n)
		}
		return ref.LE(v, n)
	}
	switch c.R.Intn(10) {
	case 0, 1:
		// k*L + e
		kb := c.R.Intn(bits - 252 + 1)
		k := ref.Big(c.R.Bytes(n))
		k.Mod(k, pow2(uint(kb)))
		if c.R.Intn(4) == 0 {
			k = pow2(uint(kb))
			k.Sub(k, one)
		}
		v := new(big.Int).Mul(ref.L, k)
		e := bn(int64(c.R.Intn(9) - 4))
		if c.R.Intn(3) == 0 {
			e = pow2(uint(c.R.Intn(252)))
		}
		c.Hit("wide:near-kL")
		return fit(v.Add(v, e))
	case 2:
		v := pow2(uint(c.R.Intn(bits + 1)))
		c.Hit("wide:near-2^k")
		return fit(v.Add(v, bn(int64(c.R.Intn(5)-3))))
	case 3, 4:
		// 21-bit digits at their extremes
		v := new(big.Int)
		for i := 0; i*21 < bits; i++ {
			d := []int64{0, 1, 1<<21 - 1, 1 << 20, 1<<20 - 1, 1<<20 + 1, 1<<21 - 2, int64(c.R.U64() & (1<<21 - 1))}[c.R.Intn(8)]
			v.Add(v, new(big.Int).Lsh(bn(d), uint(21*i)))
		}
		v.Mod(v, pow2(uint(bits)))
		c.Hit("wide:limbs")
		return ref.LE(v, n)
	case 5:
		b := make([]byte, n)
		for i := range b {
			b[i] = []byte{0, 0xff, 0x80, 0x7f}[c.R.Intn(4)]
		}
		c.Hit("wide:extreme-bytes")
		return b
	case 6:
		// runs of equal bits
		b := make([]byte, n)
		bit := c.R.Bool()
		for i := 0; i < bits; {
			l := 1 + c.R.Intn(80)
			for ; l > 0 && i < bits; l-- {
				if bit {
					b[i/8] |= 1 << uint(i%8)
				}
				i++
			}
			bit = !bit
		}
		c.Hit("wide:blocks")
		return b
	case 7:
		b := c.R.Bytes(n)
		for i := c.R.Intn(n); i < n; i++ {
			b[i] = 0
		}
		c.Hit("wide:short")
		return b
	}
	c.Hit("wide:random")
	return c.R.Bytes(n)
}

func (c *C) modQCheck(b []byte) {
	g := c.guard(b)
	got := must[func([]byte) []byte]("sc.modQ")(g.B)
	g.check(c, "modQ")
	c.Eval(b)
	v := ref.Big(b)
	want := ref.LE(v.Mod(v, ref.L), 32)
	c.Check(bytes.Equal(got, want), "reduction", "%x modulo L is %x, want %x", b, got, want)
}

func c19reduce(c *C) {
	b := c.wide(64)
	c.modQCheck(b)
	c.Sample("%s modulo L", hx(b))
}

func c19edges(c *C) {
	// every power of two and its neighbours, every multiple of L by a power of two
	n := c.Idx
	v := pow2(uint(n & 511))
	if n&512 != 0 {
		v = new(big.Int).Mul(ref.L, pow2(uint(n&511)%260))
	}
	v.Add(v, bn(int64(n>>10)-2))
	if v.Sign() < 0 {
		v = bn(0)
	}
	c.modQCheck(ref.LE(v, 64))
	if n < 256 {
		b := make([]byte, 64)
		for i := range b {
			b[i] = byte(n)
		}
		c.modQCheck(b)
	}
}

func c19muladd(c *C) {
	a, b, d := c.wide(32), c.wide(32), c.wide(32)
	switch c.R.Intn(5) {
	case 0:
		// a*b + d = e modulo L for a small e
		v := new(big.Int).Mul(ref.Big(a), ref.Big(b))
		v.Neg(v).Add(v, bn(int64(c.R.Intn(5)-2))).Mod(v, ref.L)
		v.Add(v, new(big.Int).Mul(ref.L, bn(int64(c.R.Intn(15)))))
		d = ref.LE(v, 32)
		c.Hit("ma:target")
	case 1:
		for i, x := range [][]byte{a, b, d} {
			if c.R.Intn(3) == 0 {
				continue
			}
			v := []byte{0, 0xff, 0xff, 0x7f}[c.R.Intn(4)]
			for k := range x {
				x[k] = v
			}
			_ = i
		}
		c.Hit("ma:extreme")
	}
	ga, gb, gd := c.guard(a), c.guard(b), c.guard(d)
	got := must[func(a, b, c []byte) []byte]("sc.multiplyAndAddModQ")(ga.B, gb.B, gd.B)
	ga.check(c, "multiplyAndAddModQ(a)")
	gb.check(c, "multiplyAndAddModQ(b)")
	gd.check(c, "multiplyAndAddModQ(c)")
	c.Eval(a, b, d)
	v := new(big.Int).Mul(ref.Big(a), ref.Big(b))
	v.Add(v, ref.Big(d))
	want := ref.LE(v.Mod(v, ref.L), 32)
	c.Check(bytes.Equal(got, want), "multiply and add", "%x * %x + %x modulo L is %x, want %x", a, b, d, got, want)
	c.Sample("%s * %s + %s", hx(a), hx(b), hx(d))
}

// c19canonical reduces through the exported interface.
func c19canonical(c *C) {
	s := c.wide(32)
	r := c.R.Bytes(32)
	sg := crypto.NewEd25519DsaSigner(c.pubPair(c19pub))
	got, err := sg.MakeSignatureCanonical(&crypto.Signature{R: r, S: s})
	c.Eval(s)
	want := ref.Reduce(s)
	c.Check(err == nil && bytes.Equal(got.S, want) && bytes.Equal(got.R, r), "canonical", "MakeSignatureCanonical of S %x is %v (%v), want S %x", s, got, err, want)
}

var c19pub = ref.Public(make([]byte, 32))
