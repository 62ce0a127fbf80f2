package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"hash/maphash"
	"math/big"

	crypto "github.com/proximax-storage/go-xpx-crypto"

	"verifmon/ref"
)

func init() {
	register(&Prop{
		ID:   "C21",
		Rule: "a case is a history of operations on objects and arguments in guarded memory; after every operation the guards, the objects, the package state and all retained results are compared with what they were; non-trivial when the objects are new",
		Fams: func(t *Tier) []Fam {
			fl := map[string]int64{}
			for _, o := range liveOps {
				fl["live:"+o.name] = 50
			}
			return []Fam{
				{Name: "package-state-serial", Serial: true, N: t.N(2*len(concOps), 40*len(concOps)), Fn: c21state, Floor: map[string]int64{"state:compared": int64(len(concOps))}},
				{Name: "arguments", N: t.N(260, 8000), Fn: c21args, Floor: map[string]int64{"guards:checked": 10000}},
				{Name: "retained", N: t.N(220, 6000), Fn: c21retained, Floor: fl},
				{Name: "long-retained", N: len(liveOps), Fn: c21long, Floor: map[string]int64{"retained:long": int64(len(liveOps)) * 1000}},
				{Name: "internal", N: t.N(2500, 60000), Fn: c21internal, Floor: map[string]int64{"internal:operand": 5000}},
				{Name: "tables", N: t.N(100, 2000), Fn: c21tables, Needs: []string{"ge.scalarMultiply", "ge.doubleScalarMultiplyVariableTime"}},
				{Name: "numbers", N: t.N(3000, 60000), Fn: c21numbers},
				{Name: "wild-numbers", N: t.N(1500, 40000), Fn: c21wild},
			}
		},
		Before: func() { stateAtStart = pkgState() },
		After:  func(c *C) { c.sameState(stateAtStart, "all operations of the run") },
	})
}

// ---- package state ----

type part struct {
	name string
	sum  uint64
}

var stateSeed = maphash.MakeSeed()

func feRaw(h *maphash.Hash, f *crypto.Ed25519FieldElement) {
	if f == nil {
		h.WriteByte(0)
		return
	}
	var b [81]byte
	b[80] = 1
	for i, v := range f.Raw {
		binary.LittleEndian.PutUint64(b[8*i:], uint64(v))
	}
	h.Write(b[:])
}

func geRaw(h *maphash.Hash, g ge) {
	if g == nil {
		h.WriteByte(0)
		return
	}
	h.WriteByte(byte(1 + g.GetCoordinateSystem()))
	feRaw(h, g.X)
	feRaw(h, g.Y)
	feRaw(h, g.Z)
	feRaw(h, g.T)
}

// pkgState digests the constants and tables of the package.
func pkgState() (l []part) {
	add := func(name string, f func(h *maphash.Hash)) {
		var h maphash.Hash
		h.SetSeed(stateSeed)
		f(&h)
		l = append(l, part{name, h.Sum64()})
	}
	str := func(name string, v interface{}) {
		add(name, func(h *maphash.Hash) { fmt.Fprint(h, v) })
	}
	F, G := &crypto.Ed25519Field, crypto.Ed25519Group
	str("Ed25519Field.P", F.P)
	for _, v := range []struct {
		n string
		f *crypto.Ed25519FieldElement
	}{{"ZERO", &F.ZERO}, {"ONE", &F.ONE}, {"TWO", &F.TWO}, {"D", &F.D}, {"DTimesTWO", &F.DTimesTWO}, {"I", &F.I},
		{"D()", crypto.Ed25519FieldD()}, {"DTimesTwo()", crypto.Ed25519FieldDTimesTwo()}, {"Zero()", crypto.Ed25519FieldZero()}, {"One()", crypto.Ed25519FieldOne()}, {"TWO()", crypto.Ed25519FieldTWO()}} {
		f := v.f
		add("Ed25519Field "+v.n, func(h *maphash.Hash) { feRaw(h, f) })
	}
	str("Ed25519FieldZeroShort", crypto.Ed25519FieldZeroShort())
	str("Ed25519FieldZeroLong", crypto.Ed25519FieldZeroLong())
	str("Ed25519FieldP", crypto.Ed25519FieldP())
	str("GROUP_ORDER", G.GROUP_ORDER)
	add("BASE_POINT", func(h *maphash.Hash) { geRaw(h, G.BASE_POINT()) })
	add("ZERO", func(h *maphash.Hash) { geRaw(h, G.ZERO_P2()); geRaw(h, G.ZERO_P3()); geRaw(h, G.ZERO_PRECOMPUTED()) })
	str("MathUtils.D", crypto.MathUtils.D)
	str("MathUtils.EXPONENTS", crypto.MathUtils.EXPONENTS)
	str("engines", fmt.Sprintf("%p %p", crypto.CryptoEngines.DefaultEngine, crypto.CryptoEngines.Ed25519Engine))
	if f, ok := bridge[func() [][]ge]("tables.basePrecSingle"); ok {
		add("table for single multiplication", func(h *maphash.Hash) {
			for _, r := range f() {
				for _, g := range r {
					geRaw(h, g)
				}
			}
		})
	}
	if f, ok := bridge[func() []ge]("tables.basePrecDouble"); ok {
		add("table for double multiplication", func(h *maphash.Hash) {
			for _, g := range f() {
				geRaw(h, g)
			}
		})
	}
	if f, ok := bridge[func() []limbs]("consts.d"); ok {
		str("d", f())
	}
	return
}

var stateAtStart []part

func (c *C) sameState(was []part, what string) {
	now := pkgState()
	for i := range was {
		if i < len(now) && now[i] != was[i] {
			c.Fail("package state changed", "%s changed after %s", was[i].name, what)
		}
	}
	c.Hit("state:compared")
}

// baseSelects reads the whole table of the base point through Select.
func baseSelects(c *C) uint64 {
	var h maphash.Hash
	h.SetSeed(stateSeed)
	g := crypto.Ed25519Group.BASE_POINT()
	for pos := 0; pos < 32; pos++ {
		for b := -8; b <= 8; b++ {
			s, err := g.Select(pos, b)
			if err != nil {
				c.Fail("Select", "Select(%d, %d): %v", pos, b, err)
			}
			geRaw(&h, s)
		}
	}
	return h.Sum64()
}

func c21state(c *C) {
	o := &concOps[c.Idx%len(concOps)]
	if !usable(o) {
		return
	}
	was, sel := pkgState(), baseSelects(c)
	w := newWorld(c, c.R.Bool(), o.tables, nil)
	c.sameState(was, "building objects")
	for i := 0; i < 4; i++ {
		noPanic(c, o.name, func() { o.run(w, i) })
		c.sameState(was, o.name)
	}
	c.Eval(w.priv, []byte(o.name))
	c.Check(baseSelects(c) == sel, "package state changed", "a table entry of the base point changed after %s", o.name)
	c.sameState(stateAtStart, o.name)
	c.Sample("package state before and after %s", o.name)
}

// ---- arguments and objects ----

// objects digests everything a world holds.
func (w *world) objects() map[string]string {
	m := map[string]string{}
	add := func(n string, v ...interface{}) { m[n] = fmt.Sprint(v...) }
	kp := func(n string, k *crypto.KeyPair) {
		if k.PrivateKey != nil {
			add(n+" private key", fmt.Sprintf("%x %s", k.PrivateKey.Raw, k.PrivateKey))
		}
		add(n+" public key", fmt.Sprintf("%x", k.PublicKey.Raw), k.HasPrivateKey())
	}
	kp("key pair", w.kp)
	kp("peer key pair", w.peerKP)
	kp("public key pair", w.pubKP)
	add("private key", fmt.Sprintf("%x %s", w.key.Raw, w.key))
	for i := range w.sigs {
		add(fmt.Sprint("signature ", i), w.sigs[i].R, w.sigs[i].S, w.bad[i].R, w.bad[i].S)
		add(fmt.Sprint("encoded point ", i), w.encs[i].Raw)
		add(fmt.Sprint("encoded field element ", i), w.efes[i].Raw)
		add(fmt.Sprint("field element ", i), w.fes[i].Raw)
		add(fmt.Sprint("integer ", i), w.ints[i])
	}
	for i, g := range w.reps {
		add("element "+sysNames[allSys[i]], geStr(g))
	}
	add("element", geStr(w.p3))
	if w.single != nil {
		add("precomputed element", geStr(w.single), geStr(w.double))
	}
	return m
}

func (c *C) sameObjects(was, now map[string]string, what string) {
	for k, v := range was {
		if now[k] != v {
			c.Fail("object changed", "%s changes %s\nfrom %s\nto   %s", what, k, v, now[k])
		}
	}
}

// guardedWorld builds a world whose byte strings all sit between canaries.
func (c *C) guardedWorld(tables bool) (*world, func(what string)) {
	var gs []*guarded
	w := newWorld(c, true, tables, func(b []byte) []byte {
		g := c.guard(b)
		gs = append(gs, g)
		return g.B
	})
	return w, func(what string) {
		for _, g := range gs {
			g.check(c, what)
		}
		c.HitN("guards:checked", len(gs))
	}
}

func c21args(c *C) {
	w, check := c.guardedWorld(c.Idx%4 == 0)
	was := w.objects()
	for n := 0; n < 12; n++ {
		o := &concOps[(c.Idx*5+n*7+c.R.Intn(3))%len(concOps)]
		if !usable(o) || (o.tables && w.single == nil) {
			continue
		}
		i := c.R.Intn(4)
		var out []byte
		noPanic(c, o.name, func() { out = o.run(w, i) })
		c.Eval(w.priv, []byte(o.name), []byte{byte(i)})
		check(o.name)
		c.sameObjects(was, w.objects(), o.name)
		c.Hit("op:" + o.name)
		if o.want != nil {
			if o.norm != nil {
				out = o.norm(w, i, out)
			}
			if want := o.want(w, i); !bytes.Equal(out, want) {
				c.Fail("later result differs", "%s in a history of operations gives %s, want %s", o.name, hx(out), hx(want))
			}
		}
	}
	c.Sample("12 operations on %d guarded buffers", len(was))
}

// ---- retained results ----

// live is a result as the caller holds it.
type live struct {
	view  func() string
	bytes [][]byte // what the caller may overwrite
}

type liveOp struct {
	name  string
	fixed bool // the same arguments give the same result
	run   func(w *world, i int, arg func([]byte) []byte) live
}

func lb(bs ...[]byte) live {
	return live{func() string { return fmt.Sprintf("%x", bs) }, bs}
}

func lv(f func() string) live { return live{view: f} }

var liveOps = []liveOp{
	{"sign", true, func(w *world, i int, arg func([]byte) []byte) live {
		s, err := w.signer.Sign(arg(w.msgs[i]))
		if err != nil {
			panic(err)
		}
		return lb(s.R, s.S)
	}},
	{"encrypt", false, func(w *world, i int, arg func([]byte) []byte) live {
		ct, err := w.enc.Encrypt(arg(w.msgs[i]))
		if err != nil {
			panic(err)
		}
		if m, err := ref.Decrypt(w.peer, w.pub, ct); err != nil || !bytes.Equal(m, w.msgs[i]) {
			w.c.Fail("later result differs", "a ciphertext in a history of operations cannot be decrypted: %v", err)
		}
		return lb(ct)
	}},
	{"decrypt", true, func(w *world, i int, arg func([]byte) []byte) live {
		m, err := w.dec.Decrypt(arg(w.cts[i]))
		if err != nil {
			panic(err)
		}
		return lb(m)
	}},
	{"shared-key", true, func(w *world, i int, arg func([]byte) []byte) live {
		bc := crypto.NewEd25519BlockCipher(w.kp, w.peerKP, nil)
		k, err := bc.GetSharedKey(w.key, w.peerKP.PublicKey, arg(w.salt))
		if err != nil {
			panic(err)
		}
		return lb(k)
	}},
	{"hashes", true, func(w *world, i int, arg func([]byte) []byte) live {
		var out [][]byte
		for _, h := range []func([]byte) ([]byte, error){crypto.HashesSha_256, crypto.HashesSha3_256, crypto.HashesKeccak_256, crypto.HashesRipemd160} {
			d, err := h(arg(w.msgs[i]))
			if err != nil {
				panic(err)
			}
			out = append(out, d)
		}
		d, err := crypto.HashesSha3_512(arg(w.msgs[i]), arg(w.salt))
		if err != nil {
			panic(err)
		}
		return lb(append(out, d)...)
	}},
	{"signature-bytes", true, func(w *world, i int, arg func([]byte) []byte) live {
		return lb(w.sigs[i].Bytes())
	}},
	{"canonical", true, func(w *world, i int, arg func([]byte) []byte) live {
		s, err := w.signer.MakeSignatureCanonical(w.bad[i])
		if err != nil {
			panic(err)
		}
		return lv(func() string { return fmt.Sprintf("%x %x", s.R, s.S) })
	}},
	{"signature-integers", true, func(w *world, i int, arg func([]byte) []byte) live {
		r, s := w.sigs[i].GetR(), w.sigs[i].GetS()
		return lv(func() string { return fmt.Sprint(r, s, w.sigs[i]) })
	}},
	{"signature-from-integers", true, func(w *world, i int, arg func([]byte) []byte) live {
		s, err := crypto.NewSignatureFromBigInt(w.ints[i], w.ints[(i+1)%4])
		if err != nil {
			panic(err)
		}
		return lv(func() string { return s.String() })
	}},
	{"derive", true, func(w *world, i int, arg func([]byte) []byte) live {
		p := w.gen.DerivePublicKey(w.key)
		return lv(func() string { return p.String() })
	}},
	{"generate", false, func(w *world, i int, arg func([]byte) []byte) live {
		kp, err := w.gen.GenerateKeyPair()
		if err != nil {
			panic(err)
		}
		return lv(func() string { return kp.PrivateKey.String() + kp.PublicKey.String() })
	}},
	{"clamp", true, func(w *world, i int, arg func([]byte) []byte) live {
		a := crypto.PrepareForScalarMultiply(w.key)
		return lv(func() string { return a.String() })
	}},
	{"key-strings", true, func(w *world, i int, arg func([]byte) []byte) live {
		k, err := crypto.NewPrivateKeyfromHexString(w.key.String())
		p, err2 := crypto.NewPublicKeyfromHex(w.kp.PublicKey.String())
		if err != nil || err2 != nil {
			panic(fmt.Sprint(err, err2))
		}
		return lv(func() string { return k.String() + p.String() })
	}},
	{"decode-point", true, func(w *world, i int, arg func([]byte) []byte) live {
		g, err := w.encs[i].Decode()
		if err != nil {
			panic(err)
		}
		return lv(func() string { return geStr(g) })
	}},
	{"encode-point", true, func(w *world, i int, arg func([]byte) []byte) live {
		e, err := w.reps[1+i%3].Encode()
		if err != nil {
			panic(err)
		}
		return lv(func() string { return fmt.Sprintf("%x", e.Raw) })
	}},
	{"field", true, func(w *world, i int, arg func([]byte) []byte) live {
		e := w.fes[i].Encode()
		f := w.efes[0].Decode()
		r := crypto.Ed25519FieldElementSqrt(*w.fes[i], *w.fes[(i+1)%4])
		return lv(func() string { return fmt.Sprintf("%x", e.Raw) + ls(f.Raw) + ls(r.Raw) })
	}},
	{"base-point", true, func(w *world, i int, arg func([]byte) []byte) live {
		g := crypto.Ed25519Group.BASE_POINT()
		s, err := g.Select(i*9, i-3)
		if err != nil {
			panic(err)
		}
		z := crypto.Ed25519Group.ZERO_P3()
		return lv(func() string { return geStr(g) + geStr(s) + geStr(z) })
	}},
	{"math", true, func(w *world, i int, arg func([]byte) []byte) live {
		m := &crypto.MathUtils
		a, b := m.AddGroupElements(w.p3, w.reps[1]), m.DoubleGroupElement(w.p3)
		n := m.NegateGroupElement(w.p3)
		v, e := m.FieldToBigInteger(w.fes[i]), m.ToEncodedFieldElement(w.ints[i])
		q := m.ReduceModGroupOrder(w.efes[i])
		return lv(func() string { return geStr(a) + geStr(b) + geStr(n) + fmt.Sprint(v, e.Raw, q.Raw) })
	}},
	{"representation", true, func(w *world, i int, arg func([]byte) []byte) live {
		g, err := crypto.MathUtils.ToRepresentation(w.reps[i], allSys[(i+3)%6])
		if err != nil {
			panic(err)
		}
		return lv(func() string { return geStr(g) })
	}},
	{"multiply", true, func(w *world, i int, arg func([]byte) []byte) live {
		f, ok := bridge[func(ge, []byte) ge]("ge.scalarMultiply")
		if !ok {
			return lv(func() string { return "" })
		}
		g := f(crypto.Ed25519Group.BASE_POINT(), arg(w.scal))
		return lv(func() string { return geStr(g) })
	}},
	{"reduce", true, func(w *world, i int, arg func([]byte) []byte) live {
		f, ok := bridge[func(a, b, c []byte) []byte]("sc.multiplyAndAddModQ")
		if !ok {
			return lv(func() string { return "" })
		}
		r := f(arg(w.scal), arg(w.salt), arg(w.pub))
		return lv(func() string { return fmt.Sprintf("%x", r) })
	}},
}

// c21long keeps thousands of results of one operation: pools and rings of
// buffers come round again.
func c21long(c *C) {
	o := &liveOps[c.Idx]
	n := c.T.N(20000, 400000)
	switch o.name {
	case "encrypt", "decrypt", "shared-key":
		n = c.T.N(3000, 60000)
	case "math", "multiply", "base-point", "derive", "generate", "sign", "encode-point", "decode-point":
		n = c.T.N(6000, 120000)
	}
	// several worlds: an overwritten result must show
	ws := make([]*world, 5)
	for i := range ws {
		ws[i], _ = c.guardedWorld(false)
	}
	type held struct {
		l   live
		was string
	}
	hs := make([]held, 0, n)
	arg := func(b []byte) []byte { return append([]byte(nil), b...) }
	recheck := func() {
		for i, h := range hs {
			if now := h.l.view(); now != h.was {
				c.Fail("result changed", "result %d of %s changed within %d further calls\nfrom %s\nto   %s", i, o.name, len(hs)-i-1, h.was, now)
			}
		}
		c.HitN("results:rechecked", len(hs))
	}
	for k := 0; k < n; k++ {
		l := o.run(ws[c.R.Intn(len(ws))], c.R.Intn(4), arg)
		hs = append(hs, held{l, l.view()})
		c.Hit("retained:long")
		if k&(k+1) == 0 {
			recheck()
		}
	}
	recheck()
	c.Eval([]byte(o.name), []byte(hs[len(hs)-1].was))
	c.Sample("%d results of %s", n, o.name)
}

func c21retained(c *C) {
	w, check := c.guardedWorld(false)
	was := w.objects()
	type held struct {
		op   *liveOp
		i, n int
		l    live
		was  string
	}
	var hs []held
	first := map[string]string{}
	var args [][]byte
	arg := func(b []byte) []byte {
		a := append([]byte(nil), b...)
		args = append(args, a)
		return a
	}
	recheck := func(what string) {
		for _, h := range hs {
			if now := h.l.view(); now != h.was {
				c.Fail("result changed", "the result of operation %d, %s, changed after %s\nfrom %s\nto   %s", h.n, h.op.name, what, h.was, now)
			}
		}
		c.HitN("results:rechecked", len(hs))
	}
	for n := 0; n < 60; n++ {
		o := &liveOps[(c.Idx+n*(1+c.Idx%5)+c.R.Intn(2))%len(liveOps)]
		i := c.R.Intn(4)
		args = args[:0]
		var l live
		noPanic(c, o.name, func() { l = o.run(w, i, arg) })
		v := l.view()
		c.Logf("%d: %s(%d) = %s", n, o.name, i, v)
		c.Eval(w.priv, []byte(o.name), []byte{byte(n)})
		c.Hit("live:" + o.name)
		if o.fixed {
			k := fmt.Sprint(o.name, i)
			if f, ok := first[k]; ok && f != v {
				c.Fail("later result differs", "operation %d, %s, gives %s, the same operation gave %s before", n, o.name, v, f)
			}
			first[k] = v
		}
		// the caller reuses the memory of its arguments
		for _, a := range args {
			for k := range a {
				a[k] ^= 0xa5
			}
		}
		if now := l.view(); now != v {
			c.Fail("result changed", "the result of %s changes when the caller reuses the memory of the argument: %s becomes %s", o.name, v, now)
		}
		if l.bytes != nil && c.R.Intn(3) == 0 {
			for _, b := range l.bytes {
				for k := range b {
					b[k] = byte(c.R.U64())
				}
			}
			c.Hit("result:overwritten")
			// at once again
			if o.fixed {
				args = args[:0]
				if v2 := o.run(w, i, arg).view(); v2 != v {
					c.Fail("later result differs", "%s gives %s after its result %s was overwritten", o.name, v2, v)
				}
			}
		} else {
			hs = append(hs, held{o, i, n, l, v})
		}
		recheck(o.name)
		if n%10 == 9 {
			check("a history of operations")
			c.sameObjects(was, w.objects(), "a history of operations")
		}
	}
	c.Sample("60 operations, %d results retained", len(hs))
}

// ---- package-private operations ----

func c21internal(c *C) {
	p, _ := c.point()
	q, _ := c.point()
	a, b := c.repOf(p, P3), c.repOf(q, CACHED)
	m := c.repOf(q, PRECOMPUTED)
	p2, pp := c.repOf(p, P2), c.repOf(p, P1xP1)
	ops := map[string]ge{"a": a, "b": b, "m": m, "p2": p2, "pp": pp}
	was := map[string]string{}
	for k, g := range ops {
		was[k] = geStr(g)
	}
	type res struct {
		name, was string
		g         ge
	}
	var rs []res
	step := func(name string, f func() ge) {
		var r ge
		noPanic(c, name, func() { r = f() })
		for k, g := range ops {
			if s := geStr(g); s != was[k] {
				c.Fail("operand changed", "%s changes an operand from %s to %s", name, was[k], s)
			}
		}
		for _, x := range rs {
			if s := geStr(x.g); s != x.was {
				c.Fail("result changed", "%s changes the result of %s from %s to %s", name, x.name, x.was, s)
			}
		}
		if r != nil {
			rs = append(rs, res{name, geStr(r), r})
		}
		c.Hit("internal:operand")
	}
	c.Eval([]byte(was["a"]), []byte(was["b"]))
	for _, o := range []string{"ge.add", "ge.subtract"} {
		if f, ok := bridge[binop](o); ok {
			step(o, func() ge { return f(a, b) })
		}
	}
	for _, o := range []string{"ge.precomputedAdd", "ge.precomputedSubtract"} {
		if f, ok := bridge[binop](o); ok {
			step(o, func() ge { return f(a, m) })
		}
	}
	if f, ok := bridge[func(a, u ge, b int) (ge, error)]("ge.cmov"); ok {
		for v := 0; v < 2; v++ {
			step("ge.cmov", func() ge { r, _ := f(a, b, v); return r })
			step("ge.cmov", func() ge { r, _ := f(m, m, v); return r })
		}
	}
	if f, ok := bridge[func(ge) ge]("ge.dbl"); ok {
		step("ge.dbl", func() ge { return f(a) })
		step("ge.dbl", func() ge { return f(p2) })
	}
	for _, o := range []string{"ge.toP2", "ge.toP3", "ge.toCached", "ge.copy"} {
		if f, ok := bridge[func(ge) ge](o); ok {
			if o != "ge.toCached" && o != "ge.copy" {
				step(o, func() ge { return f(pp) })
			}
			step(o, func() ge { return f(a) })
		}
	}
	if f, ok := bridge[func(ge) ge]("ge.negate"); ok {
		step("ge.negate", func() ge { return f(a) })
	}
	// scalars, aliased as well
	x, y, z := c.guard(c.wide(32)), c.guard(c.wide(32)), c.guard(c.wide(32))
	if f, ok := bridge[func(a, b, c []byte) []byte]("sc.multiplyAndAddModQ"); ok {
		one := func(g1, g2, g3 *guarded) []byte {
			r := f(g1.B, g2.B, g3.B)
			v := new(big.Int).Mul(ref.Big(g1.B), ref.Big(g2.B))
			v.Add(v, ref.Big(g3.B)).Mod(v, ref.L)
			x.check(c, "multiplyAndAddModQ")
			y.check(c, "multiplyAndAddModQ")
			z.check(c, "multiplyAndAddModQ")
			c.Check(bytes.Equal(r, ref.LE(v, 32)), "aliased operands", "%x*%x+%x mod L is %x", g1.B, g2.B, g3.B, r)
			return r
		}
		r1 := one(x, y, z)
		k1 := append([]byte(nil), r1...)
		one(x, x, x)
		one(y, x, y)
		one(z, z, x)
		c.Check(bytes.Equal(r1, k1), "result changed", "multiplyAndAddModQ changes an earlier result")
		c.Hit("internal:aliased")
	}
	if f, ok := bridge[func([]byte) []byte]("sc.modQ"); ok {
		w := c.guard(c.wide(64))
		r := f(w.B)
		k := append([]byte(nil), r...)
		w.check(c, "modQ")
		f(c.wide(64))
		c.Check(bytes.Equal(r, k), "result changed", "modQ changes an earlier result")
	}
	for _, o := range []string{"ge.toRadix16", "ge.slide"} {
		if f, ok := bridge[func(ge, []byte) []int8](o); ok {
			s := c.guard(c.scalar32())
			r := f(a, s.B)
			k := fmt.Sprint(r)
			s.check(c, o)
			f(a, c.scalar32())
			c.Check(fmt.Sprint(r) == k, "result changed", "%s changes an earlier result", o)
			step(o, func() ge { return nil })
		}
	}
}

func tableSum(g ge) uint64 {
	var h maphash.Hash
	h.SetSeed(stateSeed)
	if f, ok := bridge[func(ge) [][]ge]("ge.precomputedForSingle"); ok {
		for _, r := range f(g) {
			for _, e := range r {
				geRaw(&h, e)
			}
		}
	}
	if f, ok := bridge[func(ge) []ge]("ge.precomputedForDouble"); ok {
		for _, e := range f(g) {
			geRaw(&h, e)
		}
	}
	geRaw(&h, g)
	return h.Sum64()
}

// c21tables: multiplications leave the tables they use untouched.
func c21tables(c *C) {
	p, _ := c.point()
	g, a := c.repOf(p, P3), c.repOf(p, P3)
	bp := crypto.Ed25519Group.BASE_POINT()
	g.PrecomputeForScalarMultiplication()
	a.PrecomputeForDoubleScalarMultiplication()
	sg, sa, sb := tableSum(g), tableSum(a), tableSum(bp)
	mul := must[func(ge, []byte) ge]("ge.scalarMultiply")
	dbl := must[func(b, A ge, x, y []byte) ge]("ge.doubleScalarMultiplyVariableTime")
	s, u := c.guard(c.scalar32()), c.guard(c.reducedScalar())
	c.Eval(p.Bytes(), s.B)
	for k := 0; k < 3; k++ {
		r := mul([]ge{g, bp, g}[k], s.B)
		was := geStr(r)
		dbl(bp, a, s.B, u.B)
		if _, err := g.Select(c.R.Intn(32), c.R.Intn(17)-8); err != nil {
			c.Fail("Select", "%v", err)
		}
		if k == 1 {
			g.PrecomputeForScalarMultiplication()
			a.PrecomputeForDoubleScalarMultiplication()
		}
		mul(g, u.B)
		s.check(c, "multiplication")
		u.check(c, "multiplication")
		c.Check(geStr(r) == was, "result changed", "a multiplication changes an earlier result")
		c.Check(tableSum(g) == sg && tableSum(a) == sa && tableSum(bp) == sb, "table changed", "a multiplication changes a precomputed table (k = %d, scalars %x %x, point %x)", k, s.B, u.B, p.Bytes())
	}
	c.Hit("tables:compared")
}

// c21numbers: big integers given to the library stay as they are.
func c21numbers(c *C) {
	vs := []*big.Int{c.fieldVal(), ref.Big(c.R.Bytes(32)), c.fieldVal(), c.zval(), c.zval()}
	var was []string
	for _, v := range vs {
		was = append(was, v.String())
	}
	c.Eval([]byte(was[0]), []byte(was[1]))
	m := &crypto.MathUtils
	check := func(what string) {
		for i, v := range vs {
			if v.String() != was[i] {
				c.Fail("argument changed", "%s changes an integer from %s to %s", what, was[i], v)
			}
		}
		c.Hit("numbers:" + what)
	}
	s, err := crypto.NewSignatureFromBigInt(vs[0], vs[1])
	check("NewSignatureFromBigInt")
	if err != nil {
		c.Fail("constructor", "%v", err)
	}
	txt := s.String()
	k := crypto.NewPrivateKeyFromBigInt(vs[1])
	check("NewPrivateKeyFromBigInt")
	if _, err := crypto.NewKeyPair(k, nil, nil); err != nil {
		c.Fail("constructor", "%v", err)
	}
	_ = k.String()
	check("use of the private key")
	m.ToByteArray(vs[1])
	m.ToEncodedFieldElement(vs[0])
	m.ToFieldElement(vs[0])
	check("MathUtils conversions")
	m.XMulY_Plus_ZMulT_DelD(*vs[0], vs[1], vs[2], vs[3], vs[4])
	check("XMulY_Plus_ZMulT_DelD")
	_, _ = m.GetAffineXFromAffineY(vs[0], c.R.Bool())
	check("GetAffineXFromAffineY")
	if f, ok := bridge[func(u, v *big.Int) *big.Int]("mu.getSqrtOfFraction"); ok {
		f(vs[0], vs[3])
		check("getSqrtOfFraction")
	}
	c.Check(s.String() == txt, "result changed", "a signature made from integers changed")
	if c.R.Intn(20) == 0 {
		c.sameState(stateAtStart, "helpers on integers")
	}
}
