package main

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"io"
	"math/big"
	mrand "math/rand/v2"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"

	crypto "github.com/proximax-storage/go-xpx-crypto"

	"verifmon/ref"
)

func init() {
	register(&Prop{
		ID:   "C20",
		Rule: "a case is one round: fresh objects shared by 8 goroutines that start together and do not synchronise until the join; the race detector watches all memory accesses (race build), every result is compared with the reference or with the same operation alone; non-trivial when the objects are new",
		Fams: func(t *Tier) []Fam {
			n := len(concOps)
			race := os.Getenv("VERIF_MODE") == "race"
			per, mixed, first := t.N(16, 300), t.N(300, 6000), t.N(2, 20)
			if race {
				per, mixed, first = t.N(4, 80), t.N(60, 1500), t.N(2, 10)
			}
			fl := map[string]int64{}
			for _, o := range concOps {
				fl["op:"+o.name] = 8
			}
			for _, o := range concOps {
				if len(missingBridges(o.needs)) > 0 {
					delete(fl, "op:"+o.name)
				}
			}
			return []Fam{
				{Name: "first-use", N: n * first, Fn: c20first, Floor: map[string]int64{"first-use": int64(n)}},
				{Name: "same-operation", Serial: true, N: n * per, Fn: c20same, Floor: fl},
				{Name: "mixed", Serial: true, N: mixed, Fn: c20mixed},
				{Name: "lifecycle", Serial: true, N: t.N(20, 400), Fn: c20lifecycle},
				{Name: "crowd", Serial: true, N: n * t.N(2, 40), Fn: c20crowd, Needs: []string{"yield.crowd"}},
				{Name: "crowd-lifecycle", Serial: true, N: t.N(4, 150), Fn: c20crowdLife, Needs: []string{"yield.crowd"}},
			}
		},
		Before: c20calibrate,
	})
}

// world is a set of shared objects whose contents follow from a generator.
type world struct {
	c                  *C
	mem                func([]byte) []byte
	badcts             [][]byte
	blind              signerOf // has no private key
	priv, peer         []byte
	pub, peerPub       []byte
	kp, peerKP, pubKP  *crypto.KeyPair
	key                *crypto.PrivateKey
	signer, verifier   signerOf
	enc, dec           crypto.BlockCipher
	gen                crypto.KeyGenerator
	eng                crypto.CryptoEngine
	msgs               [][]byte
	sigs, bad          []*crypto.Signature
	cts                [][]byte
	salt               []byte
	single, double, p3 ge
	reps               []ge
	encs               []*crypto.Ed25519EncodedGroupElement
	efes               []*crypto.Ed25519EncodedFieldElement
	fes                []*crypto.Ed25519FieldElement
	scal               []byte
	ints               []*big.Int
}

// threadReader is a source of random bytes that does not order its callers.
type threadReader struct{}

func (threadReader) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(mrand.Uint32())
	}
	return len(p), nil
}

// newWorld builds the objects; literal avoids everything that computes.
func newWorld(c *C, literal, tables bool, mem func([]byte) []byte) *world {
	w := &world{c: c, mem: mem}
	if mem == nil {
		w.mem = func(b []byte) []byte { return append([]byte(nil), b...) }
	}
	cp := w.mem
	w.priv, w.peer = c.R.Bytes(32), c.R.Bytes(32)
	w.pub, w.peerPub = ref.Public(w.priv), ref.Public(w.peer)
	lit := func(p []byte) *crypto.KeyPair {
		return &crypto.KeyPair{PrivateKey: crypto.NewPrivateKey(cp(p)), PublicKey: crypto.NewPublicKey(cp(ref.Public(p)))}
	}
	w.key = crypto.NewPrivateKey(cp(w.priv))
	if literal {
		w.kp, w.peerKP = lit(w.priv), lit(w.peer)
		w.pubKP = &crypto.KeyPair{PublicKey: crypto.NewPublicKey(cp(w.pub))}
	} else {
		w.kp, _ = c.pairFor(w.priv)
		w.peerKP, _ = c.pairFor(w.peer)
		w.pubKP = c.pubPair(w.pub)
	}
	w.signer, w.verifier = c.signer(w.kp), c.signer(w.pubKP)
	if c.R.Bool() {
		w.verifier = w.signer
	}
	if c.R.Bool() {
		w.enc = c.newCipher(w.kp, w.peerKP)
	} else {
		w.enc = crypto.NewEd25519BlockCipher(w.kp, w.peerKP, threadReader{})
	}
	w.dec = w.enc
	if c.R.Bool() {
		w.dec = c.newCipher(w.kp, w.peerKP)
	}
	w.gen = crypto.NewEd25519KeyGenerator(threadReader{})
	w.eng = crypto.CryptoEngines.Ed25519Engine
	if c.R.Bool() {
		w.eng = crypto.CryptoEngines.DefaultEngine
	}
	w.blind = c.signer(w.pubKP)
	w.salt = cp(c.R.Bytes(32))
	for i := 0; i < 4; i++ {
		n := c.R.Intn(200)
		if c.R.Intn(8) == 0 {
			n = c.R.Intn(3000)
		}
		m := cp(c.R.Bytes(n))
		w.msgs = append(w.msgs, m)
		s := ref.Sign(w.priv, w.pub, m)
		w.sigs = append(w.sigs, &crypto.Signature{R: cp(s[:32]), S: cp(s[32:])})
		b := append([]byte(nil), s...)
		b[c.R.Intn(64)] ^= 1 << uint(c.R.Intn(8))
		if c.R.Intn(3) == 0 {
			copy(b[32:], bytes.Repeat([]byte{0xff}, 32))
		}
		w.bad = append(w.bad, &crypto.Signature{R: cp(b[:32]), S: cp(b[32:])})
		ct, err := ref.Encrypt(w.peer, w.pub, c.R.Bytes(32), c.R.Bytes(16), m)
		if err != nil {
			panic(err)
		}
		w.cts = append(w.cts, cp(ct))
		x := append([]byte(nil), ct...)
		x[len(x)-1-16*c.R.Intn(2)] ^= byte(1 + c.R.Intn(255))
		if c.R.Intn(3) == 0 {
			x = x[:c.R.Intn(len(x))]
		}
		w.badcts = append(w.badcts, cp(x))
		e, err := crypto.NewEd25519EncodedGroupElement(cp(ref.MulBase(c.R.Bytes(32)).Bytes()))
		if err != nil {
			panic(err)
		}
		w.encs = append(w.encs, e)
		f, err := crypto.NewEd25519EncodedFieldElement(cp(c.R.Bytes(32 << uint(i&1))))
		if err != nil {
			panic(err)
		}
		w.efes = append(w.efes, f)
		w.fes = append(w.fes, c.feOf(c.fieldVal(), bnd11))
		w.ints = append(w.ints, c.fieldVal())
	}
	w.scal = cp(c.scalar32())
	p, _ := c.point()
	for _, s := range allSys {
		w.reps = append(w.reps, c.repOf(p, s))
	}
	w.p3 = c.repOf(p, P3)
	if tables {
		w.single, w.double = c.repOf(p, P3), c.repOf(p, P3)
		w.single.PrecomputeForScalarMultiplication()
		w.double.PrecomputeForDoubleScalarMultiplication()
		w.single.PrecomputeForDoubleScalarMultiplication()
	}
	return w
}

// cop is an operation on shared objects. run gives a description of the
// result; want, where the reference knows it, what it has to be.
type cop struct {
	name   string
	tables bool
	needs  []string
	run    func(w *world, i int) []byte
	want   func(w *world, i int) []byte
	norm   func(w *world, i int, out []byte) []byte // after the join
}

func bl(b bool) []byte {
	if b {
		return []byte("true")
	}
	return []byte("false")
}

func errb(b []byte, err error) []byte {
	if err != nil {
		return []byte("error: " + err.Error())
	}
	return append([]byte(nil), b...)
}

// scribble copies a result and overwrites what was returned.
func scribble(b []byte, err error) []byte {
	if err != nil {
		return []byte("error: " + err.Error())
	}
	r := append([]byte(nil), b...)
	for i := range b {
		b[i] ^= 0x5a
	}
	return r
}

func sigRes(s *crypto.Signature, err error) []byte {
	if err != nil {
		return []byte("error: " + err.Error())
	}
	return append(scribble(s.R, nil), scribble(s.S, nil)...)
}

func geBytes(g ge) []byte { return []byte(geStr(g)) }

func geEnc(g ge) []byte {
	e, ok := encOf(g)
	if !ok {
		return []byte("inconsistent " + geStr(g))
	}
	return e
}

var concOps = []cop{
	{name: "sign",
		run:  func(w *world, i int) []byte { return sigRes(w.signer.Sign(w.msgs[i])) },
		want: func(w *world, i int) []byte { return ref.Sign(w.priv, w.pub, w.msgs[i]) }},
	{name: "verify-valid",
		run:  func(w *world, i int) []byte { return bl(w.verifier.Verify(w.msgs[i], w.sigs[i])) },
		want: func(w *world, i int) []byte { return []byte("true") }},
	{name: "verify-invalid",
		run:  func(w *world, i int) []byte { return bl(w.verifier.Verify(w.msgs[i], w.bad[i])) },
		want: func(w *world, i int) []byte { return []byte("false") }},
	{name: "verify-other-message",
		run:  func(w *world, i int) []byte { return bl(w.verifier.Verify(w.msgs[i], w.sigs[(i+1)%4])) },
		want: func(w *world, i int) []byte { return bl(bytes.Equal(w.msgs[i], w.msgs[(i+1)%4])) }},
	{name: "canonical",
		run: func(w *world, i int) []byte {
			s := []*crypto.Signature{w.sigs[i], w.bad[i]}[i&1]
			m, err := w.signer.MakeSignatureCanonical(s)
			// R of the result may be the argument's
			if err != nil {
				return []byte(err.Error())
			}
			return append(append(bl(w.signer.IsCanonicalSignature(s)), m.R...), m.S...)
		},
		want: func(w *world, i int) []byte {
			s := []*crypto.Signature{w.sigs[i], w.bad[i]}[i&1]
			n := ref.Big(s.S)
			ok := n.Sign() > 0 && n.Cmp(ref.L) < 0
			return append(append(bl(ok), s.R...), ref.LE(n.Mod(n, ref.L), 32)...)
		}},
	{name: "derive",
		run: func(w *world, i int) []byte {
			k := w.key
			if i&1 == 1 {
				k = w.kp.PrivateKey
			}
			return append([]byte(nil), w.gen.DerivePublicKey(k).Raw...)
		},
		want: func(w *world, i int) []byte { return w.pub }},
	{name: "new-pair",
		run: func(w *world, i int) []byte {
			kp, err := crypto.NewKeyPair(w.key, nil, w.eng)
			if err != nil {
				return []byte(err.Error())
			}
			return append(bl(kp.HasPrivateKey()), kp.PublicKey.Raw...)
		},
		want: func(w *world, i int) []byte { return append(bl(true), w.pub...) }},
	{name: "clamp",
		run: func(w *world, i int) []byte { return scribble(crypto.PrepareForScalarMultiply(w.key).Raw, nil) },
		want: func(w *world, i int) []byte {
			a, _ := ref.Clamp(w.priv)
			return a
		}},
	{name: "encrypt",
		run: func(w *world, i int) []byte { return scribble(w.enc.Encrypt(w.msgs[i])) },
		norm: func(w *world, i int, out []byte) []byte {
			m, err := ref.Decrypt(w.peer, w.pub, out)
			if err != nil {
				return []byte(fmt.Sprintf("cannot be decrypted: %v: %s", err, out))
			}
			return m
		},
		want: func(w *world, i int) []byte { return w.msgs[i] }},
	{name: "decrypt",
		run:  func(w *world, i int) []byte { return scribble(w.dec.Decrypt(w.cts[i])) },
		want: func(w *world, i int) []byte { return w.msgs[i] }},
	{name: "decrypt-bad",
		run: func(w *world, i int) []byte { return scribble(w.dec.Decrypt(w.badcts[i])) },
		norm: func(w *world, i int, out []byte) []byte {
			if bytes.HasPrefix(out, []byte("error: ")) {
				return []byte("error")
			}
			return out
		},
		want: func(w *world, i int) []byte {
			m, err := ref.Decrypt(w.peer, w.pub, w.badcts[i])
			if err != nil {
				return []byte("error")
			}
			return m
		}},
	{name: "sign-without-key",
		run: func(w *world, i int) []byte {
			_, err := w.blind.Sign(w.msgs[i])
			_, err2 := crypto.NewKeyPair(nil, crypto.NewPublicKey(w.salt[:31]), nil)
			return bl(err != nil && err2 != nil)
		},
		want: func(w *world, i int) []byte { return []byte("true") }},
	{name: "shared-key",
		run: func(w *world, i int) []byte {
			bc, ok := w.enc.(*crypto.Ed25519BlockCipher)
			if !ok {
				bc = crypto.NewEd25519BlockCipher(w.kp, w.peerKP, nil)
			}
			return scribble(bc.GetSharedKey(w.key, w.peerKP.PublicKey, w.salt))
		},
		want: func(w *world, i int) []byte {
			k, err := ref.SharedKey(w.priv, w.peerPub, w.salt)
			if err != nil {
				panic(err)
			}
			return k
		}},
	{name: "generate",
		run: func(w *world, i int) []byte {
			kp, err := w.gen.GenerateKeyPair()
			if i&1 == 1 {
				kp, err = crypto.NewKeyPairByEngine(w.eng)
			}
			if err != nil {
				return []byte(err.Error())
			}
			return append(append([]byte(nil), kp.PrivateKey.Raw...), kp.PublicKey.Raw...)
		},
		norm: func(w *world, i int, out []byte) []byte {
			return bl(len(out) == 64 && bytes.Equal(ref.Public(out[:32]), out[32:]))
		},
		want: func(w *world, i int) []byte { return []byte("true") }},
	{name: "engine",
		run: func(w *world, i int) []byte {
			s := w.eng.CreateDsaSigner(w.kp)
			b := w.eng.CreateBlockCipher(w.kp, w.peerKP)
			out := bl(w.eng.CreateKeyAnalyzer().IsKeyCompressed(w.kp.PublicKey))
			out = append(out, sigRes(s.Sign(w.msgs[i]))...)
			return append(out, scribble(b.Decrypt(w.cts[i]))...)
		},
		want: func(w *world, i int) []byte {
			return append(append(bl(true), ref.Sign(w.priv, w.pub, w.msgs[i])...), w.msgs[i]...)
		}},
	{name: "hash",
		run: func(w *world, i int) []byte {
			var out []byte
			for _, h := range []func([]byte) ([]byte, error){crypto.HashesSha_256, crypto.HashesSha3_256, crypto.HashesKeccak_256, crypto.HashesRipemd160} {
				out = append(out, scribble(h(w.msgs[i]))...)
			}
			return append(out, scribble(crypto.HashesSha3_512(w.msgs[i], w.salt))...)
		},
		want: func(w *world, i int) []byte {
			m := w.msgs[i]
			return bytes.Join([][]byte{ref.SHA256(m), ref.SHA3_256(m), ref.Keccak256(m), ref.Ripemd160(m), ref.SHA3_512(m, w.salt)}, nil)
		}},
	{name: "key-encodings",
		run: func(w *world, i int) []byte {
			s := w.kp.PrivateKey.String() + w.kp.PublicKey.String()
			if f, ok := bridge[func(*crypto.PublicKey) string]("pk.hex"); ok {
				s += f(w.kp.PublicKey)
			}
			k, err := crypto.NewPrivateKeyfromHexString(w.kp.PrivateKey.String())
			p, err2 := crypto.NewPublicKeyfromHex(w.kp.PublicKey.String())
			if err != nil || err2 != nil {
				return []byte(fmt.Sprint(err, err2))
			}
			return append(append([]byte(s), k.Raw...), p.Raw...)
		}},
	{name: "signature-encodings",
		run: func(w *world, i int) []byte {
			s := w.sigs[i]
			out := append(scribble(s.Bytes(), nil), s.String()...)
			out = append(out, s.GetR().Bytes()...)
			out = append(out, s.GetS().Bytes()...)
			t, err := crypto.NewSignatureFromBigInt(w.ints[i], w.ints[(i+1)%4])
			if err != nil {
				return []byte(err.Error())
			}
			return append(out, t.Bytes()...)
		},
		want: func(w *world, i int) []byte {
			b := append(append([]byte(nil), w.sigs[i].R...), w.sigs[i].S...)
			out := append(append([]byte(nil), b...), hex.EncodeToString(b)...)
			out = append(append(out, ref.Big(b[:32]).Bytes()...), ref.Big(b[32:]).Bytes()...)
			return append(append(out, ref.LE(w.ints[i], 32)...), ref.LE(w.ints[(i+1)%4], 32)...)
		}},
	{name: "decode-point",
		run: func(w *world, i int) []byte {
			e := w.encs[i]
			g, err := e.Decode()
			if err != nil {
				return []byte(err.Error())
			}
			x, err := e.GetAffineX()
			if err != nil {
				return []byte(err.Error())
			}
			h, err := g.Encode()
			if err != nil {
				return []byte(err.Error())
			}
			return append(append(geEnc(g), scribble(x.Encode().Raw, nil)...), append(bl(h.Equals(e) && g.SatisfiesCurveEquation()), e.String()...)...)
		}},
	{name: "encode-point",
		run: func(w *world, i int) []byte {
			var out []byte
			for _, k := range []int{1, 2, 3} {
				e, err := w.reps[k].Encode()
				if err != nil {
					return []byte(err.Error())
				}
				out = append(out, scribble(e.Raw, nil)...)
				out = append(out, bl(w.reps[k].SatisfiesCurveEquation())...)
			}
			return append(out, w.reps[(i+2)%6].String()...)
		}},
	{name: "compare-points",
		run: func(w *world, i int) []byte {
			var out []byte
			for a := range w.reps {
				out = append(out, bl(w.reps[a].Equals(w.reps[(a+i)%6]))...)
			}
			return out
		},
		want: func(w *world, i int) []byte { return bytes.Repeat([]byte("true"), 6) }},
	{name: "coordinate-systems",
		run: func(w *world, i int) []byte {
			var out []byte
			for k := range w.reps {
				g, err := crypto.MathUtils.ToRepresentation(w.reps[k], allSys[(k+i)%6])
				if err != nil {
					return []byte(err.Error())
				}
				out = append(out, geEnc(g)...)
			}
			return out
		}},
	{name: "base-point",
		run: func(w *world, i int) []byte {
			g := crypto.Ed25519Group.BASE_POINT()
			s, err := g.Select((i*7)%32, i-2)
			if err != nil {
				return []byte(err.Error())
			}
			return append(append(geEnc(g), geEnc(s)...), bl(g.IsPrecomputedForDoubleScalarMultiplication())...)
		}},
	{name: "constants",
		run: func(w *world, i int) []byte {
			F := crypto.Ed25519Field
			s := fmt.Sprint(F.P, F.ZERO.Raw, F.ONE.Raw, F.TWO.Raw, F.D.Raw, F.DTimesTWO.Raw, F.I.Raw, crypto.Ed25519Group.GROUP_ORDER, crypto.MathUtils.D, crypto.MathUtils.EXPONENTS)
			s += fmt.Sprint(crypto.Ed25519FieldD().Raw, crypto.Ed25519FieldDTimesTwo().Raw, crypto.Ed25519FieldP(), crypto.Ed25519FieldOne().Raw, crypto.Ed25519FieldZero().Raw, crypto.Ed25519FieldTWO().Raw)
			G := crypto.Ed25519Group
			return append([]byte(s), bytes.Join([][]byte{geEnc(G.ZERO_P2()), geEnc(G.ZERO_P3()), geEnc(G.ZERO_PRECOMPUTED()), geEnc(G.BASE_POINT())}, nil)...)
		}},
	{name: "select", tables: true,
		run: func(w *world, i int) []byte {
			var out []byte
			for b := -8; b <= 8; b += 4 {
				g, err := w.single.Select((i*11+b+8)%32, b)
				if err != nil {
					return []byte(err.Error())
				}
				out = append(out, geEnc(g)...)
			}
			return out
		}},
	{name: "scalar-multiply", tables: true, needs: []string{"ge.scalarMultiply"},
		run: func(w *world, i int) []byte {
			g := w.single
			if i&1 == 1 {
				g = crypto.Ed25519Group.BASE_POINT()
			}
			return geEnc(must[func(ge, []byte) ge]("ge.scalarMultiply")(g, w.scal))
		}},
	{name: "double-multiply", tables: true, needs: []string{"ge.doubleScalarMultiplyVariableTime"},
		run: func(w *world, i int) []byte {
			g := crypto.Ed25519Group.BASE_POINT()
			if i&1 == 1 {
				g = w.single
			}
			return geEnc(must[func(b, A ge, x, y []byte) ge]("ge.doubleScalarMultiplyVariableTime")(g, w.double, w.scal, ref.Reduce(w.salt)))
		}},
	{name: "field",
		run: func(w *world, i int) []byte {
			f, g := w.fes[i], w.fes[(i+1)%4]
			r := crypto.Ed25519FieldElementSqrt(*f, *g)
			out := append(scribble(f.Encode().Raw, nil), scribble(r.Encode().Raw, nil)...)
			out = append(out, bl(f.IsNonZero())...)
			out = append(out, bl(f.IsNegative())...)
			out = append(out, bl(f.Equals(g))...)
			return append(out, f.String()...)
		}},
	{name: "encoded-field",
		run: func(w *world, i int) []byte {
			e := w.efes[i]
			out := []byte(e.String())
			if len(e.Raw) == 32 {
				out = append(out, scribble(e.Decode().Encode().Raw, nil)...)
				out = append(out, bl(e.IsNegative())...)
			}
			out = append(out, scribble(crypto.MathUtils.ReduceModGroupOrder(e).Raw, nil)...)
			return append(out, bl(e.Equals(w.efes[(i+2)%4]) || e.IsNonZero())...)
		}},
	{name: "math",
		run: func(w *world, i int) []byte {
			m := &crypto.MathUtils
			out := m.BytesToBigInteger(w.salt).Bytes()
			out = append(out, m.FieldToBigInteger(w.fes[i]).Bytes()...)
			out = append(out, m.ToByteArray(w.ints[i])...)
			out = append(out, geEnc(m.AddGroupElements(w.p3, w.reps[1]))...)
			out = append(out, geEnc(m.DoubleGroupElement(w.p3))...)
			out = append(out, geEnc(m.NegateGroupElement(w.p3))...)
			g, err := m.ToGroupElement(w.encs[i].Raw)
			if err != nil {
				return []byte(err.Error())
			}
			out = append(out, geEnc(g)...)
			out = append(out, m.EncodedFieldToBigInteger(w.efes[i]).Bytes()...)
			out = append(out, m.IntsToBigInteger(w.fes[i].Raw).Bytes()...)
			out = append(out, scribble(m.ToEncodedFieldElement(w.ints[i]).Raw, nil)...)
			f := m.ToFieldElement(w.ints[i])
			out = append(out, scribble(f.Encode().Raw, nil)...)
			out = append(out, geEnc(m.ScalarMultiplyGroupElement(w.p3, *f))...)
			y := ref.Big(w.encs[i].Raw)
			y.SetBit(y, 255, 0)
			x, err := m.GetAffineXFromAffineY(y, i&1 == 1)
			if err != nil {
				return []byte(err.Error())
			}
			out = append(out, x.Bytes()...)
			return append(out, m.XMulY_Plus_ZMulT_DelD(*x, y, w.ints[i], x, y).Bytes()...)
		}},
	{name: "math-random",
		run: func(w *world, i int) []byte {
			m := &crypto.MathUtils
			out := append([]byte(nil), m.GetRandomByteArray(24)...)
			out = append(out, m.GetRandomEncodedFieldElement(32).Raw...)
			out = append(out, geEnc(m.GetRandomGroupElement())...)
			var b [8]byte
			binary.LittleEndian.PutUint64(b[:], uint64(m.GetRandomInt64()))
			out = append(out, b[:]...)
			return append(out, byte(m.GetRandomFieldElement().Raw[0]))
		},
		norm: func(w *world, i int, out []byte) []byte {
			return bl(len(out) == 24+32+32+8+1 && ref.Decode(out[56:88]) != nil && out[55] < 0x80)
		},
		want: func(w *world, i int) []byte { return []byte("true") }},
	{name: "precompute-base",
		run: func(w *world, i int) []byte {
			// the base point has its tables: nothing is written
			g := crypto.Ed25519Group.BASE_POINT()
			g.PrecomputeForScalarMultiplication()
			g.PrecomputeForDoubleScalarMultiplication()
			return geEnc(g)
		}},
}

// order counts the completions of operations (not in the race build, where it
// would order the goroutines).
var order atomic.Int64

var concSeen sync.Map

// concRound runs ops concurrently on one world and decides afterwards.
func concRound(c *C, w *world, clone func() *world, plan [][]concStep) {
	type res struct {
		out []byte
		pan interface{}
		pos int64
	}
	race := os.Getenv("VERIF_MODE") == "race"
	results := make([][]res, len(plan))
	for g := range plan {
		results[g] = make([]res, len(plan[g]))
	}
	start := make(chan struct{})
	var wg sync.WaitGroup
	base := order.Load()
	for g := range plan {
		wg.Add(1)
		go func(steps []concStep, out []res) {
			defer wg.Done()
			<-start
			for k, s := range steps {
				func() {
					defer func() {
						if e := recover(); e != nil {
							out[k].pan = e
						}
					}()
					out[k].out = s.op.run(w, s.i)
				}()
				if !race {
					out[k].pos = order.Add(1) - base
				}
			}
		}(plan[g], results[g])
	}
	close(start)
	wg.Wait()
	// decide
	var alone *world
	wants := map[concStep][]byte{}
	var sig strings.Builder
	for g := range plan {
		for k, s := range plan[g] {
			r := results[g][k]
			fmt.Fprintf(&sig, "%d,", r.pos)
			c.Eval(w.priv, []byte(s.op.name), []byte{byte(s.i), byte(g), byte(k)})
			c.Hit("op:" + s.op.name)
			if r.pan != nil {
				c.Fail("panic under concurrency", "%s panics in a goroutine: %v", s.op.name, r.pan)
			}
			got := r.out
			if s.op.norm != nil {
				got = s.op.norm(w, s.i, got)
			}
			want, ok := wants[s]
			if !ok {
				if s.op.want != nil {
					want = s.op.want(w, s.i)
				} else {
					if alone == nil {
						alone = clone()
					}
					want = s.op.run(alone, s.i)
				}
				wants[s] = want
			}
			if !bytes.Equal(got, want) {
				c.Fail("result under concurrency", "%s in goroutine %d of %d gives\n%s (%q)\nalone it gives\n%s (%q)\nprivate key %x peer %x", s.op.name, g, len(plan), hx(got), trunc(got), hx(want), trunc(want), w.priv, w.peer)
			}
		}
	}
	if !race {
		if _, old := concSeen.LoadOrStore(sig.String(), true); !old {
			c.Hit("distinct-completion-orders")
		}
		if f, ok := bridge[func() int64]("yield.taken"); ok {
			c.HitN("yields-inside-library", int(f()))
		}
	}
}

func trunc(b []byte) []byte {
	if len(b) > 120 {
		return b[:120]
	}
	return b
}

type concStep struct {
	op *cop
	i  int
}

const concG = 8

func usable(o *cop) bool { return len(missingBridges(o.needs)) == 0 }

// rounds builds a world twice from the same generator state.
func (c *C) twoWorlds(literal, tables bool) (*world, func() *world) {
	st := *c.R
	w := newWorld(c, literal, tables, nil)
	return w, func() *world {
		keep := *c.R
		*c.R = st
		v := newWorld(c, literal, tables, nil)
		*c.R = keep
		return v
	}
}

func c20same(c *C) {
	o := &concOps[c.Idx%len(concOps)]
	if !usable(o) {
		return
	}
	w, clone := c.twoWorlds(c.R.Bool(), o.tables)
	plan := make([][]concStep, concG)
	sameArg := c.R.Bool()
	for g := range plan {
		for k := 0; k < 2; k++ {
			i := c.R.Intn(4)
			if sameArg {
				i = k
			}
			plan[g] = append(plan[g], concStep{o, i})
		}
	}
	concRound(c, w, clone, plan)
	c.Sample("8 goroutines: %s", o.name)
}

// yielding makes library code hold up the goroutines at sites that f executes,
// on p processors. It returns how many goroutines to start, fewer when f is
// long, and what sets it back.
func yielding(f func(), p, n int) (int, func()) {
	if total := must[func(func()) int64]("yield.crowd")(f); total > 2000000 {
		n = n / 3
	}
	old := runtime.GOMAXPROCS(p)
	return n, func() {
		runtime.GOMAXPROCS(old)
		must[func()]("yield.normal")()
	}
}

// c20calibrate lets the yield build see how often its sites are executed, so
// that the goroutines are held up about as often however the code is written.
func c20calibrate() {
	f, ok := bridge[func([]func())]("yield.calibrate")
	if !ok {
		return
	}
	c := &C{R: newRng("calibrate"), T: &Tier{}, Fam: "calibrate", w: &worker{classes: map[string]int64{}, distinct: map[uint64]struct{}{}}}
	var fs []func()
	for k := range concOps {
		o := &concOps[k]
		if !usable(o) {
			continue
		}
		var w *world
		func() {
			defer func() { recover() }() // the families say what is wrong
			w = newWorld(c, true, o.tables, nil)
		}()
		fs = append(fs, func() {
			defer func() { recover() }()
			o.run(w, 0)
		})
	}
	f(fs)
}

const crowd = 120

// c20crowd: very many goroutines on few processors, each of which is held up
// again and again within the operation, so that all of them are in it at once.
func c20crowd(c *C) {
	o := &concOps[c.Idx%len(concOps)]
	if !usable(o) || o.name == "math-random" || o.name == "first-use" {
		return
	}
	w, clone := c.twoWorlds(c.R.Bool(), o.tables)
	probe := clone()
	n, back := yielding(func() { o.run(probe, 0) }, 1+c.R.Intn(3), crowd)
	defer back()
	plan := make([][]concStep, n)
	for g := range plan {
		plan[g] = []concStep{{o, c.R.Intn(4)}}
	}
	concRound(c, w, clone, plan)
	c.Hit("crowd")
	c.Sample("%d goroutines: %s", n, o.name)
}

func c20crowdLife(c *C) {
	kp := newPair(c, c.R.Bytes(32))
	n, back := yielding(func() { crypto.NewSignerFromKeyPair(kp, nil).Sign(nil) }, 1+c.R.Intn(3), 48)
	defer back()
	life(c, n)
}

func c20mixed(c *C) {
	w, clone := c.twoWorlds(c.R.Bool(), c.R.Intn(4) == 0)
	var ops []*cop
	for len(ops) < 4 {
		o := &concOps[c.R.Intn(len(concOps))]
		if usable(o) && (!o.tables || w.single != nil) {
			ops = append(ops, o)
		}
	}
	plan := make([][]concStep, concG)
	for g := range plan {
		for k := 0; k < 4; k++ {
			plan[g] = append(plan[g], concStep{ops[c.R.Intn(len(ops))], c.R.Intn(4)})
		}
	}
	concRound(c, w, clone, plan)
	c.Sample("8 goroutines: mixture of %s, %s, %s, %s", ops[0].name, ops[1].name, ops[2].name, ops[3].name)
}

// c20lifecycle: goroutines that each build, use and drop their own objects
// over shared keys, with their own secrets: nothing may leak between them.
func c20lifecycle(c *C) { life(c, concG) }

func life(c *C, n int) {
	type job struct {
		priv, m, salt, iv []byte
		out               [][]byte
		err               interface{}
	}
	peer := c.R.Bytes(32)
	peerKP := &crypto.KeyPair{PrivateKey: crypto.NewPrivateKey(append([]byte(nil), peer...)), PublicKey: crypto.NewPublicKey(ref.Public(peer))}
	jobs := make([]*job, n)
	for i := range jobs {
		jobs[i] = &job{priv: c.R.Bytes(32), m: c.R.Bytes(64), salt: c.R.Bytes(32), iv: c.R.Bytes(16)}
		if i > 0 && c.R.Intn(3) == 0 {
			jobs[i].m = jobs[0].m
		}
	}
	var wg sync.WaitGroup
	for _, j := range jobs {
		wg.Add(1)
		go func(j *job) {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					j.err = e
				}
			}()
			for k := 0; k < 3; k++ {
				kp, err := crypto.NewKeyPair(crypto.NewPrivateKey(append([]byte(nil), j.priv...)), nil, nil)
				if err != nil {
					panic(err)
				}
				s := crypto.NewSignerFromKeyPair(kp, nil)
				sig, err := s.Sign(j.m)
				if err != nil {
					panic(err)
				}
				if !s.Verify(j.m, sig) {
					panic("own signature refused")
				}
				bc := crypto.NewEd25519BlockCipher(kp, peerKP, io.MultiReader(bytes.NewReader(j.salt), bytes.NewReader(j.iv)))
				ct, err := bc.Encrypt(j.m)
				if err != nil {
					panic(err)
				}
				j.out = append(j.out, append([]byte(nil), kp.PublicKey.Raw...), sigBytes(sig), append([]byte(nil), ct...))
				runtime.Gosched()
			}
		}(j)
	}
	wg.Wait()
	for i, j := range jobs {
		c.Eval(j.priv, j.m)
		if j.err != nil {
			c.Fail("panic under concurrency", "goroutine %d: %v", i, j.err)
		}
		pub := ref.Public(j.priv)
		ct, err := ref.Encrypt(j.priv, ref.Public(peer), j.salt, j.iv, j.m)
		if err != nil {
			panic(err)
		}
		for k, want := range [][]byte{pub, ref.Sign(j.priv, pub, j.m), ct} {
			for r := 0; r < 3; r++ {
				if got := j.out[3*r+k]; !bytes.Equal(got, want) {
					c.Fail("result under concurrency", "goroutine %d round %d: %s is %x, alone it is %x (private key %x)", i, r, []string{"public key", "signature", "ciphertext"}[k], got, want, j.priv)
				}
			}
		}
	}
	c.Hit("lifecycle")
}

// c20first starts a process in which the first use of the library is concurrent.
func c20first(c *C) {
	k := c.Idx % len(concOps)
	o := &concOps[k]
	if !usable(o) || o.tables {
		return
	}
	seed := fmt.Sprint(c.R.U64())
	lines := helper(c, fmt.Sprintf("first:%d:%s", k, seed))
	c.Eval([]byte(o.name), []byte(seed))
	if len(lines) == 0 || lines[0] != "ok" {
		c.Fail("result under concurrency", "first use in a process, concurrent %s: %s", o.name, strings.Join(lines, " "))
	}
	c.Hit("first-use")
}

func firstHelper(arg string, out io.Writer) {
	p := strings.Split(arg, ":")
	var k int
	fmt.Sscan(p[1], &k)
	w := &worker{classes: map[string]int64{}, distinct: map[uint64]struct{}{}}
	c := &C{R: newRng("first", p[2]), T: &Tier{}, w: w, Fam: "first-use"}
	w.guard(c, func(c *C) {
		wd, clone := c.twoWorlds(true, false)
		plan := make([][]concStep, concG)
		for g := range plan {
			plan[g] = []concStep{{&concOps[k], g % 4}}
		}
		concRound(c, wd, clone, plan)
	})
	if len(w.viol) > 0 {
		fmt.Fprintln(out, "FAIL", w.viol[0].Key, w.viol[0].Msg)
		return
	}
	fmt.Fprintln(out, "ok")
}
