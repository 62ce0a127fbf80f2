package main

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"math/big"
	"os"
	"regexp"
	"strconv"
	"strings"
	"syscall"

	crypto "github.com/proximax-storage/go-xpx-crypto"

	"verifmon/ref"
)

func init() {
	register(&Prop{
		ID:   "C28",
		Rule: "a case runs one operation with fresh random secrets while the standard streams are captured, and looks for the secrets in errors, panics, output and results in every notation; non-trivial when the secrets are new",
		Before: func() {
			if err := vaultSelfTest(); err != nil {
				panic(err)
			}
		},
		Fams: func(t *Tier) []Fam {
			return []Fam{
				{Name: "reports", Serial: true, N: t.N(6000, 150000), Fn: c28, Floor: c28floor},
			}
		},
	})
}

var c28floor = map[string]int64{
	"error:hex": 100, "error:pair": 100, "error:generate": 100, "error:sign": 100, "error:encrypt": 300, "error:decrypt": 300, "error:shared": 100,
	"result:sign": 200, "result:encrypt": 200, "result:decrypt": 200, "result:derive": 200, "result:shared": 100, "result:refused": 200, "result:accepted": 50,
	"output captured": 6000,
}

// vault knows the secrets of one operation by their windows of six bytes.
type vault map[[6]byte]string

// add enters a secret, in both byte orders.
func (v vault) add(name string, b []byte) {
	r := append([]byte(nil), b...)
	ref.Reverse(r)
	for _, x := range [][]byte{b, r} {
		for i := 0; i+6 <= len(x); i++ {
			w := [6]byte(x[i : i+6])
			seen := map[byte]bool{}
			for _, y := range w {
				seen[y] = true
			}
			if len(seen) >= 4 { // zeros and the like say nothing
				v[w] = name
			}
		}
	}
}

// in tells which secret the bytes contain.
func (v vault) in(b []byte) string {
	for i := 0; i+6 <= len(b); i++ {
		if n, ok := v[[6]byte(b[i:i+6])]; ok {
			return n
		}
	}
	return ""
}

var (
	hexRun    = regexp.MustCompile(`[0-9a-fA-F]{11,}`)
	byteList  = regexp.MustCompile(`-?\d{1,3}(?:[\s,;:]+-?\d{1,3}){5,}`)
	byteInt   = regexp.MustCompile(`-?\d{1,3}`)
	decimal   = regexp.MustCompile(`\d{13,}`)
	base64Run = regexp.MustCompile(`[0-9A-Za-z+/_-]{8,}`)
	quoted    = regexp.MustCompile(`"(?:[^"\\]|\\.)*"`)
	between   = strings.NewReplacer("0x", "", "0X", "", `\x`, "", " ", "", ",", "", ":", "", "-", "", "_", "", ";", "", "\n", "", "\t", "")
)

// inText tells which secret a text contains, in which notation.
func (v vault) inText(s string) string {
	try := func(b []byte, how string) string {
		if n := v.in(b); n != "" {
			return n + " " + how
		}
		return ""
	}
	if n := try([]byte(s), "as it is"); n != "" {
		return n
	}
	for _, t := range []string{s, between.Replace(s)} {
		for _, h := range hexRun.FindAllString(t, -1) {
			for k := 0; k < 2; k++ {
				x := h[k:]
				b, _ := hex.DecodeString(x[:len(x)&^1])
				if n := try(b, "in hexadecimal"); n != "" {
					return n
				}
			}
		}
	}
	for _, l := range byteList.FindAllString(s, -1) {
		var b []byte
		for _, d := range byteInt.FindAllString(l, -1) {
			k, _ := strconv.Atoi(d)
			b = append(b, byte(k))
		}
		if n := try(b, "as a list of bytes"); n != "" {
			return n
		}
	}
	for _, d := range decimal.FindAllString(s, -1) {
		if x, ok := new(big.Int).SetString(d, 10); ok {
			if n := try(x.Bytes(), "in decimal"); n != "" {
				return n
			}
		}
	}
	for _, e := range base64Run.FindAllString(s, -1) {
		for k := 0; k < 4 && k < len(e); k++ {
			x := e[k:]
			x = x[:len(x)&^3]
			x = strings.NewReplacer("-", "+", "_", "/").Replace(x)
			b, _ := base64.StdEncoding.DecodeString(x)
			if n := try(b, "in base64"); n != "" {
				return n
			}
		}
	}
	for _, q := range quoted.FindAllString(s, -1) {
		if u, err := strconv.Unquote(q); err == nil && u != q[1:len(q)-1] {
			if n := try([]byte(u), "quoted"); n != "" {
				return n
			}
		}
	}
	return ""
}

// vaultSelfTest shows that the search finds what it is for, and nothing else.
func vaultSelfTest() error {
	r := newRng("vault")
	sec := r.Bytes(32)
	v := vault{}
	v.add("secret", sec)
	le := append([]byte(nil), sec...)
	ref.Reverse(le)
	part := sec[9:19]
	for _, s := range []string{
		string(sec), fmt.Sprintf("%x", sec), fmt.Sprintf("%X", part), fmt.Sprintf("% x", sec), fmt.Sprintf("%#x", sec), fmt.Sprintf("key %v!", sec),
		fmt.Sprintf("%#v", part), fmt.Sprintf("%q", sec), fmt.Sprint(new(big.Int).SetBytes(sec)), fmt.Sprint(new(big.Int).SetBytes(le)),
		base64.StdEncoding.EncodeToString(sec), base64.RawURLEncoding.EncodeToString(part), fmt.Sprintf("%x", le), "a" + hex.EncodeToString(part) + "b",
		fmt.Sprint(ref.Big(part)), fmt.Sprintf("%#x", ref.Big(part)), strings.Join(strings.Split(fmt.Sprintf("% x", part), " "), ":"),
	} {
		if v.inText(s) == "" {
			return fmt.Errorf("the search for secrets does not find one in %q", s)
		}
	}
	for i := 0; i < 200; i++ {
		o := r.Bytes(64)
		for _, s := range []string{string(o), fmt.Sprintf("%x", o), fmt.Sprint(o), fmt.Sprintf("%q", o), base64.StdEncoding.EncodeToString(o)} {
			if v.inText(s) != "" {
				return errors.New("the search for secrets finds one where there is none")
			}
		}
	}
	out, err := captured(func() {
		fmt.Println("one")
		fmt.Fprintln(os.Stderr, "two")
		println("three")
		panic("four")
	})
	if err != nil {
		return err
	}
	for _, w := range []string{"one", "two", "three", "four"} {
		if !strings.Contains(out, w) {
			return fmt.Errorf("output is not captured: %q", out)
		}
	}
	return nil
}

var captureFile *os.File

// captured runs f with the standard streams in a file and returns what was
// written, with the text of a panic behind it.
func captured(f func()) (string, error) {
	if captureFile == nil {
		t, err := os.CreateTemp("", "verifmon-out")
		if err != nil {
			return "", err
		}
		os.Remove(t.Name())
		captureFile = t
	}
	t := captureFile
	if err := t.Truncate(0); err != nil {
		return "", err
	}
	if _, err := t.Seek(0, io.SeekStart); err != nil {
		return "", err
	}
	var old [3]int
	stdout := os.Stdout // or the null device
	text := ""
	for fd := 1; fd <= 2; fd++ {
		var err error
		if old[fd], err = syscall.Dup(fd); err != nil {
			return "", err
		}
		syscall.CloseOnExec(old[fd])
		if err = syscall.Dup3(int(t.Fd()), fd, 0); err != nil {
			return "", err
		}
	}
	os.Stdout = os.Stderr // both go to the file
	func() {
		defer func() {
			os.Stdout = stdout
			for fd := 1; fd <= 2; fd++ {
				syscall.Dup3(old[fd], fd, 0)
				syscall.Close(old[fd])
			}
			if e := recover(); e != nil {
				text = fmt.Sprintf("\npanic: %v %+v", e, e)
			}
		}()
		f()
	}()
	if _, err := t.Seek(0, io.SeekStart); err != nil {
		return "", err
	}
	b, err := io.ReadAll(t)
	return string(b) + text, err
}

// safe is what one operation shows to the outside.
type safe struct {
	c   *C
	v   vault
	err []error
	pub map[string][]byte
}

// secrets that come with a private key
func (s *safe) key(priv []byte) {
	s.v.add("the private key", priv)
	h := ref.SHA3_512(priv)
	s.v.add("the hash of the private key", h)
	a, _ := ref.Clamp(priv)
	s.v.add("the secret scalar", a)
	s.v.add("the secret scalar mod L", ref.Reduce(append(append([]byte{}, a...), make([]byte, 32)...)))
}

func (s *safe) nonce(priv, m []byte) {
	h := ref.SHA3_512(ref.SHA3_512(priv)[32:], m)
	s.v.add("the nonce", h)
	s.v.add("the nonce mod L", ref.Reduce(h))
}

func (s *safe) shared(priv, pub, salt []byte) {
	p := ref.Decode(pub)
	if p == nil {
		return
	}
	a, _ := ref.Clamp(priv)
	e := ref.Mul(a, p).Bytes()
	s.v.add("the shared point", e)
	if x, _, ok := ref.DecodeBig(e); ok {
		s.v.add("the shared point", x.Bytes())
	}
	if len(salt) == 32 {
		x := append([]byte(nil), e...)
		for i := range x {
			x[i] ^= salt[i]
		}
		s.v.add("the salted point", x)
		s.v.add("the shared key", ref.SHA3_256(x))
	}
}

func (s *safe) saw(err error) { s.err = append(s.err, err) }

// result takes note of public bytes, with what lies behind them.
func (s *safe) result(name string, b []byte) {
	if b != nil {
		s.pub[name] = b[:cap(b)]
	}
}

func (s *safe) spare(name string, b []byte) {
	if b != nil {
		s.pub["the memory behind "+name] = b[len(b):cap(b)]
	}
}

// showErr prints an error in every way and all errors within.
func showErr(err error) string {
	t := ""
	for i := 0; err != nil && i < 20; i++ {
		t += fmt.Sprintf("%v\n%+v\n%#v\n", err, err, err)
		type causer interface{ Cause() error }
		if u := errors.Unwrap(err); u != nil {
			err = u
		} else if k, ok := err.(causer); ok && k.Cause() != err {
			err = k.Cause()
		} else {
			err = nil
		}
	}
	return t
}

// cutReader gives n bytes and fails.
type cutReader struct {
	b    []byte
	err  error
	with bool // the error comes with the last bytes
}

func (r *cutReader) Read(p []byte) (int, error) {
	n := copy(p, r.b)
	r.b = r.b[n:]
	if len(r.b) == 0 && (n == 0 || r.with) {
		return n, r.err
	}
	return n, nil
}

func c28(c *C) {
	s := &safe{c: c, v: vault{}, pub: map[string][]byte{}}
	ops := c28ops
	op := &ops[c.Idx%len(ops)]
	var run func()
	func() {
		defer func() {
			// a panic while preparing is for other properties
			if e := recover(); e != nil {
				run = func() { panic(e) }
			}
		}()
		run = op.f(s)
	}()
	out, err := captured(run)
	if err != nil {
		panic(err)
	}
	c.Hit("output captured")
	if out != "" {
		c.Hit("output not empty")
	}
	if n := s.v.inText(out); n != "" {
		c.Fail("output", "%s: the output contains %s:\n%q", op.name, n, out)
	}
	for _, e := range s.err {
		if e != nil {
			c.Hit("error:" + op.class)
			if t := showErr(e); s.v.inText(t) != "" {
				c.Fail("error", "%s: the error contains %s:\n%q", op.name, s.v.inText(t), t)
			}
		}
	}
	for name, b := range s.pub {
		c.Hit("result:" + op.class)
		if n := s.v.in(b); n != "" {
			c.Fail("result", "%s: %s contains %s: %x", op.name, name, n, b)
		}
	}
	c.Eval([]byte(op.name), []byte(fmt.Sprint(c.Idx)))
	c.Sample("%s: %d windows of secrets, %d bytes of output, errors %v, %d results", op.name, len(s.v), len(out), s.err, len(s.pub))
}

type c28op struct {
	name, class string
	f           func(s *safe) func()
}

// spoil makes something that is no hex key of a hex key.
func (c *C) spoil(h string) string {
	i := c.R.Intn(len(h))
	switch c.R.Intn(8) {
	case 0:
		return h[:i] + "g" + h[i+1:]
	case 1:
		return h[:i] + "é" + h[i+1:]
	case 2:
		return h + "00"
	case 3:
		return h[:len(h)-2-2*c.R.Intn(20)]
	case 4:
		return "0x" + h
	case 5:
		return h + "\n"
	case 6:
		return " " + h
	}
	return h[:i] + "\x00" + h[i:]
}

var c28ops = []c28op{
	{"a malformed hexadecimal private key", "hex", func(s *safe) func() {
		p := s.c.R.Bytes(32)
		s.key(p)
		h := hex.EncodeToString(p)
		if s.c.R.Bool() {
			h = strings.ToUpper(h)
		}
		h = s.c.spoil(h)
		return func() { _, err := crypto.NewPrivateKeyfromHexString(h); s.saw(err) }
	}},
	{"a private key of a wide or negative integer", "integer", func(s *safe) func() {
		p := s.c.R.Bytes(20 + s.c.R.Intn(40))
		s.v.add("the integer", p)
		x := new(big.Int).SetBytes(p)
		if s.c.R.Bool() {
			x.Neg(x)
		}
		return func() { crypto.NewPrivateKeyFromBigInt(x) }
	}},
	{"a key pair with a malformed public key", "pair", func(s *safe) func() {
		p := s.c.R.Bytes(32)
		s.key(p)
		n := s.c.R.Intn(80)
		if n == 32 {
			n = 0
		}
		pub := s.c.R.Bytes(n)
		return func() {
			_, err := crypto.NewKeyPair(crypto.NewPrivateKey(p), crypto.NewPublicKey(pub), nil)
			s.saw(err)
		}
	}},
	{"deriving", "derive", func(s *safe) func() {
		n := 32
		if s.c.R.Intn(3) == 0 {
			n = 1 + s.c.R.Intn(100)
		}
		p := s.c.R.Bytes(n)
		s.key(p)
		return func() {
			kp, err := crypto.NewKeyPair(crypto.NewPrivateKey(p), nil, nil)
			s.saw(err)
			if err == nil {
				s.result("the public key", kp.PublicKey.Raw)
			}
		}
	}},
	{"generating with a failing source", "generate", func(s *safe) func() {
		p := s.c.R.Bytes(s.c.R.Intn(32))
		s.v.add("what the source gave", p)
		r := &cutReader{p, []error{io.EOF, io.ErrUnexpectedEOF, errors.New("no more")}[s.c.R.Intn(3)], s.c.R.Bool()}
		return func() { _, err := crypto.NewEd25519KeyGenerator(r).GenerateKeyPair(); s.saw(err) }
	}},
	{"generating", "derive", func(s *safe) func() {
		p := s.c.R.Bytes(32)
		s.key(p)
		return func() {
			kp, err := crypto.NewEd25519KeyGenerator(bytes.NewReader(p)).GenerateKeyPair()
			s.saw(err)
			if err == nil {
				s.result("the public key", kp.PublicKey.Raw)
			}
		}
	}},
	{"signing", "sign", func(s *safe) func() {
		p := s.c.R.Bytes(32)
		if s.c.R.Intn(4) == 0 {
			p = s.c.R.Bytes(1 + s.c.R.Intn(100))
		}
		m := s.c.R.Bytes(s.c.R.Intn(200))
		s.key(p)
		s.nonce(p, m)
		g := s.c.signer(newPair(s.c, p))
		return func() {
			x, err := g.Sign(m)
			s.saw(err)
			if err == nil {
				s.result("R", x.R)
				s.result("S", x.S)
				s.result("the bytes of the signature", x.Bytes())
				_ = x.String()
				y, err := g.MakeSignatureCanonical(x)
				s.saw(err)
				if err == nil {
					s.result("R", y.R)
					s.result("S", y.S)
				}
			}
		}
	}},
	{"signing where the public key is another's or malformed", "sign", func(s *safe) func() {
		p := s.c.R.Bytes(32)
		m := s.c.R.Bytes(s.c.R.Intn(200))
		s.key(p)
		s.nonce(p, m)
		n := 32
		if s.c.R.Bool() {
			n = s.c.R.Intn(70)
		}
		g := s.c.signer(&crypto.KeyPair{PrivateKey: crypto.NewPrivateKey(p), PublicKey: crypto.NewPublicKey(s.c.R.Bytes(n))})
		return func() {
			x, err := g.Sign(m)
			s.saw(err)
			if err == nil {
				s.result("R", x.R)
				s.result("S", x.S)
				g.Verify(m, x)
			}
		}
	}},
	{"signing without a private key", "sign", func(s *safe) func() {
		p := s.c.R.Bytes(32)
		s.key(p)
		g := s.c.signer(s.c.pubPair(ref.Public(p)))
		m := s.c.R.Bytes(20)
		return func() { _, err := g.Sign(m); s.saw(err) }
	}},
	{"refusing signatures", "refused", func(s *safe) func() {
		p := s.c.R.Bytes(32)
		m := s.c.R.Bytes(s.c.R.Intn(100))
		s.key(p)
		s.nonce(p, m)
		kp := newPair(s.c, p)
		sig := ref.Sign(p, kp.PublicKey.Raw, m)
		x := mkSig(sig)
		var bad *crypto.Signature
		switch s.c.R.Intn(6) {
		case 0:
			x.R[s.c.R.Intn(32)] ^= 1
		case 1:
			x.S[s.c.R.Intn(31)] ^= 2
		case 2:
			kp = &crypto.KeyPair{PrivateKey: crypto.NewPrivateKey(p), PublicKey: crypto.NewPublicKey(s.c.offCurve())}
		case 3:
			x.R = x.R[:s.c.R.Intn(32)]
		case 4:
			x.S = append(x.S, 1)
		case 5:
			x = bad
		}
		g := s.c.signer(kp)
		return func() {
			if !g.Verify(m, x) {
				s.c.Hit("result:refused")
			}
			_, err := g.MakeSignatureCanonical(x)
			s.saw(err)
		}
	}},
	{"accepting signatures", "accepted", func(s *safe) func() {
		p := s.c.R.Bytes(32)
		m := s.c.R.Bytes(s.c.R.Intn(100))
		s.key(p)
		s.nonce(p, m)
		kp := newPair(s.c, p)
		x := mkSig(ref.Sign(p, kp.PublicKey.Raw, m))
		g := s.c.signer(kp)
		return func() {
			if g.Verify(m, x) {
				s.c.Hit("result:accepted")
			}
		}
	}},
	{"encrypting", "encrypt", func(s *safe) func() {
		a, b := s.c.R.Bytes(32), s.c.R.Bytes(32)
		m := s.c.R.Bytes(s.c.R.Intn(200))
		if s.c.R.Intn(10) == 0 {
			m = s.c.R.Bytes(s.c.R.Intn(5000))
		}
		rnd := s.c.R.Bytes(48)
		s.key(a)
		s.key(b)
		s.shared(a, ref.Public(b), rnd[:32])
		s.v.add("the message", m)
		bc := crypto.NewEd25519BlockCipher(newPair(s.c, a), s.c.pubPair(ref.Public(b)), bytes.NewReader(rnd))
		return func() {
			ct, err := bc.Encrypt(m)
			s.saw(err)
			if err == nil {
				s.result("the ciphertext", ct)
			}
		}
	}},
	{"encrypting with a failing source, for a bad key, or without a key", "encrypt", func(s *safe) func() {
		a, b := s.c.R.Bytes(32), s.c.R.Bytes(32)
		m := s.c.R.Bytes(s.c.R.Intn(200))
		rnd := s.c.R.Bytes(48)
		s.key(a)
		s.key(b)
		s.shared(a, ref.Public(b), rnd[:32])
		s.v.add("the message", m)
		from, to := newPair(s.c, a), newPair(s.c, b)
		var src io.Reader = bytes.NewReader(rnd)
		switch s.c.R.Intn(4) {
		case 0, 1:
			src = &cutReader{rnd[:s.c.R.Intn(48)], errors.New("no more"), s.c.R.Bool()}
		case 2:
			n := 32
			if s.c.R.Bool() {
				n = s.c.R.Intn(70)
			}
			pub := s.c.R.Bytes(n)
			if n == 32 {
				pub = s.c.offCurve()
			}
			to = &crypto.KeyPair{PublicKey: crypto.NewPublicKey(pub)}
		case 3:
			from = s.c.pubPair(ref.Public(a))
		}
		return func() { _, err := crypto.NewEd25519BlockCipher(from, to, src).Encrypt(m); s.saw(err) }
	}},
	{"decrypting", "decrypt", func(s *safe) func() {
		r := s.c.receiver()
		m := s.c.R.Bytes(s.c.R.Intn(200))
		ct := r.seal(s.c, ref.Pad(m))
		s.key(r.b)
		s.shared(r.b, r.peer, ct[:32])
		return func() {
			x, err := r.bc.Decrypt(ct)
			s.saw(err)
			if err == nil {
				s.spare("the message", x)
			}
		}
	}},
	{"decrypting what is refused", "decrypt", func(s *safe) func() {
		r := s.c.receiver()
		m := s.c.R.Bytes(s.c.R.Intn(200))
		buf := ref.Pad(m)
		switch s.c.R.Intn(4) {
		case 0:
			buf[len(buf)-1] = byte(17 + s.c.R.Intn(200))
		case 1:
			buf[len(buf)-1] = 0
		case 2:
			buf = append(s.c.R.Bytes(16*s.c.R.Intn(4)+15), byte(3+s.c.R.Intn(14)))
		case 3:
			if k := int(buf[len(buf)-1]); k > 1 {
				buf[len(buf)-k] ^= 0x55
			} else {
				buf[len(buf)-1] = 0xff
			}
		}
		ct := r.seal(s.c, buf)
		s.key(r.b)
		s.shared(r.b, r.peer, ct[:32])
		s.v.add("the decrypted bytes", buf)
		if s.c.R.Intn(4) == 0 {
			ct = ct[:s.c.R.Intn(len(ct))]
		}
		return func() { _, err := r.bc.Decrypt(ct); s.saw(err) }
	}},
	{"decrypting without a key or from a bad key", "decrypt", func(s *safe) func() {
		r := s.c.receiver()
		ct := r.seal(s.c, ref.Pad(s.c.R.Bytes(40)))
		s.key(r.b)
		s.shared(r.b, r.peer, ct[:32])
		from, to := s.c.pubPair(r.peer), newPair(s.c, r.b)
		if s.c.R.Bool() {
			from = &crypto.KeyPair{PublicKey: crypto.NewPublicKey(s.c.offCurve())}
		} else {
			to = s.c.pubPair(ref.Public(r.b))
		}
		bc := s.c.newCipher(from, to)
		return func() { _, err := bc.Decrypt(ct); s.saw(err) }
	}},
	{"a shared key", "shared", func(s *safe) func() {
		a, b := s.c.R.Bytes(32), s.c.R.Bytes(32)
		salt := s.c.R.Bytes(32)
		s.key(a)
		s.shared(a, ref.Public(b), nil) // the point; the key is the result
		bc := crypto.NewEd25519BlockCipher(newPair(s.c, a), newPair(s.c, b), nil)
		k, pub := crypto.NewPrivateKey(a), crypto.NewPublicKey(ref.Public(b))
		return func() {
			x, err := bc.GetSharedKey(k, pub, salt)
			s.saw(err)
			if err == nil {
				s.result("the shared key", x)
			}
		}
	}},
	{"a shared key that is refused", "shared", func(s *safe) func() {
		a, b := s.c.R.Bytes(32), s.c.R.Bytes(32)
		salt := s.c.R.Bytes(32)
		s.key(a)
		s.shared(a, ref.Public(b), salt)
		bc := crypto.NewEd25519BlockCipher(newPair(s.c, a), newPair(s.c, b), nil)
		k, pub := crypto.NewPrivateKey(a), crypto.NewPublicKey(ref.Public(b))
		switch s.c.R.Intn(3) {
		case 0:
			salt = salt[:s.c.R.Intn(32)]
		case 1:
			pub = crypto.NewPublicKey(s.c.offCurve())
		case 2:
			pub = crypto.NewPublicKey(s.c.R.Bytes(s.c.R.Intn(32)))
		}
		return func() { _, err := bc.GetSharedKey(k, pub, salt); s.saw(err) }
	}},
}
