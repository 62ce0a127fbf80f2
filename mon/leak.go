package main

import (
	"bytes"
	"fmt"
	"io"
	"math/big"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	crypto "github.com/proximax-storage/go-xpx-crypto"

	"verifmon/ref"
)

func init() {
	register(&Prop{
		ID:   "C27",
		Rule: "a case carries one kind of operation out thousands of times with fresh keys, messages and objects and reads heap and goroutines after collections, or once per size of a ladder of inputs and reads allocation and processor time; non-trivial when the inputs of the operation are new",
		Before: func() {
			stuckAfter = 400 * time.Second // cases of this property are whole workloads
		},
		Fams: func(t *Tier) []Fam {
			return []Fam{
				{Name: "retained", Serial: true, N: len(leakOps), Fn: c27retained, Floor: map[string]int64{"retained:measured": int64(len(leakOps))}},
				{Name: "linear", Serial: true, N: len(sizeOps), Fn: c27linear, Floor: map[string]int64{"linear:sizes": int64(len(sizeOps) * 4)}},
			}
		},
	})
}

// leakOp is an operation of which nothing may stay behind. It gets random
// bytes of its own for each call and is called by many goroutines.
type leakOp struct {
	name string
	n    int // calls per stage in the quick tier
	f    func(r *Rng)
}

type leakShared struct {
	signer signerOf
	pubkey []byte
	ciph   crypto.BlockCipher
	ct     []byte
	sig    *crypto.Signature
}

var leakEnv = sync.OnceValue(func() *leakShared {
	p := bytes.Repeat([]byte{7}, 32)
	kp, err := crypto.NewKeyPair(crypto.NewPrivateKey(p), nil, nil)
	if err != nil {
		panic(err)
	}
	e := &leakShared{signer: crypto.NewSignerFromKeyPair(kp, nil), pubkey: kp.PublicKey.Raw, ciph: crypto.NewBlockCipher(kp, kp, nil)}
	if e.ct, err = e.ciph.Encrypt([]byte("message")); err != nil {
		panic(err)
	}
	if e.sig, err = e.signer.Sign([]byte("message")); err != nil {
		panic(err)
	}
	return e
})

func leakPair(priv []byte) *crypto.KeyPair {
	kp, err := crypto.NewKeyPair(crypto.NewPrivateKey(priv), nil, nil)
	if err != nil {
		panic(err)
	}
	return kp
}

var leakOps = []leakOp{
	{"derive", 4000, func(r *Rng) { leakPair(r.Bytes(32)) }},
	{"generate", 3000, func(r *Rng) {
		crypto.NewRandomKeyPair()
		crypto.NewEd25519KeyGenerator(bytes.NewReader(r.Bytes(32))).GenerateKeyPair()
		crypto.NewEd25519KeyGenerator(bytes.NewReader(r.Bytes(31))).GenerateKeyPair()
	}},
	{"sign, one signer", 4000, func(r *Rng) { leakEnv().signer.Sign(r.Bytes(40)) }},
	{"sign, new signers", 2500, func(r *Rng) {
		crypto.NewSignerFromKeyPair(leakPair(r.Bytes(32)), nil).Sign(r.Bytes(40))
	}},
	{"sign without a key", 8000, func(r *Rng) {
		kp, _ := crypto.NewKeyPair(nil, crypto.NewPublicKey(r.Bytes(32)), nil)
		crypto.NewSignerFromKeyPair(kp, nil).Sign(r.Bytes(40))
	}},
	{"verify what is refused, one signer", 2500, func(r *Rng) {
		s := append([]byte{}, leakEnv().sig.S...)
		leakEnv().signer.Verify(r.Bytes(20), &crypto.Signature{R: r.Bytes(32), S: s})
	}},
	{"verify what is accepted, one signer", 1500, func(r *Rng) {
		m := r.Bytes(20)
		s, err := leakEnv().signer.Sign(m)
		if err == nil {
			leakEnv().signer.Verify(m, s)
		}
	}},
	{"verify, new signers", 1500, func(r *Rng) {
		p := r.Bytes(32)
		m := r.Bytes(20)
		kp := leakPair(p)
		s, err := crypto.NewSignerFromKeyPair(kp, nil).Sign(m)
		if err != nil {
			return
		}
		v, err := crypto.NewKeyPair(nil, crypto.NewPublicKey(append([]byte{}, kp.PublicKey.Raw...)), nil)
		if err == nil {
			crypto.NewSignerFromKeyPair(v, nil).Verify(m, s)
		}
	}},
	{"verify under hostile keys", 4000, func(r *Rng) {
		kp := &crypto.KeyPair{PublicKey: crypto.NewPublicKey(r.Bytes(32))}
		s := append([]byte{}, leakEnv().sig.S...)
		crypto.NewSignerFromKeyPair(kp, nil).Verify(r.Bytes(20), &crypto.Signature{R: r.Bytes(32), S: s})
	}},
	{"canonical", 20000, func(r *Rng) {
		g := &crypto.Signature{R: r.Bytes(32), S: r.Bytes(32)}
		leakEnv().signer.IsCanonicalSignature(g)
		leakEnv().signer.MakeSignatureCanonical(g)
	}},
	{"encrypt and decrypt, one cipher", 700, func(r *Rng) {
		if ct, err := leakEnv().ciph.Encrypt(r.Bytes(40)); err == nil {
			leakEnv().ciph.Decrypt(ct)
		}
	}},
	{"encrypt and decrypt, new ciphers", 600, func(r *Rng) {
		a, b := leakPair(r.Bytes(32)), leakPair(r.Bytes(32))
		if ct, err := crypto.NewBlockCipher(a, b, nil).Encrypt(r.Bytes(40)); err == nil {
			crypto.NewBlockCipher(a, b, nil).Decrypt(ct)
		}
	}},
	{"decrypt what is refused", 900, func(r *Rng) {
		leakEnv().ciph.Decrypt(append(r.Bytes(48), r.Bytes(16)...))
		leakEnv().ciph.Decrypt(r.Bytes(r.Intn(64)))
	}},
	{"ciphers for hostile keys", 3000, func(r *Rng) {
		kp := &crypto.KeyPair{PublicKey: crypto.NewPublicKey(offCurve(r))}
		crypto.NewBlockCipher(leakPair(r.Bytes(32)), kp, nil).Encrypt(r.Bytes(20))
	}},
	{"encrypt with a failing source", 2000, func(r *Rng) {
		a := leakPair(r.Bytes(32))
		crypto.NewEd25519BlockCipher(a, a, bytes.NewReader(r.Bytes(r.Intn(32)))).Encrypt(r.Bytes(20))
	}},
	{"hashes", 20000, func(r *Rng) {
		b := r.Bytes(50)
		crypto.HashesSha_256(b)
		crypto.HashesSha3_256(b)
		crypto.HashesSha3_512(b, b[:9])
		crypto.HashesKeccak_256(b)
		crypto.HashesRipemd160(b)
	}},
	{"encodings", 20000, func(r *Rng) {
		k := crypto.NewPrivateKey(r.Bytes(32))
		crypto.NewPrivateKeyfromHexString(k.String())
		crypto.NewPublicKeyfromHex(k.String()[1:])
		crypto.NewPublicKeyfromHex("x" + k.String())
		crypto.NewPrivateKeyFromBigInt(new(big.Int).SetBytes(k.Raw))
		if s, err := crypto.NewSignatureFromBytes(r.Bytes(64)); err == nil {
			crypto.NewSignatureFromBigInt(s.GetR(), s.GetS())
			crypto.NewSignature(s.Bytes(), s.S)
			_ = s.String()
		}
	}},
	{"points", 1500, func(r *Rng) {
		g, err := decodeLib(r.Bytes(32))
		if err != nil {
			return
		}
		g.Encode()
		h := crypto.MathUtils.AddGroupElements(g, crypto.Ed25519Group.BASE_POINT())
		h.Equals(g)
		_ = crypto.MathUtils.DoubleGroupElement(h).String()
		if r.Intn(4) == 0 {
			g.PrecomputeForScalarMultiplication()
			g.PrecomputeForDoubleScalarMultiplication()
			g.Select(0, 1)
		}
	}},
	{"engines", 20000, func(r *Rng) {
		kp := &crypto.KeyPair{PrivateKey: crypto.NewPrivateKey(r.Bytes(32)), PublicKey: crypto.NewPublicKey(r.Bytes(32))}
		for _, e := range []crypto.CryptoEngine{crypto.CryptoEngines.Ed25519Engine, crypto.CryptoEngines.DefaultEngine} {
			e.CreateBlockCipher(kp, kp)
			e.CreateDsaSigner(kp)
			e.CreateKeyGenerator()
			e.CreateKeyAnalyzer().IsKeyCompressed(kp.PublicKey)
		}
	}},
}

// offCurve returns bytes that are no point.
func offCurve(r *Rng) []byte {
	for {
		if b := r.Bytes(32); ref.Decode(b) == nil {
			return b
		}
	}
}

type heapState struct {
	bytes, objects int64
	goroutines     int
}

// settled reads the heap after everything that can go is gone.
func settled() (h heapState) {
	for i := 0; i < 4; i++ {
		runtime.GC() // pools are emptied in two steps, finalizers take one more
	}
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	h.bytes, h.objects = int64(m.HeapAlloc), int64(m.HeapObjects)
	h.goroutines = runtime.NumGoroutine()
	return
}

const leakStages = 9

// tooMuch is kept by no operation, whatever its caches.
const tooMuch = 256 << 20

// c27retained watches the heap over stages of equal work. Caches may fill up
// in the first two thirds; what still grows in each of the last stages by so
// much per operation is kept for ever.
func c27retained(c *C) {
	op := &leakOps[c.Idx]
	n := c.T.N(op.n, 6*op.n)
	leakEnv()
	nw := runtime.GOMAXPROCS(0)
	stage := func(k int) {
		var wg sync.WaitGroup
		var next atomic.Int64
		var failed atomic.Value
		for w := 0; w < nw; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if e := recover(); e != nil {
						failed.Store(fmt.Sprint(e))
					}
				}()
				for i := next.Add(1); i <= int64(n); i = next.Add(1) {
					op.f(c.R.split(k, int(i)))
				}
			}()
		}
		wg.Wait()
		if e := failed.Load(); e != nil {
			panic(e) // a panic of the library is for other properties; here it ends the case
		}
	}
	full := false
	done := 0 // stages, each with inputs of its own
	measure := func() (h [leakStages + 1]heapState) {
		h[0] = settled()
		for k := 0; k < leakStages; k++ {
			stage(done)
			done++
			h[k+1] = settled()
			if h[k+1].bytes-h[0].bytes > tooMuch {
				full = true
				for i := k + 2; i <= leakStages; i++ {
					h[i] = h[k+1]
				}
				break
			}
		}
		return
	}
	h := measure()
	describe := func() string {
		s := ""
		for k := range h {
			s += fmt.Sprintf("  after %d operations: %d bytes in %d objects, %d goroutines\n", k*n, h[k].bytes, h[k].objects, h[k].goroutines)
		}
		return s
	}
	// the last third, stage by stage
	const last = 3
	grows := func(per float64, of func(heapState) int64) bool {
		a, b := of(h[leakStages-last]), of(h[leakStages])
		if float64(b-a) < per*float64(last*n) || b-a < 64<<10 { // readings differ by up to 20 kB
			return false
		}
		// not in one step, as a table that is made once
		steps := 0
		for k := leakStages - last; k < leakStages; k++ {
			if of(h[k+1]) > of(h[k]) {
				steps++
			}
		}
		return steps >= 2
	}
	bytesOf := func(h heapState) int64 { return h.bytes }
	leak := grows(24, bytesOf)
	if !full && leak {
		// once more, after all that: what fills up has had twice the work
		h = measure()
		leak = grows(24, bytesOf)
	}
	if full {
		c.Fail("memory retained", "%s: %d bytes stay in use after at most %d operations (the last reading is repeated):\n%s", op.name, h[leakStages].bytes-h[0].bytes, done*n, describe())
	} else if leak {
		c.Fail("memory retained", "%s: memory in use grows by %.0f bytes per operation:\n%s", op.name, float64(h[leakStages].bytes-h[leakStages-last].bytes)/float64(last*n), describe())
	}
	if g := h[leakStages].goroutines - h[0].goroutines; g > 64 {
		for i := 0; i < 20 && g > 64; i++ { // some may be on their way out
			time.Sleep(100 * time.Millisecond)
			g = runtime.NumGoroutine() - h[0].goroutines
		}
		if g > 64 {
			c.Fail("goroutines left", "%s: %d goroutines stay behind %d operations:\n%s", op.name, g, leakStages*n, describe())
		}
	}
	c.Hit("retained:measured")
	for k := 0; k < leakStages; k++ {
		c.w.evals += int64(n)
	}
	c.Eval([]byte(op.name))
	c.HitN("retained:operations", leakStages*n)
	c.HitN("retained:heap readings", leakStages+1)
	c.Sample("%s: %d bytes in use at first, %d after %d operations, %d after %d", op.name, h[0].bytes, h[3].bytes, 3*n, h[leakStages].bytes, leakStages*n)
}

// split derives an independent generator.
func (r *Rng) split(a, b int) *Rng {
	x := *r
	x.s[0] += uint64(a+1) * 0x9e3779b97f4a7c15
	x.s[1] += uint64(b+1) * 0xbf58476d1ce4e5b9
	for i := 0; i < 8; i++ {
		x.U64()
	}
	return &x
}

// sizeOp prepares an operation on an input of n bytes.
type sizeOp struct {
	name string
	f    func(r *Rng, n int) func()
}

var sizeOps = []sizeOp{
	{"sign", func(r *Rng, n int) func() { m := r.Bytes(n); return func() { leakEnv().signer.Sign(m) } }},
	{"verify", func(r *Rng, n int) func() {
		m := r.Bytes(n)
		s, err := leakEnv().signer.Sign(m)
		if err != nil {
			return func() {}
		}
		return func() { leakEnv().signer.Verify(m, s) }
	}},
	{"verify what is refused", func(r *Rng, n int) func() {
		m := r.Bytes(n)
		return func() { leakEnv().signer.Verify(m, leakEnv().sig) }
	}},
	{"verify an R of that length", func(r *Rng, n int) func() {
		s := &crypto.Signature{R: r.Bytes(n), S: leakEnv().sig.S}
		return func() { leakEnv().signer.Verify(nil, s) }
	}},
	{"verify an S of that length", func(r *Rng, n int) func() {
		s := &crypto.Signature{R: leakEnv().sig.R, S: r.Bytes(n)}
		return func() { leakEnv().signer.Verify(nil, s) }
	}},
	{"encrypt", func(r *Rng, n int) func() { m := r.Bytes(n); return func() { leakEnv().ciph.Encrypt(m) } }},
	{"decrypt", func(r *Rng, n int) func() {
		ct, err := leakEnv().ciph.Encrypt(r.Bytes(n))
		if err != nil {
			return func() {}
		}
		return func() { leakEnv().ciph.Decrypt(ct) }
	}},
	{"decrypt what is refused", func(r *Rng, n int) func() {
		ct := r.Bytes(n)
		return func() { leakEnv().ciph.Decrypt(ct) }
	}},
	{"decrypt no whole blocks", func(r *Rng, n int) func() {
		ct := r.Bytes(n + 5)
		return func() { leakEnv().ciph.Decrypt(ct) }
	}},
	{"SHA-256", func(r *Rng, n int) func() { m := r.Bytes(n); return func() { crypto.HashesSha_256(m) } }},
	{"SHA3-256", func(r *Rng, n int) func() { m := r.Bytes(n); return func() { crypto.HashesSha3_256(m) } }},
	{"SHA3-512", func(r *Rng, n int) func() { m := r.Bytes(n); return func() { crypto.HashesSha3_512(m) } }},
	{"SHA3-512 of parts", func(r *Rng, n int) func() {
		m := r.Bytes(n)
		var parts [][]byte
		for i := 0; i < n; i += 64 {
			parts = append(parts, m[i:min(i+64, n)])
		}
		return func() { crypto.HashesSha3_512(parts...) }
	}},
	{"Keccak-256", func(r *Rng, n int) func() { m := r.Bytes(n); return func() { crypto.HashesKeccak_256(m) } }},
	{"RIPEMD-160", func(r *Rng, n int) func() { m := r.Bytes(n); return func() { crypto.HashesRipemd160(m) } }},
	{"hex of that length", func(r *Rng, n int) func() {
		s := strings.Repeat("0f", n/2)
		return func() { crypto.NewPrivateKeyfromHexString(s); crypto.NewPublicKeyfromHex(s) }
	}},
	{"no hex of that length", func(r *Rng, n int) func() {
		s := strings.Repeat("0f", n/2) + "x"
		return func() { crypto.NewPrivateKeyfromHexString(s); crypto.NewPublicKeyfromHex(s) }
	}},
	{"signature bytes of that length", func(r *Rng, n int) func() {
		b := r.Bytes(n)
		return func() { crypto.NewSignatureFromBytes(b); crypto.NewSignature(b, b) }
	}},
	{"integers of that length", func(r *Rng, n int) func() {
		v := new(big.Int).SetBytes(r.Bytes(n))
		return func() { crypto.NewSignatureFromBigInt(v, v) }
	}},
	{"key generation from a source with that much", func(r *Rng, n int) func() {
		b := r.Bytes(n)
		return func() { crypto.NewEd25519KeyGenerator(io.Reader(bytes.NewReader(b))).GenerateKeyPair() }
	}},
}

// cost of one run: bytes allocated and processor time of this thread, with
// the collector away unless memory gets short.
func costOf(f func()) (alloc int64, cpu time.Duration) {
	runtime.GC()
	defer debug.SetMemoryLimit(debug.SetMemoryLimit(3 << 30))
	defer debug.SetGCPercent(debug.SetGCPercent(-1))
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	var a, b runtime.MemStats
	var x, y syscall.Rusage
	runtime.ReadMemStats(&a)
	syscall.Getrusage(1 /* RUSAGE_THREAD */, &x)
	f()
	syscall.Getrusage(1, &y)
	runtime.ReadMemStats(&b)
	t := func(r *syscall.Rusage) time.Duration {
		return time.Duration(r.Utime.Nano() + r.Stime.Nano())
	}
	return int64(b.TotalAlloc - a.TotalAlloc), t(&y) - t(&x)
}

// c27linear doubles the input and watches how the cost grows. Quadratic work
// takes four times as much, which shows once it is more than the fixed part.
func c27linear(c *C) {
	op := &sizeOps[c.Idx]
	leakEnv()
	best := func(f func(), k int) (alloc int64, cpu time.Duration) {
		for i := 0; i < k; i++ {
			a, t := costOf(f)
			if i == 0 || a < alloc {
				alloc = a
			}
			if i == 0 || t < cpu {
				cpu = t
			}
		}
		return
	}
	const factor, slowest = 3.2, 60 * time.Millisecond
	max := c.T.N(4<<20, 32<<20)
	var f, prev func()
	var alloc0 int64
	var cpu0 time.Duration
	over := 0
	for n := 16 << 10; n <= max; n *= 2 {
		start := time.Now()
		prev, f = f, op.f(c.R, n)
		slow := time.Since(start) > 10*time.Second // it is the operation of another case that is too slow
		alloc, cpu := best(f, 2)
		c.Hit("linear:sizes")
		c.Eval([]byte(op.name), []byte(fmt.Sprint(n)))
		if prev != nil {
			// twice in a row: a buffer or a table may be due at one size
			if float64(alloc) > factor*float64(alloc0) && alloc0 > 1<<18 {
				over++
			} else {
				over = 0
			}
			if over == 2 {
				c.Fail("allocation", "%s allocates %d bytes for %d bytes of input and %d for %d", op.name, alloc0, n/2, alloc, n)
				return
			}
			if cpu0 > slowest && float64(cpu) > factor*float64(cpu0) {
				// measured again, more often
				_, t0 := best(prev, 5)
				_, t1 := best(f, 5)
				c.Check(float64(t1) <= factor*float64(t0), "time", "%s takes %v of processor time for %d bytes of input and %v for %d", op.name, t0, n/2, t1, n)
			}
		}
		alloc0, cpu0 = alloc, cpu
		if slow || cpu > 8*time.Second {
			break // whatever it is, it was measured
		}
	}
	c.Sample("%s: %d bytes allocated and %v for the longest input", op.name, alloc0, cpu0)
}
