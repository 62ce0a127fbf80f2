package main

import (
	crand "crypto/rand"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"sync"
	"time"

	crypto "github.com/proximax-storage/go-xpx-crypto"
)

// ledger remembers random values and objects to repetition.
type ledger struct {
	mu   sync.Mutex
	seen map[string]string
	n    int
	vals [64][256]bool
}

// add enters a value and its aligned 8-byte parts.
func (l *ledger) add(c *C, v []byte, what string) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.seen == nil {
		l.seen = map[string]string{}
	}
	for i := 0; i+8 <= len(v); i += 8 {
		p := string(v[i : i+8])
		if old, ok := l.seen[p]; ok {
			c.Fail("random bytes repeat", "the bytes %x of %s %x occurred before in %s", p, what, v, old)
		}
		l.seen[p] = fmt.Sprintf("%s %x", what, v)
	}
	for i, b := range v {
		if i < len(l.vals) {
			l.vals[i][b] = true
		}
	}
	l.n++
}

// spread objects when a byte of the values takes few values only. With n
// draws 256*(1-(255/256)^n) values are expected; half of it is never missed.
func (l *ledger) spread(c *C, size int, what string) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.n < 300 {
		return
	}
	for i := 0; i < size; i++ {
		k := 0
		for _, s := range l.vals[i] {
			if s {
				k++
			}
		}
		if k < 90 {
			c.Fail("random bytes are not random", "byte %d of %d %s takes only %d values", i, l.n, what, k)
		}
	}
	c.HitN("fresh:"+what, l.n)
}

// recorder stands in for the default random source.
type recorder struct {
	mu  sync.Mutex
	r   *Rng
	log []byte
}

func (r *recorder) Read(p []byte) (int, error) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.r.Fill(p)
	r.log = append(r.log, p...)
	return len(p), nil
}

// install exchanges crypto/rand.Reader; the result undoes it (any number of times).
func (r *recorder) install() func() {
	old := crand.Reader
	crand.Reader = r
	return func() { crand.Reader = old }
}

// helper runs this binary again and returns the lines it prints.
func helper(c *C, what string) []string {
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	cmd := exec.Command(exe, "-helper", what)
	var msg strings.Builder
	cmd.Stderr = &msg
	cmd.WaitDelay = time.Minute
	out, err := cmd.Output()
	if err != nil {
		m := msg.String()
		if len(m) > 3000 {
			m = m[:3000]
		}
		if libFrame(m) {
			c.Fail("crash", "helper process %s: %v\n%s", what, err, m)
		}
		fmt.Fprintf(os.Stderr, "helper process %s: %v\n%s\n", what, err, m)
		os.Exit(3)
	}
	return strings.Fields(string(out))
}

// runHelper is the other side.
func runHelper(what string, w io.Writer) {
	if strings.HasPrefix(what, "first:") {
		if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
			os.Stdout = null // Verify prints the reason of some refusals
		}
		firstHelper(what, w)
		return
	}
	a, _ := crypto.NewRandomKeyPair()
	for i := 0; i < 24; i++ {
		switch what {
		case "keys":
			var kp *crypto.KeyPair
			var err error
			switch i % 3 {
			case 0:
				kp, err = crypto.NewRandomKeyPair()
			case 1:
				kp, err = crypto.NewEd25519KeyGenerator(nil).GenerateKeyPair()
			case 2:
				kp, err = crypto.NewKeyPairByEngine(crypto.CryptoEngines.Ed25519Engine)
			}
			if err != nil {
				panic(err)
			}
			fmt.Fprintf(w, "%x\n", kp.PrivateKey.Raw)
		case "salts":
			bc := crypto.NewBlockCipher(a, a, nil)
			if i%2 == 1 {
				bc = crypto.NewEd25519BlockCipher(a, a, nil)
			}
			ct, err := bc.Encrypt([]byte("message"))
			if err != nil {
				panic(err)
			}
			fmt.Fprintf(w, "%x\n", ct[:48])
		}
	}
}
