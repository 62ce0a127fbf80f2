package main

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"hash/maphash"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// ---- deterministic randomness: one generator per case ----

// Rng is xoshiro256** seeded from (seed, property, family, index).
type Rng struct {
	s     [4]uint64
	plant func([]byte) // changes what Bytes returns
}

func newRng(parts ...string) *Rng {
	h := sha256.Sum256([]byte(strings.Join(parts, "\x00")))
	r := &Rng{}
	for i := range r.s {
		r.s[i] = binary.LittleEndian.Uint64(h[8*i:])
	}
	return r
}

// U64 returns the next 64 bits.
func (r *Rng) U64() uint64 {
	s := &r.s
	x := s[1] * 5
	res := (x<<7 | x>>57) * 9
	t := s[1] << 17
	s[2] ^= s[0]
	s[3] ^= s[1]
	s[1] ^= s[2]
	s[0] ^= s[3]
	s[2] ^= t
	s[3] = s[3]<<45 | s[3]>>19
	return res
}

// Intn returns a number below n.
func (r *Rng) Intn(n int) int { return int(r.U64() % uint64(n)) }

// Bool returns a random bit.
func (r *Rng) Bool() bool { return r.U64()>>63 == 1 }

// Bytes returns n random bytes.
func (r *Rng) Bytes(n int) []byte {
	b := make([]byte, n)
	r.Fill(b)
	return r.planted(b)
}

// planted lets the plant of this generator change b, and returns it.
func (r *Rng) planted(b []byte) []byte {
	if r.plant != nil {
		r.plant(b)
	}
	return b
}

// Fill fills b.
func (r *Rng) Fill(b []byte) {
	for i := 0; i < len(b); {
		v := r.U64()
		for k := 0; k < 8 && i < len(b); k++ {
			b[i] = byte(v)
			v >>= 8
			i++
		}
	}
}

// ---- cases, families, properties ----

// Fam is a family of cases of one property: N cases, each a function of its index.
type Fam struct {
	Name   string
	N      int
	Serial bool // all cases in one goroutine, in order
	Fn     func(c *C)
	Floor  map[string]int64 // classes that a run must have observed at least so often
	Needs  []string         // bridges without which the family is skipped
}

// Prop is what a monitor decides.
type Prop struct {
	ID   string
	Rule string
	Fams func(t *Tier) []Fam
	// Before and After run in the main goroutine around all families.
	Before func()
	After  func(c *C)
}

// Tier scales the case counts.
type Tier struct{ Thorough bool }

// N picks the case count of the tier.
func (t *Tier) N(quick, thorough int) int {
	if t.Thorough {
		return thorough
	}
	return quick
}

type violation struct {
	Family string   `json:"family"`
	Index  int      `json:"index"`
	Key    string   `json:"key"`
	Msg    string   `json:"message"`
	Trace  []string `json:"trace,omitempty"`
}

type failure struct{ key, msg string }

// C is the context of one case.
type C struct {
	R      *Rng
	T      *Tier
	Fam    string
	Idx    int
	w      *worker
	trace  []string
	sample string
}

type worker struct {
	classes  map[string]int64
	distinct map[uint64]struct{}
	evals    int64
	samples  []string
	nsample  int
	viol     []violation
	cur      atomic.Int64 // start of the running case (unix nano), 0 when idle
	curName  atomic.Value
}

var hseed = maphash.MakeSeed()

// Hit counts an observation of a class of behaviour.
func (c *C) Hit(class string) { c.w.classes[class]++ }

// HitN counts n observations.
func (c *C) HitN(class string, n int) { c.w.classes[class] += int64(n) }

// Eval counts one monitored execution; key is its input.
func (c *C) Eval(parts ...[]byte) {
	c.w.evals++
	var h maphash.Hash
	h.SetSeed(hseed)
	h.WriteString(c.Fam)
	for _, p := range parts {
		var l [8]byte
		binary.LittleEndian.PutUint64(l[:], uint64(len(p)))
		h.Write(l[:])
		h.Write(p)
	}
	if len(c.w.distinct) < 1<<20 {
		c.w.distinct[h.Sum64()] = struct{}{}
	}
}

// Sample keeps a description of a case for the evidence.
func (c *C) Sample(format string, a ...interface{}) {
	if c.w.nsample%997 == 0 && len(c.w.samples) < 8 {
		c.w.samples = append(c.w.samples, fmt.Sprintf("[%s/%d] ", c.Fam, c.Idx)+fmt.Sprintf(format, a...))
	}
	c.w.nsample++
}

// Logf records a step of a history for the report of a violation.
func (c *C) Logf(format string, a ...interface{}) {
	if len(c.trace) > 400 {
		c.trace = append(c.trace[:100:100], c.trace[300:]...)
	}
	c.trace = append(c.trace, fmt.Sprintf(format, a...))
}

// Fail reports a violation and ends the case. key identifies what fails.
func (c *C) Fail(key, format string, a ...interface{}) {
	panic(failure{key, fmt.Sprintf(format, a...)})
}

// Check fails when ok is false.
func (c *C) Check(ok bool, key, format string, a ...interface{}) {
	if !ok {
		panic(failure{key, fmt.Sprintf(format, a...)})
	}
}

func hx(b []byte) string {
	if b == nil {
		return "<nil>"
	}
	if len(b) > 160 {
		return fmt.Sprintf("%s...(%d bytes, sha256 %x)", hex.EncodeToString(b[:80]), len(b), sha256.Sum256(b))
	}
	return hex.EncodeToString(b)
}

const libPath = "go-xpx-crypto"

// libFrame tells whether a stack has a frame of the library (its import path
// or the directory it was built from).
func libFrame(stack string) bool {
	for _, l := range strings.Split(stack, "\n") {
		if strings.HasPrefix(l, "github.com/proximax-storage/go-xpx-crypto.") {
			return true
		}
		if strings.HasPrefix(l, "created by github.com/proximax-storage/go-xpx-crypto.") {
			return true
		}
	}
	return false
}

func (w *worker) run(p *Prop, t *Tier, seed string, f *Fam, idx int) {
	c := &C{R: newRng(seed, p.ID, f.Name, fmt.Sprint(idx)), T: t, Fam: f.Name, Idx: idx, w: w}
	w.guard(c, f.Fn)
}

func (w *worker) guard(c *C, fn func(c *C)) {
	w.curName.Store(fmt.Sprintf("%s/%d", c.Fam, c.Idx))
	w.cur.Store(time.Now().UnixNano())
	defer func() {
		w.cur.Store(0)
		if e := recover(); e != nil {
			v := violation{Family: c.Fam, Index: c.Idx, Trace: c.trace}
			if f, ok := e.(failure); ok {
				v.Key, v.Msg = f.key, f.msg
			} else {
				st := string(debug.Stack())
				v.Key = "panic"
				v.Msg = fmt.Sprintf("panic: %v\n%s", e, trimStack(st))
			}
			if len(v.Trace) > 60 {
				v.Trace = append(append([]string{}, v.Trace[:5]...), v.Trace[len(v.Trace)-50:]...)
			}
			w.viol = append(w.viol, v)
		}
	}()
	fn(c)
}

func trimStack(st string) string {
	ls := strings.Split(st, "\n")
	for i, l := range ls {
		if strings.HasPrefix(l, "panic(") && i+2 < len(ls) {
			ls = ls[i+2:]
			break
		}
	}
	if len(ls) > 24 {
		ls = ls[:24]
	}
	return strings.Join(ls, "\n")
}

// Report is what the binary hands to the supervisor.
type Report struct {
	Property   string           `json:"property"`
	Evals      int64            `json:"evaluations"`
	Distinct   int              `json:"distinct"`
	Rule       string           `json:"rule"`
	Samples    []string         `json:"samples"`
	Classes    map[string]int64 `json:"classes"`
	Families   map[string]int   `json:"families"`
	Skipped    []string         `json:"skipped,omitempty"`
	Cut        []string         `json:"cut,omitempty"` // families that ran out of time
	Missing    []string         `json:"missing,omitempty"`
	Known      []string         `json:"known,omitempty"`
	Violations []violation      `json:"violations"`
	Error      string           `json:"error,omitempty"`
	Wall       float64          `json:"wall"`
}

const maxViol = 6

func runProp(p *Prop, t *Tier, seed string, onlyFam string, onlyIdx int) *Report {
	start := time.Now()
	rep := &Report{Property: p.ID, Rule: p.Rule, Classes: map[string]int64{}, Families: map[string]int{}}
	fams := append(p.Fams(t), dictFam(p.ID, t)...)
	nw := runtime.GOMAXPROCS(0)
	workers := make([]*worker, nw)
	for i := range workers {
		workers[i] = &worker{classes: map[string]int64{}, distinct: map[uint64]struct{}{}}
		workers[i].curName.Store("")
	}
	stop := make(chan struct{})
	go watchdog(workers, stop)
	if p.Before != nil {
		p.Before()
	}
	var nviol atomic.Int64
	// The cases are counted, not timed; but code that is very much slower than
	// it was still has to get an answer.
	var budget float64
	fmt.Sscan(os.Getenv("VERIF_BUDGET"), &budget)
	cut := map[string]bool{}
	for fi := range fams {
		f := &fams[fi]
		if onlyFam != "" && f.Name != onlyFam {
			continue
		}
		if miss := missingBridges(f.Needs); len(miss) > 0 {
			rep.Skipped = append(rep.Skipped, f.Name+" (needs "+strings.Join(miss, ", ")+")")
			continue
		}
		rep.Families[f.Name] = f.N
		var end time.Time
		if left := budget - time.Since(start).Seconds(); budget > 0 {
			// twice an even share of what is left, all of it for the last one
			end = time.Now().Add(time.Duration(left * 2 / float64(len(fams)-fi+1) * 1e9))
		}
		var ran, late atomic.Int64
		one := func(w *worker, i int) bool {
			if nviol.Load() >= maxViol {
				return false
			}
			if i > 0 && budget > 0 && time.Now().After(end) {
				late.Add(1)
				return false
			}
			ran.Add(1)
			if onlyIdx >= 0 && i != onlyIdx {
				return true
			}
			n := len(w.viol)
			w.run(p, t, seed, f, i)
			nviol.Add(int64(len(w.viol) - n))
			return true
		}
		done := func() {
			if late.Load() > 0 {
				cut[f.Name] = true
				rep.Cut = append(rep.Cut, fmt.Sprintf("%s after %d of %d cases", f.Name, ran.Load(), f.N))
				rep.Families[f.Name] = int(ran.Load())
			}
		}
		if f.Serial {
			for i := 0; i < f.N && one(workers[0], i); i++ {
			}
			done()
			continue
		}
		var next atomic.Int64
		var wg sync.WaitGroup
		for _, w := range workers {
			wg.Add(1)
			go func(w *worker) {
				defer wg.Done()
				for {
					i := int(next.Add(1)) - 1
					if i >= f.N || !one(w, i) {
						return
					}
				}
			}(w)
		}
		wg.Wait()
		done()
	}
	if p.After != nil && nviol.Load() < maxViol {
		c := &C{R: newRng(seed, p.ID, "after"), T: t, Fam: "after", Idx: 0, w: workers[0]}
		workers[0].guard(c, p.After)
	}
	close(stop)
	all := map[uint64]struct{}{}
	for _, w := range workers {
		rep.Evals += w.evals
		for k, v := range w.classes {
			rep.Classes[k] += v
		}
		for k := range w.distinct {
			all[k] = struct{}{}
		}
		rep.Violations = append(rep.Violations, w.viol...)
	}
	for i := 0; len(rep.Samples) < 12 && i < 8; i++ {
		for _, w := range workers {
			if i < len(w.samples) {
				rep.Samples = append(rep.Samples, w.samples[i])
			}
		}
	}
	sort.Slice(rep.Violations, func(i, j int) bool {
		a, b := rep.Violations[i], rep.Violations[j]
		if a.Family != b.Family {
			return a.Family < b.Family
		}
		return a.Index < b.Index
	})
	rep.Distinct = len(all)
	if onlyFam == "" && len(rep.Violations) == 0 {
		for _, f := range fams {
			if rep.Families[f.Name] == 0 || len(cut) > 0 {
				continue
			}
			for k, n := range f.Floor {
				if rep.Classes[k] < n {
					rep.Missing = append(rep.Missing, fmt.Sprintf("%s: %s observed %d times, wanted %d", f.Name, k, rep.Classes[k], n))
				}
			}
		}
	}
	rep.Known = knownFindings()
	rep.Wall = time.Since(start).Seconds()
	return rep
}

func cpuSeconds() float64 {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return float64(ru.Utime.Sec) + float64(ru.Utime.Usec)/1e6 + float64(ru.Stime.Sec)
}

// stuckAfter is far beyond what any case costs (the longest take a few seconds).
var stuckAfter = 240 * time.Second

// watchdog ends the process when a case does not end. The stacks tell the
// supervisor whether the library is where it hangs.
func watchdog(ws []*worker, stop chan struct{}) {
	for {
		select {
		case <-stop:
			return
		case <-time.After(time.Second):
		}
		for _, w := range ws {
			s := w.cur.Load()
			if s == 0 || time.Since(time.Unix(0, s)) < stuckAfter {
				continue
			}
			buf := make([]byte, 1<<20)
			buf = buf[:runtime.Stack(buf, true)]
			fmt.Fprintf(os.Stderr, "VERIF-STUCK case %v does not end (%.0f s of CPU time so far)\n%s\n", w.curName.Load(), cpuSeconds(), buf)
			os.Exit(7)
		}
	}
}

func writeReport(path string, rep *Report) {
	b, err := json.MarshalIndent(rep, "", " ")
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(path, b, 0o644); err != nil {
		panic(err)
	}
}
