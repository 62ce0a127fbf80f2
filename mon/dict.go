package main

import (
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"math/bits"
	"os"
	"sort"
	"strconv"
	"sync"
)

// ---- values that the code under test compares with ----

// The supervisor hands over the constants of the sources as they are now
// (mon/instr, mode dict). Inputs that contain them, at the places where code
// looks, and of these lengths reach what random inputs would not.
type dictionary struct {
	Ints   []uint64      // constants
	Cmp    []uint64      // those that are compared, divided by or masked with
	Strs   []string      // strings and byte slices, hex
	Groups [][][2]uint64 // index and value of bytes that one condition compares
	New    []string      // which of them the sources did not always have
	plants []plant
}

// plant puts a constant into a byte string and returns where it ends.
type plant struct {
	put func(r *Rng, b []byte) int
	n   int // cases per family
}

var theDict dictionary
var dictOnce sync.Once

func dict() *dictionary {
	dictOnce.Do(func() {
		b, err := os.ReadFile(os.Getenv("VERIF_DICT"))
		if err != nil || json.Unmarshal(b, &theDict) != nil {
			return
		}
		d := &theDict
		isNew := map[string]bool{}
		for _, s := range d.New {
			isNew[s] = true
		}
		weight := func(key string, n int) int {
			if isNew[key] {
				return 250
			}
			return n
		}
		seen := map[string]bool{}
		add := func(t []byte, n int) {
			if seen[string(t)] {
				return
			}
			seen[string(t)] = true
			d.plants = append(d.plants, plant{func(r *Rng, b []byte) int {
				free := len(b) - len(t)
				if free < 0 {
					return len(b)
				}
				o := 0
				switch r.Intn(6) {
				case 0, 1:
					o = free
				case 2:
					o = r.Intn(free + 1)
				}
				copy(b[o:], t)
				return o + len(t)
			}, n})
		}
		for _, g := range d.Groups {
			g := g
			k, _ := json.Marshal(g)
			d.plants = append(d.plants, plant{func(r *Rng, b []byte) int {
				end := 0
				for _, p := range g {
					if p[0] < uint64(len(b)) {
						b[p[0]] = byte(p[1])
						if int(p[0]) >= end {
							end = int(p[0]) + 1
						}
					}
				}
				return end
			}, weight("group "+string(k), 8)})
		}
		for _, s := range d.Strs {
			if t, err := hex.DecodeString(s); err == nil && len(t) > 0 {
				add(t, weight("str "+s, 8))
			}
		}
		for _, n := range d.Ints {
			w := weight("int "+strconv.FormatUint(n, 10), 4)
			var le, be [8]byte
			binary.LittleEndian.PutUint64(le[:], n)
			binary.BigEndian.PutUint64(be[:], n)
			k := (bits.Len64(n) + 7) / 8
			if k == 0 {
				k = 1
			}
			add(le[:k], w)
			if k > 1 {
				add(be[8-k:], w)
			}
			if k <= 4 {
				add(le[:4], w)
				add(be[4:], w)
			} else {
				add(le[:], w)
				add(be[:], w)
			}
		}
	})
	return &theDict
}

// sow plants p and, at times, a length after it.
func (p plant) sow(r *Rng, b []byte) {
	o := p.put(r, b)
	if r.Intn(4) != 0 {
		return
	}
	w := []int{1, 1, 2, 4, 4, 8}[r.Intn(6)]
	if o+w > len(b) {
		return
	}
	n := uint64([]int{len(b), len(b) - o, len(b) - o - w, len(b) - o - w, len(b) - o - w}[r.Intn(5)])
	le := r.Bool()
	for i := 0; i < w; i++ {
		k := i
		if !le {
			k = w - 1 - i
		}
		b[o+k] = byte(n >> uint(8*i))
	}
}

// dictSizes are lengths that comparisons in the sources suggest.
func dictSizes(max int) (l []int) {
	for _, n := range dict().Cmp {
		if n < 8 || n > uint64(max) {
			continue
		}
		for _, d := range []int{-64, -48, -32, -16, -1, 0, 1, 16} {
			l = append(l, int(n)+d)
		}
		for k := 2; k < 5; k++ {
			l = append(l, k*int(n))
		}
	}
	if len(l) > 1500 {
		sort.Ints(l)
		l = l[:1500]
	}
	return
}

var dictFns = map[string][]func(c *C){
	"C01": {c01mixed, c01oddKeys}, "C02": {c02}, "C03": {c03tamper, c03garbage}, "C04": {c04random},
	"C06": {c06paths, c06odd}, "C07": {c07patterns}, "C08": {c08modes}, "C09": {c09encrypt, c09decrypt},
	"C10": {c10tamper, c10lengths}, "C11": {c11patterns}, "C12": {c12sides, c12peers}, "C13": {c13contents, c13parts},
	"C14": {c14round}, "C15": {c15round, c15bytes}, "C16": {c16decode}, "C18": {c18decode}, "C19": {c19reduce, c19muladd},
	"C23": {c23conv},
}

var dictNeeds = map[string][]string{"C19": {"sc.modQ", "sc.multiplyAndAddModQ"}}

// dictFam repeats cases of other families with constants of the sources in
// half of the byte strings they draw.
func dictFam(id string, t *Tier) []Fam {
	fns, d := dictFns[id], dict()
	if fns == nil || len(d.plants) == 0 {
		return nil
	}
	var l []int // the plants, as often as they are used
	for i, p := range d.plants {
		for n := t.N(p.n, 10*p.n); n > 0; n-- {
			l = append(l, i)
		}
	}
	times := 1
	switch id {
	case "C04", "C07", "C13", "C14", "C15", "C23": // cheap ones
		times = 8
	}
	n, max := len(l)*times, t.N(5000, 60000)*times
	if n > max {
		n = max
	}
	return []Fam{{Name: "dictionary", N: n * len(fns), Needs: dictNeeds[id], Fn: func(c *C) {
		k := c.Idx / len(fns)
		if n < len(l)*times {
			k = c.R.Intn(len(l))
		}
		p := d.plants[l[k%len(l)]]
		r := newRng("plant", hex.EncodeToString(c.R.Bytes(8)))
		c.R.plant = func(b []byte) {
			if r.Bool() {
				p.sow(r, b)
			}
		}
		c.Hit("dictionary")
		fns[c.Idx%len(fns)](c)
	}}}
}
