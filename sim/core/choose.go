// Package core is the deterministic simulator: one stream of choices decides
// everything a run does, and a run is a pure function of that stream and the
// code under test.
package core

import "math/bits"

// RNG is a small splitmix64/xorshift generator with a fixed, documented
// sequence, so that a seed means the same run on every Go version.
type RNG struct{ s uint64 }

func NewRNG(seed uint64) *RNG { return &RNG{seed} }

func (r *RNG) Uint64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	z = (z ^ z>>27) * 0x94d049bb133111eb
	return z ^ z>>31
}

// Intn returns a number in [0,n).
func (r *RNG) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	hi, _ := bits.Mul64(r.Uint64(), uint64(n))
	return int(hi)
}

// Mix derives a seed from several numbers.
func Mix(xs ...uint64) uint64 {
	h := uint64(0x243f6a8885a308d3)
	for _, x := range xs {
		h ^= x
		r := RNG{h}
		h = r.Uint64()
	}
	return h
}

// HashString is FNV-1a, for mixing names into seeds.
func HashString(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

// Chooser produces the choices of one run: drawn from a seed and recorded, or
// replayed from a recorded (possibly minimised) list, with 0, the simplest
// choice, after its end.
type Chooser struct {
	rng    *RNG
	replay []int32
	pos    int
	Rec    []int32
	limit  int
	Record func(int32) // called for every choice, if set
}

func NewChooser(seed uint64) *Chooser { return &Chooser{rng: NewRNG(seed), limit: 4 << 20} }

func ReplayChooser(choices []int32) *Chooser {
	return &Chooser{replay: choices, limit: 4 << 20}
}

// Intn draws a number in [0,n). Choice 0 is always the simplest.
func (c *Chooser) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	var v int
	if c.rng != nil {
		v = c.rng.Intn(n)
	} else if c.pos < len(c.replay) {
		v = int(c.replay[c.pos])
		if v < 0 {
			v = 0
		}
		if v >= n {
			v %= n
		}
	}
	c.pos++
	if c.Record != nil {
		c.Record(int32(v))
	}
	if len(c.Rec) < c.limit {
		c.Rec = append(c.Rec, int32(v))
	}
	return v
}

// Chance is true num times out of den; false is the simple choice.
func (c *Chooser) Chance(num, den int) bool { return c.Intn(den) >= den-num }

// Range draws from [lo,hi].
func (c *Chooser) Range(lo, hi int) int { return lo + c.Intn(hi-lo+1) }

// Weighted draws an index with the given weights; put the simplest first.
func (c *Chooser) Weighted(w ...int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	v := c.Intn(t)
	for i, x := range w {
		if v < x {
			return i
		}
		v -= x
	}
	return len(w) - 1
}

// Sub returns a generator for bulk data, seeded by one choice.
func (c *Chooser) Sub() *RNG { return NewRNG(uint64(c.Intn(1<<30)) + 1) }
