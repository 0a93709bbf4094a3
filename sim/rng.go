package main

import "math"

// splitmix64: the one PRNG behind every choice of a run.
type Rng struct {
	s uint64
	q float64 // round what Range returns to multiples of this
}

func mix64(z uint64) uint64 {
	z += 0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func hashU(vs ...uint64) uint64 {
	h := uint64(0x243f6a8885a308d3)
	for _, v := range vs {
		h = mix64(h ^ v)
	}
	return h
}

func hashS(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return mix64(h)
}

// unit maps a hash to [0,1).
func unit(h uint64) float64 { return float64(h>>11) / (1 << 53) }

func NewRng(seed uint64) *Rng { return &Rng{s: mix64(seed)} }

func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *Rng) F() float64 { return unit(r.U64()) }
func (r *Rng) Range(a, b float64) float64 {
	x := a + (b-a)*r.F()
	if r.q > 0 {
		if y := math.Round(x/r.q) * r.q; a <= y && y <= b {
			return y
		}
	}
	return x
}

// snap rounds to multiples of q.
func snapTo(v V, q float64) V {
	if q <= 0 {
		return v
	}
	return V{math.Round(v.X/q) * q, math.Round(v.Y/q) * q}
}
func (r *Rng) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}
func (r *Rng) Between(a, b int) int { return a + r.Intn(b-a+1) }
func (r *Rng) P(p float64) bool     { return r.F() < p }
func (r *Rng) Salt() int            { return int(r.U64() >> 2) }
func (r *Rng) Choose(fs ...float64) float64 {
	return fs[r.Intn(len(fs))]
}

// Pick returns an index with probability proportional to its weight.
func (r *Rng) Pick(w []float64) int {
	t := 0.0
	for _, x := range w {
		t += x
	}
	u := r.F() * t
	for i, x := range w {
		u -= x
		if u < 0 {
			return i
		}
	}
	return len(w) - 1
}
