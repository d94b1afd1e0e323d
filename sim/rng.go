package main

// Rng is splitmix64: small, fast, and the same on every platform.
type Rng struct{ s uint64 }

func NewRng(seed uint64) *Rng { return &Rng{s: seed} }

func mix(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	return mix(r.s)
}

// N returns a number in [0,n).
func (r *Rng) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int((r.U64() >> 11) % uint64(n))
}

// R returns a number in [lo,hi].
func (r *Rng) R(lo, hi int) int {
	if hi <= lo {
		return lo
	}
	return lo + r.N(hi-lo+1)
}

// P is true once in n times.
func (r *Rng) P(n int) bool { return r.N(n) == 0 }

// Pct is true pct percent of the time.
func (r *Rng) Pct(pct int) bool { return r.N(100) < pct }

func hashU(h, v uint64) uint64 { return mix(h ^ (v + 0x9e3779b97f4a7c15 + (h << 6) + (h >> 2))) }

func hashS(h uint64, s string) uint64 {
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return hashU(h, uint64(len(s)))
}
