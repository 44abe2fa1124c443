// Package vlib is what the monitors share: a deterministic case source, a bit
// writer, panic containment, event counting and reporting.
package vlib

// RNG is splitmix64: the same seed gives the same cases everywhere.
type RNG struct{ s uint64 }

func NewRNG(parts ...uint64) *RNG {
	r := &RNG{s: 0x9E3779B97F4A7C15}
	for _, p := range parts {
		r.s ^= p + 0x9E3779B97F4A7C15 + (r.s << 6) + (r.s >> 2)
		r.U64()
	}
	return r
}

func (r *RNG) U64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// N is uniform in 0..n-1.
func (r *RNG) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// In is uniform in lo..hi.
func (r *RNG) In(lo, hi int) int { return lo + r.N(hi-lo+1) }

// P is true with probability pc percent.
func (r *RNG) P(pc int) bool { return r.N(100) < pc }

func (r *RNG) Bool() bool { return r.U64()>>63 == 1 }

// Bits draws an n-bit value with weight on the ends of the range.
func (r *RNG) Bits(n int) int {
	if n <= 0 {
		return 0
	}
	max := uint64(1)<<uint(n) - 1
	switch r.N(8) {
	case 0:
		return 0
	case 1:
		return int(max)
	case 2:
		return int(uint64(r.N(4)) & max)
	case 3:
		return int(max - uint64(r.N(4))&max)
	case 4:
		return int((uint64(1) << uint(r.N(n))) & max)
	default:
		return int(r.U64() & max)
	}
}

func (r *RNG) Pick(v ...int) int { return v[r.N(len(v))] }

func (r *RNG) Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.U64() >> 13)
	}
	return b
}
