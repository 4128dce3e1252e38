// Package pbt is the small property-based testing engine behind every check:
// seeded generation by (section, index), parallel evaluation, counting,
// shrinking and replay. Every random choice of a case comes from the Rand its
// section hands out, which is a pure function of (seed, section, index), so a
// run is a pure function of the code under test and VERIF_SEED.
package pbt

// Rand is a splitmix64 generator.
type Rand struct{ s uint64 }

func mix(x uint64) uint64 {
	x ^= x >> 30
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	x *= 0x94d049bb133111eb
	x ^= x >> 31
	return x
}

func NewRand(seed uint64, salt string, i int) *Rand {
	h := uint64(14695981039346656037)
	for j := 0; j < len(salt); j++ {
		h ^= uint64(salt[j])
		h *= 1099511628211
	}
	return &Rand{s: mix(mix(seed+0x9e3779b97f4a7c15)^h) ^ mix(uint64(i)*0x9e3779b97f4a7c15+1)}
}

func (r *Rand) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	return mix(r.s)
}
func (r *Rand) U32() uint32 { return uint32(r.U64() >> 32) }
func (r *Rand) Byte() byte  { return byte(r.U64() >> 56) }

// N returns a number in [0, n).
func (r *Rand) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int((r.U64() >> 1) % uint64(n))
}

// In returns a number in [lo, hi].
func (r *Rand) In(lo, hi int) int { return lo + r.N(hi-lo+1) }
func (r *Rand) Bool() bool        { return r.U64()>>63 == 1 }

// Chance is true k times out of n.
func (r *Rand) Chance(k, n int) bool { return r.N(n) < k }

// Hash is an incremental 64-bit hash used to count distinct cases.
type Hash uint64

func NewHash() Hash { return 0x51ed270b35ae }
func (h Hash) U64(x uint64) Hash {
	return Hash(mix(uint64(h)*0x9e3779b97f4a7c15 + x + 0x632be59bd9b4e019))
}
func (h Hash) U32s(xs []uint32) Hash {
	h = h.U64(uint64(len(xs)))
	for i := 0; i+1 < len(xs); i += 2 {
		h = h.U64(uint64(xs[i]) | uint64(xs[i+1])<<32)
	}
	if len(xs)%2 == 1 {
		h = h.U64(uint64(xs[len(xs)-1]))
	}
	return h
}
func (h Hash) Bytes(b []byte) Hash {
	h = h.U64(uint64(len(b)))
	var w uint64
	for i, x := range b {
		w = w<<8 | uint64(x)
		if i%8 == 7 {
			h = h.U64(w)
			w = 0
		}
	}
	return h.U64(w)
}
