package main

// Rng is a splitmix64 generator: every random choice of a check derives from
// VERIF_SEED, the property id and the case number.
type Rng struct{ s uint64 }

func NewRng(parts ...interface{}) *Rng {
	h := uint64(14695981039346656037)
	mix := func(b byte) { h ^= uint64(b); h *= 1099511628211 }
	for _, p := range parts {
		switch v := p.(type) {
		case int:
			for i := 0; i < 8; i++ {
				mix(byte(uint64(v) >> (8 * uint(i))))
			}
		case string:
			for i := 0; i < len(v); i++ {
				mix(v[i])
			}
			mix(0xff)
		default:
			panic("NewRng")
		}
	}
	r := &Rng{h}
	r.U64()
	return r
}

func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// N gives 0..n-1.
func (r *Rng) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// Range gives lo..hi.
func (r *Rng) Range(lo, hi int) int { return lo + r.N(hi-lo+1) }

// P is true with probability pct/100.
func (r *Rng) P(pct int) bool { return r.N(100) < pct }

func (r *Rng) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.N(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

func (r *Rng) Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.U64())
	}
	return b
}

func (r *Rng) Pick(xs ...int) int { return xs[r.N(len(xs))] }

func (r *Rng) PickS(xs ...string) string { return xs[r.N(len(xs))] }
