// Package rng is the simulator's one source of choices: splitmix64 streams
// derived from one integer.
package rng

type R struct{ s uint64 }

func mix(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func New(seed uint64) *R { return &R{mix(seed + 0x9e3779b97f4a7c15)} }

// Derive gives an independent seed for a named purpose.
func Derive(seed uint64, name string) uint64 {
	h := seed ^ 0xcbf29ce484222325
	for i := 0; i < len(name); i++ {
		h = (h ^ uint64(name[i])) * 1099511628211
	}
	return mix(h)
}

func (r *R) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	return mix(r.s)
}

// N is uniform in [0,n).
func (r *R) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// Edge is in [0,n), in one of four cases at or next to an end or the middle.
func (r *R) Edge(n int) int {
	if n > 4 && r.P(25) {
		return Pick(r, 0, 1, n/2-1, n/2, n-2, n-1)
	}
	return r.N(n)
}

// Range is uniform in [a,b].
func (r *R) Range(a, b int) int { return a + r.N(b-a+1) }

// P is true with probability p percent.
func (r *R) P(p int) bool { return r.N(100) < p }

func (r *R) Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.U64())
	}
	return b
}

func Pick[T any](r *R, xs ...T) T { return xs[r.N(len(xs))] }

func Shuffle[T any](r *R, xs []T) {
	for i := len(xs) - 1; i > 0; i-- {
		j := r.N(i + 1)
		xs[i], xs[j] = xs[j], xs[i]
	}
}
