package k

// Rand is a small PRNG (splitmix64) whose whole state is one integer.
type Rand struct{ s uint64 }

// NewRand derives a stream from a seed and a label.
func NewRand(seed uint64, label string) *Rand {
	h := uint64(14695981039346656037)
	for i := 0; i < len(label); i++ {
		h = (h ^ uint64(label[i])) * 1099511628211
	}
	r := &Rand{s: seed*0x9E3779B97F4A7C15 ^ h}
	r.U64()
	r.U64()
	return r
}

func (r *Rand) U64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// Intn returns a number in [0,n).
func (r *Rand) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// P is true with probability num/den.
func (r *Rand) P(num, den int) bool { return r.Intn(den) < num }

// Perm returns a permutation of [0,n).
func (r *Rand) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// Pick returns one of the strings.
func (r *Rand) Pick(s ...string) string { return s[r.Intn(len(s))] }
