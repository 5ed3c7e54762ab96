package simrt

// Rand is a small deterministic generator (splitmix64), one per decision stream.
type Rand struct{ s uint64 }

func NewRand(seed uint64) *Rand { return &Rand{seed} }

func Mix(a, b uint64) uint64 {
	z := a ^ (b+0x9E3779B97F4A7C15)*0xBF58476D1CE4E5B9
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

func (r *Rand) Uint64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

func (r *Rand) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.Uint64() % uint64(n))
}

func (r *Rand) Int63() int64     { return int64(r.Uint64() >> 1) }
func (r *Rand) Float() float64   { return float64(r.Uint64()>>11) / (1 << 53) }
func (r *Rand) P(p float64) bool { return p > 0 && r.Float() < p }

// Range returns a value in [lo, hi].
func (r *Rand) Range(lo, hi int) int {
	if hi <= lo {
		return lo
	}
	return lo + r.Intn(hi-lo+1)
}

// LogRange returns a value in [lo, hi] spread evenly over orders of magnitude.
func (r *Rand) LogRange(lo, hi int64) int64 {
	if lo < 1 {
		lo = 1
	}
	if hi <= lo {
		return lo
	}
	v := lo
	n := 0
	for x := lo; x < hi; x *= 2 {
		n++
	}
	v = lo << uint(r.Intn(n+1))
	if v > hi {
		v = hi
	}
	return v + r.Int63()%(v)
}

func Pick[T any](r *Rand, xs ...T) T { return xs[r.Intn(len(xs))] }
