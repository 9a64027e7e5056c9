package main

// Small deterministic PRNG (splitmix64), so cases replay identically on any
// toolchain.
type RNG struct{ s uint64 }

func mix(z uint64) uint64 {
	z ^= z >> 30
	z *= 0xbf58476d1ce4e5b9
	z ^= z >> 27
	z *= 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return mix(h)
}

func hashBytes(b []byte) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(b); i++ {
		h ^= uint64(b[i])
		h *= 1099511628211
	}
	return mix(h)
}

func (r *RNG) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	return mix(r.s)
}

// Intn returns a value in [0, n).
func (r *RNG) Intn(n int) int {
	if n <= 0 {
		panic("RNG.Intn: n <= 0")
	}
	return int(r.U64() % uint64(n))
}

// Range returns a value in [a, b].
func (r *RNG) Range(a, b int) int { return a + r.Intn(b-a+1) }
func (r *RNG) Bool() bool         { return r.U64()&1 == 1 }
func (r *RNG) OneIn(n int) bool   { return r.Intn(n) == 0 }
func (r *RNG) Byte() byte         { return byte(r.U64()) }
func (r *RNG) Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = r.Byte()
	}
	return b
}
func (r *RNG) Fork() *RNG { return &RNG{r.U64()} }

func pick[T any](r *RNG, s []T) T { return s[r.Intn(len(s))] }

func (r *RNG) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// Skew returns small values most of the time, but anything up to max.
func (r *RNG) Skew(max int) int {
	if max <= 0 {
		return 0
	}
	switch r.Intn(8) {
	case 0:
		return r.Intn(max + 1)
	case 1:
		return max - r.Intn(min(max, 2)+1)
	case 2:
		return min(max, r.Intn(40))
	default:
		return min(max, r.Intn(7))
	}
}
