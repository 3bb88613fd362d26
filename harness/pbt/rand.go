// Package pbt is a small property-based testing runner: generators driven by a
// seeded PRNG produce pure-data scenarios, workers execute them in separate
// processes, and failures are shrunk by a generic shrinker on their JSON form.
package pbt

import (
	"hash/fnv"
)

// R is the generator's source of randomness (splitmix64)
type R struct {
	s uint64
	// Size grows from 0 to 1 over the run: early cases are small
	Size float64
}

// NewR seeds by any number of parts
func NewR(parts ...any) *R {
	h := fnv.New64a()
	for _, p := range parts {
		switch v := p.(type) {
		case string:
			h.Write([]byte(v))
		case int:
			u := uint64(v)
			for i := 0; i < 8; i++ {
				h.Write([]byte{byte(u >> (8 * i))})
			}
		case uint64:
			for i := 0; i < 8; i++ {
				h.Write([]byte{byte(v >> (8 * i))})
			}
		}
		h.Write([]byte{0xff})
	}
	return &R{s: h.Sum64(), Size: 1}
}

// U64 is a random word
func (r *R) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Intn in [0,n)
func (r *R) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// Range in [lo,hi]
func (r *R) Range(lo, hi int) int {
	if hi <= lo {
		return lo
	}
	return lo + r.Intn(hi-lo+1)
}

// N is a count in [lo,hi], scaled by the size of the run, with a bias to small values
func (r *R) N(lo, hi int) int {
	top := lo + int(float64(hi-lo)*r.Size+0.999)
	if top > hi {
		top = hi
	}
	if r.Intn(3) == 0 {
		mid := lo + (top-lo)/4
		return r.Range(lo, mid)
	}
	return r.Range(lo, top)
}

// P is true with probability num/den
func (r *R) P(num, den int) bool { return r.Intn(den) < num }

// Pick one of the values
func Pick[T any](r *R, vs ...T) T { return vs[r.Intn(len(vs))] }

// W is a weighted choice of an index
func (r *R) W(ws ...int) int {
	t := 0
	for _, w := range ws {
		t += w
	}
	k := r.Intn(t)
	for i, w := range ws {
		if k < w {
			return i
		}
		k -= w
	}
	return 0
}

// Len draws a payload length with weight on the sizes where buffers end
func (r *R) Len(max int) int {
	var n int
	switch r.W(3, 6, 3, 2, 2, 1, 1) {
	case 0:
		n = Pick(r, 0, 0, 1, 2)
	case 1:
		n = r.Range(0, 64)
	case 2:
		n = Pick(r, 11, 12, 13, 15, 16, 17, 1006, 1007, 1008, 1009, 1023, 1024, 1025, 1039, 1040, 1041)
	case 3:
		n = r.Range(65, 3000)
	case 4:
		n = Pick(r, 2047, 2048, 2049, 4080, 4095, 4096, 4097, 8191, 8193)
	case 5:
		n = r.Range(3000, 70000)
	case 6:
		n = Pick(r, 65519, 65520, 65535, 65536, 65537, 131072, 262144)
	}
	if n > max {
		n = r.Range(0, max)
	}
	return n
}

// Bytes are the deterministic payload bytes of (n, seed)
func Bytes(n int, seed uint64) []byte {
	if n < 0 {
		n = 0
	}
	b := make([]byte, n)
	x := &R{s: seed*0x9e3779b97f4a7c15 + 12345}
	for i := 0; i < n; {
		v := x.U64()
		for k := 0; k < 8 && i < n; k++ {
			b[i] = byte(v >> (8 * k))
			i++
		}
	}
	return b
}
