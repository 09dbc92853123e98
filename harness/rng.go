package main

import (
	"hash/fnv"
	"math"
	"math/rand/v2"
)

// R is the generator's source of choices.
type R struct{ *rand.Rand }

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func newR(seed int64, prop string, index int) *R {
	h := fnv.New64a()
	h.Write([]byte(prop))
	a := mix(uint64(seed) ^ 0x5bd1e995)
	return &R{rand.New(rand.NewPCG(a^h.Sum64(), mix(uint64(index)+a)))}
}

// N is a number in [0,n).
func (r *R) N(n int) int {
	if n <= 1 {
		return 0
	}
	return r.IntN(n)
}

// Range is a number in [lo,hi].
func (r *R) Range(lo, hi int) int { return lo + r.N(hi-lo+1) }

// P is true with probability p percent.
func (r *R) P(p int) bool { return r.IntN(100) < p }

// Pick chooses an index by weight.
func (r *R) Pick(w ...int) int {
	s := 0
	for _, x := range w {
		s += x
	}
	k := r.IntN(s)
	for i, x := range w {
		if k < x {
			return i
		}
		k -= x
	}
	return len(w) - 1
}

func pick[E any](r *R, xs ...E) E { return xs[r.IntN(len(xs))] }

var edges = []int64{0, 1, -1, 2, -2, 7, 8, -8, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769,
	65535, 65536, math.MaxInt32, math.MaxInt32 + 1, math.MinInt32, math.MinInt32 - 1, math.MaxUint32, math.MaxUint32 + 1,
	math.MaxInt64, math.MinInt64, math.MaxInt64 - 1, math.MinInt64 + 1, 1 << 40, -(1 << 40)}

// Int64 is a boundary-biased 64 bit number.
func (r *R) Int64() int64 {
	switch r.Pick(3, 3, 2, 2) {
	case 0:
		return edges[r.N(len(edges))]
	case 1:
		return int64(r.Range(-20, 20))
	case 2:
		return int64(r.Uint64()) >> uint(r.N(64))
	}
	return edges[r.N(len(edges))] + int64(r.Range(-3, 3))
}
