package main

// One integer decides everything.  Every random choice of a run is drawn from
// an RNG seeded by the run's seed, which is itself derived from VERIF_SEED.

import (
	"hash/fnv"
	_ "unsafe" // for go:linkname
)

// RNG is splitmix64.
type RNG struct{ s uint64 }

func NewRNG(seed uint64) *RNG { return &RNG{s: seed} }

func mix64(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *RNG) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	return mix64(r.s)
}

// Intn returns a number in [0,n).
func (r *RNG) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

func (r *RNG) I64n(n int64) int64 {
	if n <= 0 {
		return 0
	}
	return int64(r.U64() % uint64(n))
}

// Range returns a number in [lo,hi].
func (r *RNG) Range(lo, hi int) int { return lo + r.Intn(hi-lo+1) }

// P is true with probability pct percent.
func (r *RNG) P(pct int) bool { return r.Intn(100) < pct }

// Fork derives an independent generator.
func (r *RNG) Fork() *RNG { return NewRNG(r.U64()) }

func pick[T any](r *RNG, xs ...T) T { return xs[r.Intn(len(xs))] }

func seedFor(base uint64, prop string, idx int) uint64 {
	h := fnv.New64a()
	h.Write([]byte(prop))
	return mix64(mix64(base+0x51ed27) ^ h.Sum64() ^ mix64(uint64(idx)*0x9e3779b97f4a7c15+1))
}

// verifMapState belongs to the simulator's copy of the Go runtime (see
// build.sh): it decides where every map iteration starts and how maps hash.
//
//go:linkname verifMapState runtime.verifMapState
var verifMapState uint64

// seedMaps puts map iteration order under the control of the run's seed.
func seedMaps(seed uint64) {
	if seed == 0 {
		seed = 1
	}
	verifMapState = seed
}
