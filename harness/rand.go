package main

import "math"

// Rand is a small deterministic PRNG (splitmix64); every random choice of
// every case comes from one, seeded by (VERIF_SEED, engine, case index).
type Rand struct{ s uint64 }

func newRand(seed uint64) *Rand { return &Rand{s: seed} }

func (r *Rand) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *Rand) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// Range returns a value in [lo, hi]
func (r *Rand) Range(lo, hi int) int { return lo + r.Intn(hi-lo+1) }

func (r *Rand) Bool() bool { return r.U64()&1 == 1 }

// P is true with probability pct percent
func (r *Rand) P(pct int) bool { return r.Intn(100) < pct }

func (r *Rand) Str(list []string) string { return list[r.Intn(len(list))] }

func (r *Rand) Fork() *Rand { return newRand(r.U64()) }

// F64 returns a finite float from a wide mix of distributions
func (r *Rand) F64() float64 {
	for {
		var f float64
		switch r.Intn(9) {
		case 0:
			f = math.Float64frombits(r.U64())
		case 1:
			f = float64(int64(r.U64()))
		case 2:
			f = float64(r.Intn(2000) - 1000)
		case 3:
			f = float64(r.Intn(200000)-100000) / 1000
		case 4:
			f = math.Pow(10, float64(r.Intn(640)-330))
		case 5:
			f = math.Pow(2, float64(r.Intn(2100)-1075))
		case 6:
			f = []float64{0, math.Copysign(0, -1), 1e21, 1e20, 999999999999999999999, 1e-6, 9.999999e-7, 1e-7, math.MaxFloat64, math.SmallestNonzeroFloat64,
				math.MaxFloat32, math.SmallestNonzeroFloat32, 1 << 53, 1<<53 + 1, 1<<63 - 1, -(1 << 63), 2.2250738585072014e-308, 2.2250738585072011e-308, 5e-324, 1e22, 1e23, 0.1, 1e-10, 1e9, 1e-9}[r.Intn(25)]
		case 7:
			f = math.Float64frombits(uint64(r.Intn(2047))<<52 | uint64(r.Intn(4)))
		case 8:
			f = float64(r.Intn(1000000)) * math.Pow(10, float64(r.Intn(40)-20))
		}
		if r.P(30) {
			f = -f
		}
		if !math.IsNaN(f) && !math.IsInf(f, 0) {
			return f
		}
	}
}

func (r *Rand) F32() float32 {
	for {
		var f float32
		switch r.Intn(5) {
		case 0:
			f = math.Float32frombits(uint32(r.U64()))
		case 1:
			f = float32(r.F64())
		case 2:
			f = float32(r.Intn(2000)-1000) / 8
		case 3:
			f = math.Float32frombits(uint32(r.Intn(255))<<23 | uint32(r.Intn(4)))
		case 4:
			f = []float32{0, 1e21, 1e20, 1e-6, 9.999999e-7, 1e-7, math.MaxFloat32, math.SmallestNonzeroFloat32, 1 << 24, 0.1, 3.4e38, 1e9, 1e-9, 1e-10}[r.Intn(14)]
		}
		if r.P(30) {
			f = -f
		}
		if f == f && !math.IsInf(float64(f), 0) {
			return f
		}
	}
}

func hash64(b []byte) uint64 {
	h := uint64(14695981039346656037)
	for _, c := range b {
		h ^= uint64(c)
		h *= 1099511628211
	}
	h ^= h >> 29
	h *= 0xbf58476d1ce4e5b9
	return h ^ h>>32
}

func hashStr(s string) uint64 { return hash64([]byte(s)) }

func mix(a, b uint64) uint64 {
	r := Rand{s: a ^ (b * 0x9e3779b97f4a7c15)}
	return r.U64()
}
