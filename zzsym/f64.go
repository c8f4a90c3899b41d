package zzsym

import "math"

// F64 is an arbitrary float64 bit pattern.
func F64(name string) float64 { return math.Float64frombits(Nondet(name, 64)) }

// F32 is an arbitrary float32 bit pattern.
func F32(name string) float32 { return math.Float32frombits(uint32(Nondet(name, 32))) }

// Small is an arbitrary float64 holding an integer in [0,n).
func SmallF(name string, n int) float64 {
	v := Nondet(name, 16)
	Assume(v < uint64(n))
	return float64(v)
}
