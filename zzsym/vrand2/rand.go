// Package rand stands in for math/rand/v2.
package rand

import "github.com/apache/datasketches-go/internal/zzsym"

type Source interface{ Uint64() uint64 }
type PCG struct{}

func NewPCG(_, _ uint64) *PCG { return &PCG{} }
func (*PCG) Uint64() uint64   { return zzsym.U64("rnd") }

type Rand struct{}

func New(_ Source) *Rand           { return &Rand{} }
func (*Rand) IntN(n int) int       { return IntN(n) }
func (*Rand) Int64N(n int64) int64 { return Int64N(n) }
func (*Rand) Uint64() uint64       { return zzsym.U64("rnd") }
func (*Rand) Float64() float64     { return Float64() }

func IntN(n int) int {
	if n <= 0 {
		panic("invalid argument to IntN")
	}
	return int(zzsym.RandN(uint64(n)))
}
func N[T ~int | ~int64 | ~int32 | ~uint | ~uint64 | ~uint32](n T) T { return T(zzsym.RandN(uint64(n))) }
func Int64N(n int64) int64 {
	if n <= 0 {
		panic("invalid argument to Int64N")
	}
	return int64(zzsym.RandN(uint64(n)))
}
func Uint32() uint32   { return uint32(zzsym.RandN(1 << 32)) }
func Uint64() uint64   { return zzsym.U64("rnd") }
func Float64() float64 { return zzsym.RandFloat() }
