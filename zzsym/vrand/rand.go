// Package rand stands in for math/rand: every call returns an arbitrary value of its range.
package rand

import "github.com/apache/datasketches-go/internal/zzsym"

type Source interface {
	Int63() int64
	Seed(seed int64)
}
type src struct{ s uint64 }

// Int63 is arbitrary, or with zzsym.SeededRand a function of the seed and the position.
func (s *src) Int63() int64 {
	if zzsym.SeededRand {
		s.s += 0x9e3779b97f4a7c15
		x := s.s
		x = (x ^ x>>30) * 0xbf58476d1ce4e5b9
		x = (x ^ x>>27) * 0x94d049bb133111eb
		return int64((x ^ x>>31) >> 1)
	}
	return int64(zzsym.RandN(1 << 63))
}
func (s *src) Seed(v int64)    { s.s = uint64(v) }
func NewSource(v int64) Source { return &src{uint64(v)} }

type Rand struct{ src Source }

func New(s Source) *Rand { return &Rand{s} }

func (*Rand) Intn(n int) int                     { return Intn(n) }
func (*Rand) Int63n(n int64) int64               { return Int63n(n) }
func (*Rand) Int31n(n int32) int32               { return Int31n(n) }
func (r *Rand) Int63() int64                     { return r.src.Int63() }
func (r *Rand) Int() int                         { return int(r.src.Int63()) }
func (r *Rand) Uint64() uint64                   { return uint64(r.src.Int63())>>31 | uint64(r.src.Int63())<<32 }
func (*Rand) Uint32() uint32                     { return Uint32() }
func (*Rand) Float64() float64                   { return Float64() }
func (*Rand) Shuffle(n int, swap func(i, j int)) { Shuffle(n, swap) }

func Seed(int64) {}
func Intn(n int) int {
	if n <= 0 {
		panic("invalid argument to Intn")
	}
	return int(zzsym.RandN(uint64(n)))
}
func Int63n(n int64) int64 {
	if n <= 0 {
		panic("invalid argument to Int63n")
	}
	return int64(zzsym.RandN(uint64(n)))
}
func Int31n(n int32) int32 {
	if n <= 0 {
		panic("invalid argument to Int31n")
	}
	return int32(zzsym.RandN(uint64(n)))
}
func Int63() int64     { return int64(zzsym.RandN(1 << 63)) }
func Int() int         { return int(Int63()) }
func Uint32() uint32   { return uint32(zzsym.RandN(1 << 32)) }
func Uint64() uint64   { return zzsym.U64("rnd") }
func Float64() float64 { return zzsym.RandFloat() }
func Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, Intn(i+1))
	}
}
