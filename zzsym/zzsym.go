// Package zzsym is the harness API. Under the symbolic executor every function marked
// "engine" is intercepted; natively the same functions read the recorded inputs of one
// execution, so that a harness replays a solver model against the real code.
package zzsym

import (
	"fmt"
	"math"
	"runtime"
)

// ---- native replay state (unused by the engine)

type replayState struct {
	In      []uint64
	Pos     int
	Obs     []uint64
	Fails   []string
	Covers  map[string]int
	Skipped bool
	Short   bool
}

var R replayState

type AssumeFailed struct{}

func Begin(in []uint64) {
	R = replayState{In: in, Covers: map[string]int{}}
	resetHash()
	Coin = CoinFree
	Script, Flips = 0, 0
	ResetDigits()
	floats = 0
	FloatRand, floats = FloatFree, 0
	SeededRand = false
}

func next() uint64 {
	if R.Pos >= len(R.In) {
		R.Short = true
		R.Pos++
		return 0
	}
	v := R.In[R.Pos]
	R.Pos++
	return v
}

// Nondet is an arbitrary w-bit value (engine).
func Nondet(name string, w int) uint64 {
	v := next()
	if w < 64 {
		v &= 1<<uint(w) - 1
	}
	return v
}

// Assume restricts the inputs (engine).
func Assume(c bool) {
	if !c {
		R.Skipped = true
		panic(AssumeFailed{})
	}
}

// Assert states the property (engine).
func Assert(c bool, label string) {
	if !c {
		R.Fails = append(R.Fails, label)
	}
}

// Cover marks a situation that must be reachable (engine).
func Cover(label string) { R.Covers[label]++ }

// Observe records a value for comparing symbolic and native executions (engine).
func Observe(v uint64) { R.Obs = append(R.Obs, v) }

// Concretize forks over the feasible values (engine).
func Concretize(v uint64) uint64 { return v }

// IsConcrete tells whether the value is not symbolic (engine; natively true).
func IsConcrete(v uint64) bool { return true }

// Merging switches if-conversion on or off for the following code (engine).
func Merging(on bool) {}

// And, Or, Implies, Ite, IteF do not fork on symbolic conditions (engine).
func And(a, b bool) bool     { return a && b }
func Or(a, b bool) bool      { return a || b }
func Implies(a, b bool) bool { return !a || b }
func Iff(a, b bool) bool     { return a == b }
func Ite(c bool, a, b uint64) uint64 {
	if c {
		return a
	}
	return b
}
func IteB(c bool, a, b bool) bool {
	if c {
		return a
	}
	return b
}

// B2U is 1 for true (engine).
func B2U(c bool) uint64 {
	if c {
		return 1
	}
	return 0
}

// ---- derived

func U64(name string) uint64 { return Nondet(name, 64) }
func U32(name string) uint32 { return uint32(Nondet(name, 32)) }
func U16(name string) uint16 { return uint16(Nondet(name, 16)) }
func U8(name string) uint8   { return uint8(Nondet(name, 8)) }
func I64(name string) int64  { return int64(Nondet(name, 64)) }
func I32(name string) int32  { return int32(Nondet(name, 32)) }
func Bool(name string) bool  { return Nondet(name, 1) == 1 }
func Bytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(Nondet(name, 8))
	}
	return b
}

// Range is an arbitrary value in [lo,hi], symbolic.
func Range(name string, lo, hi int) int {
	v := int(Nondet(name, 64))
	Assume(v >= lo)
	Assume(v <= hi)
	return v
}

// Between is an arbitrary w-bit value in [lo,hi], whose bounds the engine keeps in mind (engine).
func Between(name string, w int, lo, hi uint64) uint64 {
	v := Nondet(name, w)
	Assume(v >= lo)
	Assume(v <= hi)
	return v
}

// AmongF32 is an arbitrary 32-bit float (not NaN), of which each path knows how it compares to every
// one of the given values.
func AmongF32(name string, vals []float32) float32 {
	const top = 1 << 31
	ks := []uint64{0, 0x7f800000, top, top + 0x7f800000}
	for _, v := range vals {
		k := uint64(math.Float32bits(v))
		dup := false
		for _, o := range ks {
			dup = dup || o == k
		}
		if !dup {
			ks = append(ks, k)
		}
	}
	for i := range ks {
		for j := i; j > 0 && ks[j] < ks[j-1]; j-- {
			ks[j], ks[j-1] = ks[j-1], ks[j]
		}
	}
	var iv [][2]uint64
	for i, k := range ks {
		iv = append(iv, [2]uint64{k, k})
		if i+1 < len(ks) && ks[i+1] != top && ks[i+1] > k+1 {
			iv = append(iv, [2]uint64{k + 1, ks[i+1] - 1})
		}
	}
	c := iv[Choose(name+"-place", len(iv))]
	return math.Float32frombits(uint32(Between(name, 32, c[0], c[1])))
}

// AmongF64 is AmongF32 for 64-bit floats.
func AmongF64(name string, vals []float64) float64 {
	const top, inf = 1 << 63, 0x7ff << 52
	ks := []uint64{0, inf, top, top + inf}
	for _, v := range vals {
		k := math.Float64bits(v)
		dup := false
		for _, o := range ks {
			dup = dup || o == k
		}
		if !dup {
			ks = append(ks, k)
		}
	}
	for i := range ks {
		for j := i; j > 0 && ks[j] < ks[j-1]; j-- {
			ks[j], ks[j-1] = ks[j-1], ks[j]
		}
	}
	var iv [][2]uint64
	for i, k := range ks {
		iv = append(iv, [2]uint64{k, k})
		if i+1 < len(ks) && ks[i+1] != top && ks[i+1] > k+1 {
			iv = append(iv, [2]uint64{k + 1, ks[i+1] - 1})
		}
	}
	c := iv[Choose(name+"-place", len(iv))]
	return math.Float64frombits(Between(name, 64, c[0], c[1]))
}

// Choose is an arbitrary value in [0,n), concrete on each path.
func Choose(name string, n int) int {
	v := Nondet(name, 64)
	Assume(v < uint64(n))
	return int(Concretize(v))
}

// Try runs f and reports whether it panicked.
func Try(f func()) (panicked bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(AssumeFailed); ok {
				panic(r)
			}
			panicked = true
		}
	}()
	f()
	return false
}

func allocLimit(n int) {}

func allocated() uint64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.TotalAlloc
}

// Bounded runs f and asserts that it allocates no more than limit elements at a time (engine) or
// limit bytes (natively).
func Bounded(limit int, f func()) {
	before := allocated()
	allocLimit(limit)
	f()
	allocLimit(0)
	Assert(allocated()-before <= uint64(limit), "memory is allocated in proportion to the input")
}

// Msg formats (native only; opaque in the engine).
func Msg(a ...any) string { return fmt.Sprint(a...) }

// ---- abstract hash functions

// HashFree makes every hash function of the library return arbitrary values: one fresh
// arbitrary result per distinct (content, seed), equal for equal content.
var HashFree bool

type hashEnt struct {
	kind   int
	key    []byte
	seed   uint64
	h1, h2 uint64
}

var hashMemo []hashEnt

// HashGen, when set, yields the hash of a key not seen before.
var HashGen func(kind int, key []byte, seed uint64) (uint64, uint64)

func resetHash() { HashFree = false; hashMemo = nil; HashGen = nil }

// AbsHash returns the memoized arbitrary hash.
func AbsHash(kind int, key []byte, seed uint64) (uint64, uint64) {
	for i := range hashMemo {
		e := &hashMemo[i]
		if e.kind != kind || e.seed != seed || len(e.key) != len(key) {
			continue
		}
		same := true
		for j := range key {
			if e.key[j] != key[j] {
				same = false
				break
			}
		}
		if same {
			return e.h1, e.h2
		}
	}
	var h1, h2 uint64
	if HashGen != nil {
		h1, h2 = HashGen(kind, key, seed)
	} else {
		h1 = Nondet("h1", 64)
		h2 = Nondet("h2", 64)
	}
	hashMemo = append(hashMemo, hashEnt{kind, append([]byte{}, key...), seed, h1, h2})
	return h1, h2
}

// PresetHash fixes the hash of a key in abstract mode.
func PresetHash(kind int, key []byte, seed, h1, h2 uint64) {
	hashMemo = append(hashMemo, hashEnt{kind, append([]byte{}, key...), seed, h1, h2})
}

// LE8 is the little-endian encoding of v.
func LE8(v uint64) []byte {
	return []byte{byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24), byte(v >> 32), byte(v >> 40), byte(v >> 48), byte(v >> 56)}
}

func HashInt64Slice(key []int64, off, n int, seed uint64) (uint64, uint64) {
	var b []byte
	for _, k := range key[off : off+n] {
		b = append(b, LE8(uint64(k))...)
	}
	return AbsHash(0, b, seed)
}

func HashInt32Slice(key []int32, off, n int, seed uint64) (uint64, uint64) {
	var b []byte
	for _, k := range key[off : off+n] {
		b = append(b, byte(k), byte(k>>8), byte(k>>16), byte(k>>24))
	}
	return AbsHash(0, b, seed)
}

func HashBytes(key []byte, off, n int, seed uint64) (uint64, uint64) {
	return AbsHash(0, key[off:off+n], seed)
}

func HashChars(key []byte, off, n int, seed uint64) (uint64, uint64) {
	return AbsHash(1, key[off:off+n], seed)
}

// ---- randomness

// SeededRand makes seeded math/rand generators a function of their seed.
var SeededRand bool

type CoinMode int

const (
	CoinFree   CoinMode = iota // every outcome
	CoinZero                   // always 0
	CoinOne                    // always n-1
	CoinFork                   // every outcome, concrete on each path
	CoinScript                 // the next bit of Script, 0 when it has run out
	CoinDigits                 // the next digit of the odometer, see NextDigits
)

// Coin controls how integer randomness is resolved.
var Coin CoinMode

// Script holds the outcomes of CoinScript, lowest bit first; Flips counts those used.
var (
	Script uint64
	Flips  int
)

type FloatMode int

const (
	FloatFree   FloatMode = iota
	FloatHalf             // 0.5
	FloatLow              // 2^-20
	FloatHigh             // 1-2^-20
	FloatFork             // the middle of each of FloatCells cells of [0,1), concrete on each path
	FloatDigits           // the middle of the cell of [0,1) given by the next digit of the odometer, of FloatCells cells
)

var FloatCells uint64

// digits is an odometer over all outcomes of a run: digit i counts to radix[i].
var digits, radix []uint64
var digit int

// ResetDigits goes to the first outcome.
func ResetDigits() { digits, radix, digit = nil, nil, 0 }

// NextDigits goes to the next outcome, false when there is none. An outcome has probability
// 1 over the product of the radices.
func NextDigits() bool {
	digits, radix, digit = digits[:digit], radix[:digit], 0
	for i := len(digits) - 1; i >= 0; i-- {
		if digits[i]++; digits[i] < radix[i] {
			digits, radix = digits[:i+1], radix[:i+1]
			return true
		}
	}
	return false
}

// Outcomes is the product of the radices of the current outcome.
func Outcomes() uint64 {
	p := uint64(1)
	for i := 0; i < digit; i++ {
		p *= radix[i]
	}
	return p
}

func nextDigit(n uint64) uint64 {
	if digit == len(digits) {
		digits, radix = append(digits, 0), append(radix, n)
	}
	digit++
	return digits[digit-1]
}

var FloatRand FloatMode

// RandN is an arbitrary value in [0,n).
func RandN(n uint64) uint64 {
	switch Coin {
	case CoinZero:
		return 0
	case CoinOne:
		return n - 1
	case CoinFork:
		if n <= 64 {
			return uint64(Choose("coin", int(n)))
		}
	case CoinDigits:
		return nextDigit(n)
	case CoinScript:
		Flips++
		b := Script & 1
		Script >>= 1
		if b == 1 {
			return n - 1
		}
		return 0
	}
	v := Nondet("rnd", 64)
	Assume(v < n)
	return v
}

// floats counts the free real random numbers.
var floats int

// RandFloat is an arbitrary float64 in [0,1) that is at least 2^-53; the first may be zero.
func RandFloat() float64 {
	switch FloatRand {
	case FloatHalf:
		return 0.5
	case FloatLow:
		return 1.0 / (1 << 20)
	case FloatHigh:
		return 1 - 1.0/(1<<20)
	}
	if FloatRand == FloatFork {
		return (float64(Choose("rndf", int(FloatCells))) + 0.5) / float64(FloatCells)
	}
	if FloatRand == FloatDigits {
		return (float64(nextDigit(FloatCells)) + 0.5) / float64(FloatCells)
	}
	f := F64("rndf")
	Assume(f < 1)
	Assume(Or(And(f == 0, floats == 0), f >= 1.0/(1<<53)))
	floats++
	return f
}
