// Package smrand stands in for the global functions of math/rand.
package smrand

import (
	"math"

	"github.com/jart/gosip/zsim/rt"
)

func Uint64() uint64 { return rt.S.Ident.Next() }
func Uint32() uint32 { return uint32(Uint64() >> 32) }
func Int63() int64   { return int64(Uint64() >> 1) }
func Int31() int32   { return int32(Uint64() >> 33) }
func Int() int       { return int(Uint64() >> 1) }
func Int63n(n int64) int64 {
	if n <= 0 {
		panic("invalid argument to Int63n")
	}
	return Int63() % n
}
func Int31n(n int32) int32 {
	if n <= 0 {
		panic("invalid argument to Int31n")
	}
	return Int31() % n
}
func Intn(n int) int {
	if n <= 0 {
		panic("invalid argument to Intn")
	}
	return Int() % n
}
func Float64() float64 { return float64(Uint64()>>11) / (1 << 53) }
func Float32() float32 { return float32(Uint64()>>40) / (1 << 24) }
func NormFloat64() float64 {
	return math.Sqrt(-2*math.Log(1-Float64())) * math.Cos(2*math.Pi*Float64())
}
func ExpFloat64() float64 { return -math.Log(1 - Float64()) }
func Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		j := Intn(i + 1)
		p[i] = p[j]
		p[j] = i
	}
	return p
}
func Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, Intn(i+1))
	}
}
func Seed(int64) {}
func Read(b []byte) (int, error) {
	for i := range b {
		b[i] = byte(Uint64() >> 32)
	}
	return len(b), nil
}

// The names of math/rand/v2.

func Int64() int64            { return Int63() }
func Int32() int32            { return Int31() }
func Uint() uint              { return uint(Uint64()) }
func IntN(n int) int          { return Intn(n) }
func Int64N(n int64) int64    { return Int63n(n) }
func Int32N(n int32) int32    { return Int31n(n) }
func UintN(n uint) uint       { return uint(Uint64N(uint64(n))) }
func Uint32N(n uint32) uint32 { return uint32(Uint64N(uint64(n))) }
func Uint64N(n uint64) uint64 {
	if n == 0 {
		panic("invalid argument to Uint64N")
	}
	return Uint64() % n
}
func N[T ~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64](n T) T {
	if n <= 0 {
		panic("invalid argument to N")
	}
	return T(Uint64() % uint64(n))
}
