// Package rand replaces math/rand/v2 inside the instrumented tree: the global
// generator starts from the same state in every episode.
package rand

import r "math/rand/v2"

type (
	Rand    = r.Rand
	Source  = r.Source
	Zipf    = r.Zipf
	PCG     = r.PCG
	ChaCha8 = r.ChaCha8
)

var g = r.New(r.NewPCG(1, 1))

// Restart puts the global generator back to its first state (harness side).
func Restart() { g = r.New(r.NewPCG(1, 1)) }

func New(s Source) *Rand                               { return r.New(s) }
func NewPCG(a, b uint64) *PCG                          { return r.NewPCG(a, b) }
func NewChaCha8(seed [32]byte) *ChaCha8                { return r.NewChaCha8(seed) }
func NewZipf(x *Rand, s, v float64, imax uint64) *Zipf { return r.NewZipf(x, s, v, imax) }
func Int64() int64                                     { return g.Int64() }
func Uint32() uint32                                   { return g.Uint32() }
func Uint64() uint64                                   { return g.Uint64() }
func Uint64N(n uint64) uint64                          { return g.Uint64N(n) }
func Uint32N(n uint32) uint32                          { return g.Uint32N(n) }
func Uint() uint                                       { return g.Uint() }
func UintN(n uint) uint                                { return g.UintN(n) }
func Int32() int32                                     { return g.Int32() }
func Int() int                                         { return g.Int() }
func Int64N(n int64) int64                             { return g.Int64N(n) }
func Int32N(n int32) int32                             { return g.Int32N(n) }
func IntN(n int) int                                   { return g.IntN(n) }
func Float64() float64                                 { return g.Float64() }
func Float32() float32                                 { return g.Float32() }
func NormFloat64() float64                             { return g.NormFloat64() }
func ExpFloat64() float64                              { return g.ExpFloat64() }
func Perm(n int) []int                                 { return g.Perm(n) }
func Shuffle(n int, swap func(i, j int))               { g.Shuffle(n, swap) }

// N is rand.N.
func N[I interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}](n I) I {
	return I(g.Uint64N(uint64(n)))
}
