// Package rand replaces math/rand inside the instrumented tree: the global
// generator starts from the same state in every episode.
package rand

import r "math/rand"

type (
	Rand     = r.Rand
	Source   = r.Source
	Source64 = r.Source64
	Zipf     = r.Zipf
)

var g = r.New(r.NewSource(1))

// Restart puts the global generator back to its first state (harness side).
func Restart() { g = r.New(r.NewSource(1)) }

func New(s Source) *Rand                               { return r.New(s) }
func NewSource(seed int64) Source                      { return r.NewSource(seed) }
func NewZipf(x *Rand, s, v float64, imax uint64) *Zipf { return r.NewZipf(x, s, v, imax) }
func Seed(seed int64)                                  { g.Seed(seed) }
func Int63() int64                                     { return g.Int63() }
func Uint32() uint32                                   { return g.Uint32() }
func Uint64() uint64                                   { return g.Uint64() }
func Int31() int32                                     { return g.Int31() }
func Int() int                                         { return g.Int() }
func Int63n(n int64) int64                             { return g.Int63n(n) }
func Int31n(n int32) int32                             { return g.Int31n(n) }
func Intn(n int) int                                   { return g.Intn(n) }
func Float64() float64                                 { return g.Float64() }
func Float32() float32                                 { return g.Float32() }
func NormFloat64() float64                             { return g.NormFloat64() }
func ExpFloat64() float64                              { return g.ExpFloat64() }
func Perm(n int) []int                                 { return g.Perm(n) }
func Shuffle(n int, swap func(i, j int))               { g.Shuffle(n, swap) }
func Read(p []byte) (n int, err error)                 { return g.Read(p) }
