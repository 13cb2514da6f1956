// Package simrand stands in for math/rand: the shared source is seeded by the
// simulator, and is another one in every execution.
package simrand

import (
	"math/rand"

	"verifsim/simrt"
)

type (
	Rand     = rand.Rand
	Source   = rand.Source
	Source64 = rand.Source64
	Zipf     = rand.Zipf
)

type src struct{}

func (src) Int63() int64   { return int64(simrt.Random() >> 1) }
func (src) Uint64() uint64 { return simrt.Random() }
func (src) Seed(int64)     {}

var r = rand.New(src{})

func New(s Source) *Rand                               { return rand.New(s) }
func NewSource(n int64) Source                         { return rand.NewSource(n) }
func NewZipf(r *Rand, s, v float64, imax uint64) *Zipf { return rand.NewZipf(r, s, v, imax) }
func Seed(int64)                                       {}
func Int() int                                         { return r.Int() }
func Intn(n int) int                                   { return r.Intn(n) }
func Int31() int32                                     { return r.Int31() }
func Int31n(n int32) int32                             { return r.Int31n(n) }
func Int63() int64                                     { return r.Int63() }
func Int63n(n int64) int64                             { return r.Int63n(n) }
func Uint32() uint32                                   { return r.Uint32() }
func Uint64() uint64                                   { return r.Uint64() }
func Float32() float32                                 { return r.Float32() }
func Float64() float64                                 { return r.Float64() }
func NormFloat64() float64                             { return r.NormFloat64() }
func ExpFloat64() float64                              { return r.ExpFloat64() }
func Perm(n int) []int                                 { return r.Perm(n) }
func Shuffle(n int, swap func(i, j int))               { r.Shuffle(n, swap) }
func Read(p []byte) (int, error)                       { return r.Read(p) }
