// Package simrand2 stands in for math/rand/v2.
package simrand2

import (
	"math/rand/v2"

	"verifsim/simrt"
)

type (
	Rand    = rand.Rand
	Source  = rand.Source
	PCG     = rand.PCG
	ChaCha8 = rand.ChaCha8
	Zipf    = rand.Zipf
)

type src struct{}

func (src) Uint64() uint64 { return simrt.Random() }

var r = rand.New(src{})

type intType interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}

func New(s Source) *Rand                 { return rand.New(s) }
func NewPCG(a, b uint64) *PCG            { return rand.NewPCG(a, b) }
func NewChaCha8(s [32]byte) *ChaCha8     { return rand.NewChaCha8(s) }
func Int() int                           { return r.Int() }
func IntN(n int) int                     { return r.IntN(n) }
func Int32() int32                       { return r.Int32() }
func Int32N(n int32) int32               { return r.Int32N(n) }
func Int64() int64                       { return r.Int64() }
func Int64N(n int64) int64               { return r.Int64N(n) }
func Uint() uint                         { return r.Uint() }
func UintN(n uint) uint                  { return r.UintN(n) }
func Uint32() uint32                     { return r.Uint32() }
func Uint32N(n uint32) uint32            { return r.Uint32N(n) }
func Uint64() uint64                     { return r.Uint64() }
func Uint64N(n uint64) uint64            { return r.Uint64N(n) }
func Float32() float32                   { return r.Float32() }
func Float64() float64                   { return r.Float64() }
func NormFloat64() float64               { return r.NormFloat64() }
func ExpFloat64() float64                { return r.ExpFloat64() }
func Perm(n int) []int                   { return r.Perm(n) }
func Shuffle(n int, swap func(i, j int)) { r.Shuffle(n, swap) }
func N[T intType](n T) T                 { return T(r.Uint64N(uint64(n))) }
