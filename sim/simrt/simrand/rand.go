// Package simrand replaces math/rand in the code under test: top-level functions draw from the run's environment PRNG.
package simrand

import (
	"math/rand"

	"vsim/simrt"
)

type (
	Rand     = rand.Rand
	Source   = rand.Source
	Source64 = rand.Source64
	Zipf     = rand.Zipf
)

type src struct{}

func (src) Seed(int64)     {}
func (src) Uint64() uint64 { return simrt.EnvU64() }
func (src) Int63() int64   { return int64(simrt.EnvU64() >> 1) }

func r() *rand.Rand { return rand.New(src{}) }

func New(s Source) *Rand                               { return rand.New(s) }
func NewSource(seed int64) Source                      { return rand.NewSource(seed) }
func Seed(int64)                                       {}
func Int() int                                         { return r().Int() }
func Intn(n int) int                                   { return r().Intn(n) }
func Int31() int32                                     { return r().Int31() }
func Int31n(n int32) int32                             { return r().Int31n(n) }
func Int63() int64                                     { return r().Int63() }
func Int63n(n int64) int64                             { return r().Int63n(n) }
func Uint32() uint32                                   { return r().Uint32() }
func Uint64() uint64                                   { return r().Uint64() }
func Float32() float32                                 { return r().Float32() }
func Float64() float64                                 { return r().Float64() }
func NormFloat64() float64                             { return r().NormFloat64() }
func ExpFloat64() float64                              { return r().ExpFloat64() }
func Perm(n int) []int                                 { return r().Perm(n) }
func Read(p []byte) (int, error)                       { return r().Read(p) }
func NewZipf(x *Rand, s, v float64, imax uint64) *Zipf { return rand.NewZipf(x, s, v, imax) }
func Shuffle(n int, swap func(i, j int))               { r().Shuffle(n, swap) }
