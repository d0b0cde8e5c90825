// Package simmaphash replaces hash/maphash in the code under test: seeds come from the run's environment PRNG.
package simmaphash

import (
	"fmt"

	"vsim/simrt"
)

type Seed struct{ s uint64 }

func MakeSeed() Seed { return Seed{simrt.EnvU64() | 1} }

func sum(seed Seed, b string) uint64 {
	if seed.s == 0 {
		panic("maphash: use of uninitialized Seed")
	}
	h := seed.s ^ 14695981039346656037
	for i := 0; i < len(b); i++ {
		h = (h ^ uint64(b[i])) * 1099511628211
	}
	h ^= h >> 32
	h *= 0x9e3779b97f4a7c15
	return h ^ h>>29
}

func String(seed Seed, s string) uint64 { return sum(seed, s) }
func Bytes(seed Seed, b []byte) uint64  { return sum(seed, string(b)) }

func Comparable[T comparable](seed Seed, v T) uint64 { return sum(seed, fmt.Sprintf("%T %#v", v, v)) }

func WriteComparable[T comparable](h *Hash, x T) { h.WriteString(fmt.Sprintf("%T %#v", x, x)) }

// Hash replaces maphash.Hash.
type Hash struct {
	seed Seed
	b    []byte
}

func (h *Hash) init() {
	if h.seed.s == 0 {
		h.seed = MakeSeed()
	}
}
func (h *Hash) Seed() Seed                  { h.init(); return h.seed }
func (h *Hash) SetSeed(s Seed)              { h.seed = s; h.b = nil }
func (h *Hash) Reset()                      { h.init(); h.b = h.b[:0] }
func (h *Hash) Write(b []byte) (int, error) { h.init(); h.b = append(h.b, b...); return len(b), nil }
func (h *Hash) WriteString(s string) (int, error) {
	h.init()
	h.b = append(h.b, s...)
	return len(s), nil
}
func (h *Hash) WriteByte(b byte) error { h.init(); h.b = append(h.b, b); return nil }
func (h *Hash) Sum64() uint64          { h.init(); return sum(h.seed, string(h.b)) }
func (h *Hash) Size() int              { return 8 }
func (h *Hash) BlockSize() int         { return 128 }
func (h *Hash) Sum(b []byte) []byte {
	x := h.Sum64()
	for i := 56; i >= 0; i -= 8 {
		b = append(b, byte(x>>i))
	}
	return b
}
