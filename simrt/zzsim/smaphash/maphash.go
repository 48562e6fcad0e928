// Package smaphash replaces hash/maphash in the instrumented build: seeds come
// from the simulated runtime's randomness.
package smaphash

import (
	"fmt"

	sim "github.com/adamcolton/parlex/zzsim"
)

// Seed of a hash.
type Seed struct{ s uint64 }

// MakeSeed draws a seed, as different processes would.
func MakeSeed() Seed { return Seed{sim.Rand64() | 1} }

// Hash computes a seeded hash.
type Hash struct {
	seed Seed
	buf  []byte
}

func (h *Hash) init() {
	if h.seed.s == 0 {
		h.seed = MakeSeed()
	}
}

func sum(seed Seed, b []byte) uint64 {
	x := seed.s * 0x9e3779b97f4a7c15
	for _, c := range b {
		x = (x ^ uint64(c)) * 0x100000001b3
		x ^= x >> 29
	}
	x *= 0xbf58476d1ce4e5b9
	return x ^ x>>32
}

func String(seed Seed, s string) uint64 { return sum(seed, []byte(s)) }
func Bytes(seed Seed, b []byte) uint64  { return sum(seed, b) }
func Comparable[T comparable](seed Seed, v T) uint64 {
	return sum(seed, []byte(fmt.Sprintf("%T%#v", v, v)))
}
func WriteComparable[T comparable](h *Hash, v T) { h.WriteString(fmt.Sprintf("%T%#v", v, v)) }

func (h *Hash) Write(b []byte) (int, error) {
	h.init()
	h.buf = append(h.buf, b...)
	return len(b), nil
}
func (h *Hash) WriteString(s string) (int, error) {
	h.init()
	h.buf = append(h.buf, s...)
	return len(s), nil
}
func (h *Hash) WriteByte(b byte) error { h.init(); h.buf = append(h.buf, b); return nil }
func (h *Hash) Sum64() uint64          { h.init(); return sum(h.seed, h.buf) }
func (h *Hash) Reset()                 { h.init(); h.buf = nil }
func (h *Hash) Seed() Seed             { h.init(); return h.seed }
func (h *Hash) SetSeed(s Seed)         { h.seed, h.buf = s, nil }
func (h *Hash) Size() int              { return 8 }
func (h *Hash) BlockSize() int         { return 128 }
func (h *Hash) Sum(b []byte) []byte {
	x := h.Sum64()
	return append(b, byte(x>>56), byte(x>>48), byte(x>>40), byte(x>>32), byte(x>>24), byte(x>>16), byte(x>>8), byte(x))
}
