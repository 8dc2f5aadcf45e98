package main

import (
	"encoding/binary"

	"pgregory.net/rapid"
)

// splitmix expands a drawn 64-bit seed into a deterministic stream. It is used only to
// expand "bulk" operations, whose parameters are drawn (and shrunk) by rapid.
type splitmix uint64

func (s *splitmix) next() uint64 {
	*s += 0x9E3779B97F4A7C15
	z := uint64(*s)
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

func (s *splitmix) intn(n int) int { return int(s.next() % uint64(n)) }

// be writes v big-endian into the last bytes of a value of length n.
func be(v uint64, n int) []byte {
	out := make([]byte, n)
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], v)
	if n >= 8 {
		copy(out[n-8:], b[:])
	} else {
		copy(out, b[8-n:])
	}
	return out
}

// interesting uint64 around varint boundaries
func genOffset() *rapid.Generator[uint64] {
	return rapid.Custom(func(t *rapid.T) uint64 {
		bitsN := rapid.IntRange(0, 64).Draw(t, "bits")
		if bitsN == 0 {
			return 0
		}
		base := uint64(1) << (bitsN - 1)
		switch rapid.IntRange(0, 3).Draw(t, "near") {
		case 0:
			return base - 1
		case 1:
			return base
		case 2:
			return base + rapid.Uint64Range(0, base-1).Draw(t, "low")
		default:
			return base | rapid.Uint64Range(0, 255).Draw(t, "d")%base
		}
	})
}

func genU32() *rapid.Generator[uint32] {
	return rapid.Custom(func(t *rapid.T) uint32 {
		b := rapid.IntRange(0, 32).Draw(t, "bits")
		if b == 0 {
			return 0
		}
		base := uint64(1) << (b - 1)
		switch rapid.IntRange(0, 2).Draw(t, "near") {
		case 0:
			return uint32(base - 1)
		case 1:
			return uint32(base)
		default:
			return uint32(base + rapid.Uint64Range(0, base-1).Draw(t, "low"))
		}
	})
}

// weighted picks an index with the given weights.
func weighted(t *rapid.T, name string, w ...int) int {
	sum := 0
	for _, x := range w {
		sum += x
	}
	v := rapid.IntRange(0, sum-1).Draw(t, name)
	for i, x := range w {
		if v < x {
			return i
		}
		v -= x
	}
	return 0
}

// drawSize draws a size up to about lim, with every order of magnitude represented
// (plain rapid ranges strongly favour small values).
func drawSize(t *rapid.T, lim int) int {
	top := lim >> uint(weighted(t, "mag", 4, 3, 2, 2, 1, 1))
	if top < 2 {
		return max(1, top)
	}
	return top - rapid.IntRange(0, top/2).Draw(t, "less")
}

// skip is drawn before each operation of a history; shrinking drives it to true, so a
// failing history loses the operations it does not need.
func skip(t *rapid.T) bool { return rapid.IntRange(0, 60).Draw(t, "keep") == 0 }
