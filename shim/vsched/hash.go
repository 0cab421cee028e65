// Package vsched owns the nondeterminism of the code under test: the hash seed
// and (in instrumented builds) the thread schedule.
package vsched

import (
	"encoding/binary"
	"fmt"
	"math/bits"
	"unsafe"
)

// KeyMark introduces a designed key: the next 8 bytes are, big endian, the
// bit-reversed hash the key must have (its position in the map's order).
const KeyMark = '\x01'

// RealHash makes MemHash the runtime's own hash function.
var RealHash bool

//go:noescape
//go:linkname realMemhash runtime.memhash
func realMemhash(p unsafe.Pointer, h, s uintptr) uintptr

// MemHash replaces runtime.memhash: deterministic, and controllable through the
// contents of the key. It reads exactly s bytes, as memhash does.
func MemHash(p unsafe.Pointer, h, s uintptr) uintptr {
	if RealHash {
		return realMemhash(p, h, s)
	}
	b := unsafe.Slice((*byte)(p), int(s))
	if len(b) >= 9 && b[0] == KeyMark {
		return uintptr(bits.Reverse64(binary.BigEndian.Uint64(b[1:9])) ^ uint64(h))
	}
	x := uint64(14695981039346656037) ^ uint64(h)
	for _, c := range b {
		x = (x ^ uint64(c)) * 1099511628211
	}
	x ^= x >> 32
	x *= 0xd6e8feb86659fd93
	x ^= x >> 32
	x *= 0xd6e8feb86659fd93
	x ^= x >> 32
	return uintptr(x)
}

// Key makes a key at position rev (bit-reversed hash) with a distinguishing tail.
func Key(rev uint64, tail string) string {
	var b [9]byte
	b[0] = KeyMark
	binary.BigEndian.PutUint64(b[1:], rev)
	return string(b[:]) + tail
}

// KeyString renders a key for humans.
func KeyString(k string) string {
	if len(k) >= 9 && k[0] == KeyMark {
		return fmt.Sprintf("@%016x%s", binary.BigEndian.Uint64([]byte(k[1:9])), k[9:])
	}
	return fmt.Sprintf("%q", k)
}
