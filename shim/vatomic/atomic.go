// Package vatomic stands in for sync/atomic: every operation is preceded by a
// scheduling point. Under the scheduler one thread runs at a time, so the
// operations themselves are plain; the real atomics are used so that stand-alone
// goroutines (outside an execution) stay correct.
package vatomic

import (
	"sync/atomic"
	"unsafe"

	"verif/vsched"
)

func LoadInt32(a *int32) int32          { vsched.P(0); return atomic.LoadInt32(a) }
func StoreInt32(a *int32, v int32)      { vsched.P(0); atomic.StoreInt32(a, v) }
func SwapInt32(a *int32, v int32) int32 { vsched.P(0); return atomic.SwapInt32(a, v) }
func CompareAndSwapInt32(a *int32, o, n int32) bool {
	vsched.P(0)
	return atomic.CompareAndSwapInt32(a, o, n)
}
func AddInt32(a *int32, d int32) int32 { vsched.P(0); return atomic.AddInt32(a, d) }
func AndInt32(a *int32, m int32) (old int32) {
	vsched.P(0)
	for {
		old = atomic.LoadInt32(a)
		if atomic.CompareAndSwapInt32(a, old, old&m) {
			return
		}
	}
}
func OrInt32(a *int32, m int32) (old int32) {
	vsched.P(0)
	for {
		old = atomic.LoadInt32(a)
		if atomic.CompareAndSwapInt32(a, old, old|m) {
			return
		}
	}
}

type Int32 struct{ v int32 }

func (x *Int32) Load() int32                    { return LoadInt32(&x.v) }
func (x *Int32) Store(v int32)                  { StoreInt32(&x.v, v) }
func (x *Int32) Swap(v int32) int32             { return SwapInt32(&x.v, v) }
func (x *Int32) CompareAndSwap(o, n int32) bool { return CompareAndSwapInt32(&x.v, o, n) }
func (x *Int32) Add(d int32) int32              { return AddInt32(&x.v, d) }
func (x *Int32) And(m int32) int32              { return AndInt32(&x.v, m) }
func (x *Int32) Or(m int32) int32               { return OrInt32(&x.v, m) }

func LoadInt64(a *int64) int64          { vsched.P(0); return atomic.LoadInt64(a) }
func StoreInt64(a *int64, v int64)      { vsched.P(0); atomic.StoreInt64(a, v) }
func SwapInt64(a *int64, v int64) int64 { vsched.P(0); return atomic.SwapInt64(a, v) }
func CompareAndSwapInt64(a *int64, o, n int64) bool {
	vsched.P(0)
	return atomic.CompareAndSwapInt64(a, o, n)
}
func AddInt64(a *int64, d int64) int64 { vsched.P(0); return atomic.AddInt64(a, d) }
func AndInt64(a *int64, m int64) (old int64) {
	vsched.P(0)
	for {
		old = atomic.LoadInt64(a)
		if atomic.CompareAndSwapInt64(a, old, old&m) {
			return
		}
	}
}
func OrInt64(a *int64, m int64) (old int64) {
	vsched.P(0)
	for {
		old = atomic.LoadInt64(a)
		if atomic.CompareAndSwapInt64(a, old, old|m) {
			return
		}
	}
}

type Int64 struct{ v int64 }

func (x *Int64) Load() int64                    { return LoadInt64(&x.v) }
func (x *Int64) Store(v int64)                  { StoreInt64(&x.v, v) }
func (x *Int64) Swap(v int64) int64             { return SwapInt64(&x.v, v) }
func (x *Int64) CompareAndSwap(o, n int64) bool { return CompareAndSwapInt64(&x.v, o, n) }
func (x *Int64) Add(d int64) int64              { return AddInt64(&x.v, d) }
func (x *Int64) And(m int64) int64              { return AndInt64(&x.v, m) }
func (x *Int64) Or(m int64) int64               { return OrInt64(&x.v, m) }

func LoadUint32(a *uint32) uint32           { vsched.P(0); return atomic.LoadUint32(a) }
func StoreUint32(a *uint32, v uint32)       { vsched.P(0); atomic.StoreUint32(a, v) }
func SwapUint32(a *uint32, v uint32) uint32 { vsched.P(0); return atomic.SwapUint32(a, v) }
func CompareAndSwapUint32(a *uint32, o, n uint32) bool {
	vsched.P(0)
	return atomic.CompareAndSwapUint32(a, o, n)
}
func AddUint32(a *uint32, d uint32) uint32 { vsched.P(0); return atomic.AddUint32(a, d) }
func AndUint32(a *uint32, m uint32) (old uint32) {
	vsched.P(0)
	for {
		old = atomic.LoadUint32(a)
		if atomic.CompareAndSwapUint32(a, old, old&m) {
			return
		}
	}
}
func OrUint32(a *uint32, m uint32) (old uint32) {
	vsched.P(0)
	for {
		old = atomic.LoadUint32(a)
		if atomic.CompareAndSwapUint32(a, old, old|m) {
			return
		}
	}
}

type Uint32 struct{ v uint32 }

func (x *Uint32) Load() uint32                    { return LoadUint32(&x.v) }
func (x *Uint32) Store(v uint32)                  { StoreUint32(&x.v, v) }
func (x *Uint32) Swap(v uint32) uint32            { return SwapUint32(&x.v, v) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { return CompareAndSwapUint32(&x.v, o, n) }
func (x *Uint32) Add(d uint32) uint32             { return AddUint32(&x.v, d) }
func (x *Uint32) And(m uint32) uint32             { return AndUint32(&x.v, m) }
func (x *Uint32) Or(m uint32) uint32              { return OrUint32(&x.v, m) }

func LoadUint64(a *uint64) uint64           { vsched.P(0); return atomic.LoadUint64(a) }
func StoreUint64(a *uint64, v uint64)       { vsched.P(0); atomic.StoreUint64(a, v) }
func SwapUint64(a *uint64, v uint64) uint64 { vsched.P(0); return atomic.SwapUint64(a, v) }
func CompareAndSwapUint64(a *uint64, o, n uint64) bool {
	vsched.P(0)
	return atomic.CompareAndSwapUint64(a, o, n)
}
func AddUint64(a *uint64, d uint64) uint64 { vsched.P(0); return atomic.AddUint64(a, d) }
func AndUint64(a *uint64, m uint64) (old uint64) {
	vsched.P(0)
	for {
		old = atomic.LoadUint64(a)
		if atomic.CompareAndSwapUint64(a, old, old&m) {
			return
		}
	}
}
func OrUint64(a *uint64, m uint64) (old uint64) {
	vsched.P(0)
	for {
		old = atomic.LoadUint64(a)
		if atomic.CompareAndSwapUint64(a, old, old|m) {
			return
		}
	}
}

type Uint64 struct{ v uint64 }

func (x *Uint64) Load() uint64                    { return LoadUint64(&x.v) }
func (x *Uint64) Store(v uint64)                  { StoreUint64(&x.v, v) }
func (x *Uint64) Swap(v uint64) uint64            { return SwapUint64(&x.v, v) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { return CompareAndSwapUint64(&x.v, o, n) }
func (x *Uint64) Add(d uint64) uint64             { return AddUint64(&x.v, d) }
func (x *Uint64) And(m uint64) uint64             { return AndUint64(&x.v, m) }
func (x *Uint64) Or(m uint64) uint64              { return OrUint64(&x.v, m) }

func LoadUintptr(a *uintptr) uintptr            { vsched.P(0); return atomic.LoadUintptr(a) }
func StoreUintptr(a *uintptr, v uintptr)        { vsched.P(0); atomic.StoreUintptr(a, v) }
func SwapUintptr(a *uintptr, v uintptr) uintptr { vsched.P(0); return atomic.SwapUintptr(a, v) }
func CompareAndSwapUintptr(a *uintptr, o, n uintptr) bool {
	vsched.P(0)
	return atomic.CompareAndSwapUintptr(a, o, n)
}
func AddUintptr(a *uintptr, d uintptr) uintptr { vsched.P(0); return atomic.AddUintptr(a, d) }
func AndUintptr(a *uintptr, m uintptr) (old uintptr) {
	vsched.P(0)
	for {
		old = atomic.LoadUintptr(a)
		if atomic.CompareAndSwapUintptr(a, old, old&m) {
			return
		}
	}
}
func OrUintptr(a *uintptr, m uintptr) (old uintptr) {
	vsched.P(0)
	for {
		old = atomic.LoadUintptr(a)
		if atomic.CompareAndSwapUintptr(a, old, old|m) {
			return
		}
	}
}

type Uintptr struct{ v uintptr }

func (x *Uintptr) Load() uintptr                    { return LoadUintptr(&x.v) }
func (x *Uintptr) Store(v uintptr)                  { StoreUintptr(&x.v, v) }
func (x *Uintptr) Swap(v uintptr) uintptr           { return SwapUintptr(&x.v, v) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool { return CompareAndSwapUintptr(&x.v, o, n) }
func (x *Uintptr) Add(d uintptr) uintptr            { return AddUintptr(&x.v, d) }
func (x *Uintptr) And(m uintptr) uintptr            { return AndUintptr(&x.v, m) }
func (x *Uintptr) Or(m uintptr) uintptr             { return OrUintptr(&x.v, m) }

func LoadPointer(a *unsafe.Pointer) unsafe.Pointer     { vsched.P(0); return atomic.LoadPointer(a) }
func StorePointer(a *unsafe.Pointer, v unsafe.Pointer) { vsched.P(0); atomic.StorePointer(a, v) }
func SwapPointer(a *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	vsched.P(0)
	return atomic.SwapPointer(a, v)
}
func CompareAndSwapPointer(a *unsafe.Pointer, o, n unsafe.Pointer) bool {
	vsched.P(0)
	return atomic.CompareAndSwapPointer(a, o, n)
}

type Bool struct{ v uint32 }

func b2u(b bool) uint32 {
	if b {
		return 1
	}
	return 0
}
func (x *Bool) Load() bool       { return LoadUint32(&x.v) != 0 }
func (x *Bool) Store(b bool)     { StoreUint32(&x.v, b2u(b)) }
func (x *Bool) Swap(b bool) bool { return SwapUint32(&x.v, b2u(b)) != 0 }
func (x *Bool) CompareAndSwap(o, n bool) bool {
	return CompareAndSwapUint32(&x.v, b2u(o), b2u(n))
}

type Pointer[T any] struct{ v unsafe.Pointer }

func (x *Pointer[T]) Load() *T     { return (*T)(LoadPointer(&x.v)) }
func (x *Pointer[T]) Store(p *T)   { StorePointer(&x.v, unsafe.Pointer(p)) }
func (x *Pointer[T]) Swap(p *T) *T { return (*T)(SwapPointer(&x.v, unsafe.Pointer(p))) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool {
	return CompareAndSwapPointer(&x.v, unsafe.Pointer(o), unsafe.Pointer(n))
}

type Value struct{ v atomic.Value }

func (x *Value) Load() interface{}              { vsched.P(0); return x.v.Load() }
func (x *Value) Store(v interface{})            { vsched.P(0); x.v.Store(v) }
func (x *Value) Swap(v interface{}) interface{} { vsched.P(0); return x.v.Swap(v) }
func (x *Value) CompareAndSwap(o, n interface{}) bool {
	vsched.P(0)
	return x.v.CompareAndSwap(o, n)
}
