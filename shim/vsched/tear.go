package vsched

import (
	"reflect"
	"unsafe"
)

// Tear does *dst = *src word by word in the order in which the compiler stores
// the words, with a scheduling point between the stores: a thread that reads
// dst without synchronisation may see a part of the old value and a part of
// the new one. dst and src are pointers to the same type.
// It returns false when the assignment is a single one.
func Tear(dst, src interface{}) bool {
	if active && !aborting {
		d := reflect.ValueOf(dst)
		p, n := unsafe.Pointer(d.Pointer()), unsafe.Pointer(reflect.ValueOf(src).Pointer())
		switch d.Elem().Kind() {
		case reflect.Slice: // length, capacity, data
			dh, sh := (*[3]int)(p), (*[3]int)(n)
			if *dh == *sh {
				return true
			}
			dh[1] = sh[1]
			P(0)
			dh[2] = sh[2]
			P(0)
			*(*unsafe.Pointer)(p) = *(*unsafe.Pointer)(n)
			return true
		case reflect.String: // length, data
			dh, sh := (*[2]int)(p), (*[2]int)(n)
			if *dh == *sh {
				return true
			}
			dh[1] = sh[1]
			P(0)
			*(*unsafe.Pointer)(p) = *(*unsafe.Pointer)(n)
			return true
		case reflect.Interface: // type, data
			dh, sh := (*[2]unsafe.Pointer)(p), (*[2]unsafe.Pointer)(n)
			if *dh == *sh {
				return true
			}
			if dh[0] != sh[0] {
				dh[0] = sh[0]
				P(0)
			}
			dh[1] = sh[1]
			return true
		}
	}
	return false
}
