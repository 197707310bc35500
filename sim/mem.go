package main

import (
	"reflect"
	"unsafe"
)

// words views an addressable array of integers or flags as 64 bit words.
func words(v reflect.Value) []uint64 {
	n := v.Type().Size()
	p := unsafe.Pointer(v.UnsafeAddr())
	w := unsafe.Slice((*uint64)(p), n/8)
	if n%8 == 0 {
		return w
	}
	out := append([]uint64(nil), w...)
	var last uint64
	for i := n / 8 * 8; i < n; i++ {
		last = last<<8 | uint64(*(*byte)(unsafe.Add(p, i)))
	}
	return append(out, last)
}

// unlock makes an unexported field usable.
func unlock(v reflect.Value) reflect.Value {
	return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
}
