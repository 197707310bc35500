package main

import (
	"reflect"
	"sort"
	"strings"
	"unsafe"
)

// What the packages under test keep for the life of the process. A simulated
// run starts as a process does: with every package variable as initialised.

type keeper struct {
	name    string
	v       reflect.Value
	leaves  int
	restore []func()
}

var keptSmall, keptLarge []*keeper

const smallKeeper = 256 // values

// keepGlobals remembers the packages' variables; call it once, first.
func keepGlobals() {
	for _, get := range repoGlobals {
		for n, p := range get() {
			k := &keeper{name: n, v: reflect.ValueOf(p).Elem()}
			k.keep(k.v, map[unsafe.Pointer]bool{})
			if k.leaves <= smallKeeper {
				keptSmall = append(keptSmall, k)
			} else {
				keptLarge = append(keptLarge, k)
			}
		}
	}
	for _, l := range [][]*keeper{keptSmall, keptLarge} {
		sort.Slice(l, func(i, j int) bool { return l[i].name < l[j].name })
	}
}

// freshGlobals gives the packages' variables the values they started with;
// large tables only if all is set.
func freshGlobals(all bool) {
	for _, k := range keptSmall {
		k.back()
	}
	if all {
		for _, k := range keptLarge {
			k.back()
		}
	}
}

func (k *keeper) back() {
	for _, f := range k.restore {
		f()
	}
}

// noRefs: values of the type hold no references.
func noRefs(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Array:
		return noRefs(t.Elem())
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if !noRefs(t.Field(i).Type) {
				return false
			}
		}
		return true
	case reflect.Slice, reflect.Map, reflect.Pointer, reflect.Interface, reflect.Chan, reflect.Func, reflect.UnsafePointer:
		return false
	}
	return true
}

// ours: the type belongs to the code under test, or is one of the standard
// library's for synchronisation or plain containers.
func ours(t reflect.Type) bool {
	p := t.PkgPath()
	return p == "" || strings.HasPrefix(p, repoModule) || p == "sync" || p == "sync/atomic" || p == "container/list" || p == "bytes" || p == "strings"
}

func (k *keeper) keep(v reflect.Value, seen map[unsafe.Pointer]bool) {
	if !v.CanSet() && v.CanAddr() {
		v = reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	t := v.Type()
	was := reflect.New(t).Elem()
	was.Set(v)
	back := func() { k.restore = append(k.restore, func() { v.Set(was) }) }
	if noRefs(t) {
		k.leaves += 1 + int(t.Size())/8
		back()
		return
	}
	switch t.Kind() {
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			k.keep(v.Index(i), seen)
		}
	case reflect.Struct:
		if !ours(t) {
			back()
			return
		}
		for i := 0; i < v.NumField(); i++ {
			k.keep(v.Field(i), seen)
		}
	case reflect.Slice:
		back()
		if v.IsNil() || seen[v.UnsafePointer()] || v.Len() == 0 {
			return
		}
		seen[v.UnsafePointer()] = true
		if noRefs(t.Elem()) {
			cp := reflect.MakeSlice(t, v.Len(), v.Len())
			reflect.Copy(cp, v)
			k.leaves += v.Len() * (1 + int(t.Elem().Size())/8)
			k.restore = append(k.restore, func() { reflect.Copy(was, cp) })
			return
		}
		for i := 0; i < v.Len(); i++ {
			k.keep(was.Index(i), seen)
		}
	case reflect.Map:
		back()
		if v.IsNil() || seen[v.UnsafePointer()] {
			return
		}
		seen[v.UnsafePointer()] = true
		keys := v.MapKeys()
		vals := make([]reflect.Value, len(keys))
		for i, key := range keys {
			vals[i] = v.MapIndex(key)
			k.leaves += 2
			if e := vals[i]; e.Kind() == reflect.Pointer || e.Kind() == reflect.Slice || e.Kind() == reflect.Map {
				h := reflect.New(e.Type()).Elem()
				h.Set(e)
				k.keep(h, seen)
			}
		}
		k.restore = append(k.restore, func() {
			was.Clear()
			for i, key := range keys {
				was.SetMapIndex(key, vals[i])
			}
		})
	case reflect.Pointer:
		back()
		if v.IsNil() || seen[v.UnsafePointer()] || !ours(t.Elem()) {
			return
		}
		seen[v.UnsafePointer()] = true
		k.keep(v.Elem(), seen)
	case reflect.Interface:
		back()
		if e := v.Elem(); e.IsValid() && e.Kind() == reflect.Pointer && !e.IsNil() && ours(e.Type().Elem()) && !seen[e.UnsafePointer()] {
			seen[e.UnsafePointer()] = true
			k.keep(e.Elem(), seen)
		}
	default:
		back()
	}
}

// A decode that changes package variables is what others may notice: the
// steps at which it does are where interleavings are worth trying.

type rawSum uint64

func (h *rawSum) bytes(p unsafe.Pointer, n int) {
	x := uint64(*h)
	for ; n >= 8; n -= 8 {
		x = (x ^ *(*uint64)(p)) * 0x9e3779b97f4a7c15
		x ^= x >> 29
		p = unsafe.Add(p, 8)
	}
	for ; n > 0; n-- {
		x = (x ^ uint64(*(*byte)(p))) * 0x9e3779b97f4a7c15
		x ^= x >> 29
		p = unsafe.Add(p, 1)
	}
	*h = rawSum(x)
}

func (h *rawSum) value(v reflect.Value, depth int) {
	t := v.Type()
	if !v.CanAddr() {
		c := reflect.New(t).Elem()
		c.Set(v)
		v = c
	}
	p := unsafe.Pointer(v.UnsafeAddr())
	if noRefs(t) || depth > 8 {
		h.bytes(p, int(t.Size()))
		return
	}
	inner := func(e reflect.Value) { h.value(e, depth+1) }
	v = reflect.NewAt(t, p).Elem()
	switch t.Kind() {
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			inner(v.Index(i))
		}
	case reflect.Struct:
		if !ours(t) {
			h.bytes(p, int(t.Size()))
			return
		}
		for i := 0; i < v.NumField(); i++ {
			inner(v.Field(i))
		}
	case reflect.Slice:
		h.bytes(p, int(t.Size()))
		if v.Len() == 0 {
			return
		}
		if noRefs(t.Elem()) {
			h.bytes(v.UnsafePointer(), v.Len()*int(t.Elem().Size()))
			return
		}
		for i := 0; i < v.Len(); i++ {
			inner(v.Index(i))
		}
	case reflect.Map:
		h.bytes(p, int(t.Size()))
		var sum rawSum
		for it := v.MapRange(); it.Next(); {
			var e rawSum
			e.value(it.Key(), depth+1)
			e.value(it.Value(), depth+1)
			sum += e
		}
		h.bytes(unsafe.Pointer(&sum), 8)
	case reflect.Pointer:
		h.bytes(p, int(t.Size()))
		if !v.IsNil() && ours(t.Elem()) {
			inner(v.Elem())
		}
	case reflect.Interface:
		h.bytes(p, int(t.Size()))
		if e := v.Elem(); e.IsValid() && e.Kind() == reflect.Pointer && !e.IsNil() && ours(e.Type().Elem()) {
			inner(e.Elem())
		}
	default:
		h.bytes(p, int(t.Size()))
	}
}

func (k *keeper) sum() uint64 {
	var h rawSum
	h.value(k.v, 0)
	return uint64(h)
}

// A globalWatch finds the package variables that change while a decoder runs.
type globalWatch struct {
	l       []*keeper
	sums    []uint64
	changed map[*keeper]bool
}

func watch(l []*keeper) *globalWatch {
	w := &globalWatch{l: l, changed: map[*keeper]bool{}}
	for _, k := range l {
		w.sums = append(w.sums, k.sum())
	}
	return w
}

func (w *globalWatch) look() (any bool) {
	for i, k := range w.l {
		if s := k.sum(); s != w.sums[i] {
			w.sums[i] = s
			w.changed[k] = true
			any = true
		}
	}
	return
}
