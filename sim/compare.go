package main

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"
)

// flat lists the integers in v: flags count as 0 and 1.
func flat(v reflect.Value, out *[]int) {
	switch v.Kind() {
	case reflect.Bool:
		*out = append(*out, b2i(v.Bool()))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		*out = append(*out, int(v.Int()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		*out = append(*out, int(v.Uint()))
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			flat(v.Index(i), out)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			flat(v.Field(i), out)
		}
	case reflect.Ptr:
		if !v.IsNil() {
			flat(v.Elem(), out)
		}
	}
}

var missingPaths = map[string]bool{}

func fieldPath(v reflect.Value, path string) (reflect.Value, bool) {
	for _, p := range strings.Split(path, ".") {
		if i, err := strconv.Atoi(p); err == nil {
			if k := v.Kind(); k != reflect.Slice && k != reflect.Array || i >= v.Len() {
				return v, false
			}
			v = v.Index(i)
			continue
		}
		if v.Kind() != reflect.Struct {
			return v, false
		}
		v = v.FieldByName(p)
		if !v.IsValid() {
			return v, false
		}
	}
	return v, true
}

// diffExp compares a structure with expected values and describes the first
// difference. Lists whose length the stream decides must have exactly the
// expected length; of fixed arrays the expected values are a prefix.
func diffExp(x any, name string, e expl, compared *int64) string {
	v := reflect.ValueOf(x)
	for v.Kind() == reflect.Ptr {
		v = v.Elem()
	}
	for _, w := range e {
		path, prefix := w.path, strings.HasSuffix(w.path, "...")
		if prefix {
			path = path[:len(path)-3] // more elements may follow
		}
		f, ok := fieldPath(v, path)
		if !ok {
			missingPaths[name+"."+w.path] = true
			continue
		}
		var got []int
		flat(f, &got)
		*compared++
		bad := len(got) < len(w.vals) || !prefix && f.Kind() == reflect.Slice && len(got) != len(w.vals)
		for i := 0; !bad && i < len(w.vals); i++ {
			bad = got[i] != w.vals[i]
		}
		if bad {
			return fmt.Sprintf("%s.%s is %v, expected %v", name, path, clip(got), clip(w.vals))
		}
	}
	return ""
}

func clip(v []int) string {
	if len(v) == 1 {
		return fmt.Sprint(v[0])
	}
	s := fmt.Sprint(v)
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return s
}

// digest is a hash of everything reachable from v (the shape included).
type digester struct{ h uint64 }

func (d *digester) add(x uint64) {
	d.h ^= x
	d.h *= 0x9fb21c651e98df25
	d.h ^= d.h >> 29
}
func plain(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Int, reflect.Bool:
		return true
	case reflect.Array:
		return plain(t.Elem())
	}
	return false
}
func (d *digester) val(v reflect.Value) {
	switch v.Kind() {
	case reflect.Bool:
		d.add(uint64(b2i(v.Bool())) + 1)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		d.add(uint64(v.Int()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		d.add(v.Uint())
	case reflect.Float32, reflect.Float64:
		d.add(uint64(v.Float() * 65536))
	case reflect.String:
		for _, c := range []byte(v.String()) {
			d.add(uint64(c))
		}
	case reflect.Slice:
		d.add(uint64(v.Len()) + 0x1000)
		if v.Type().Elem().Kind() == reflect.Int && v.CanInterface() {
			if s, ok := v.Interface().([]int); ok {
				for _, x := range s {
					d.add(uint64(x))
				}
				return
			}
		}
		for i := 0; i < v.Len(); i++ {
			d.val(v.Index(i))
		}
	case reflect.Array:
		if plain(v.Type()) && v.CanAddr() {
			d.raw(v)
			return
		}
		for i := 0; i < v.Len(); i++ {
			d.val(v.Index(i))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			d.val(v.Field(i))
		}
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			d.add(7)
		} else {
			d.val(v.Elem())
		}
	case reflect.Map:
		// order independent
		var sum uint64
		for _, k := range v.MapKeys() {
			e := digester{}
			e.val(k)
			e.val(v.MapIndex(k))
			sum += e.h
		}
		d.add(sum)
	}
}

// raw hashes an array of integers or flags as memory.
func (d *digester) raw(v reflect.Value) {
	l := words(v)
	const m = 0x9fb21c651e98df25
	h := [4]uint64{d.h, 1, 2, 3}
	for ; len(l) >= 4; l = l[4:] {
		h[0] = (h[0] ^ l[0]) * m
		h[1] = (h[1] ^ l[1]) * m
		h[2] = (h[2] ^ l[2]) * m
		h[3] = (h[3] ^ l[3]) * m
		h[0] ^= h[0] >> 29
		h[1] ^= h[1] >> 29
		h[2] ^= h[2] >> 29
		h[3] ^= h[3] >> 29
	}
	d.h = h[0]
	for _, w := range l {
		d.add(w)
	}
	d.add(h[1])
	d.add(h[2])
	d.add(h[3])
}

func digestOf(xs ...any) uint64 {
	d := digester{h: 0x1234567}
	for _, x := range xs {
		v := reflect.ValueOf(x)
		d.val(v)
	}
	return d.h
}
