package main

import (
	"encoding/binary"
	"fmt"
	"os"
	"reflect"
	"sort"
	"strings"

	"github.com/m4tthewde/gov1/internal/state"
)

// A cdfTable is one of the probability tables that are kept per frame, per
// tile and per reference slot. Its contexts ("leaves") have running numbers.
type cdfTable struct {
	name     string // <name>, Tile<name>, Saved<name> in State; <name> in MemoryArea
	first, n int
	idx      [4]int // field index in State: frame, tile, saved; in MemoryArea
	coef     bool
}

var (
	cdfTables []cdfTable
	cdfByName = map[string]*cdfTable{}
	// cdfDefault[q][leaf] are the starting probabilities of a frame whose
	// coefficient table set is q, from the reference data of this simulator.
	cdfDefault [4][][]int
	cdfLeafTab []int // leaf -> table number
	cdfUnknown []string
)

var coefNames = map[string]bool{"TxbSkipCdf": true, "EobPt16Cdf": true, "EobPt32Cdf": true, "EobPt64Cdf": true, "EobPt128Cdf": true, "EobPt256Cdf": true, "EobPt512Cdf": true, "EobPt1024Cdf": true, "EobExtraCdf": true, "DcSignCdf": true, "CoeffBaseEobCdf": true, "CoeffBaseCdf": true, "CoeffBrCdf": true}

func coefSet(baseQ int) int {
	switch {
	case baseQ <= 20:
		return 0
	case baseQ <= 60:
		return 1
	case baseQ <= 120:
		return 2
	}
	return 3
}

func leavesOf(v reflect.Value, out *[][]int) {
	switch v.Kind() {
	case reflect.Slice, reflect.Array:
		if v.Type().Elem().Kind() == reflect.Int {
			if v.Kind() == reflect.Array {
				v = v.Slice(0, v.Len())
			}
			*out = append(*out, v.Interface().([]int))
			return
		}
		for i := 0; i < v.Len(); i++ {
			leavesOf(v.Index(i), out)
		}
	}
}

// cdfFile is the reference data: for each table its name and leaves.
func loadCdfFile(path string) error {
	raw, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	next := func() int {
		v := int(binary.LittleEndian.Uint16(raw))
		raw = raw[2:]
		return v
	}
	st := reflect.TypeOf(state.State{})
	mt := reflect.TypeOf(state.MemoryArea{})
	leaf := 0
	for n := next(); n > 0; n-- {
		l := next()
		name := string(raw[:l])
		raw = raw[l:]
		variants := next()
		cnt := next()
		var vals [4][][]int
		for q := 0; q < variants; q++ {
			for i := 0; i < cnt; i++ {
				lv := make([]int, next())
				for j := range lv {
					lv[j] = next()
				}
				vals[q] = append(vals[q], lv)
			}
		}
		for q := variants; q < 4; q++ {
			vals[q] = vals[0]
		}
		t := cdfTable{name: name, first: leaf, n: cnt, coef: variants == 4}
		ok := true
		for k, p := range []string{"", "Tile", "Saved"} {
			f, found := st.FieldByName(p + name)
			if !found {
				ok = false
				break
			}
			t.idx[k] = f.Index[0]
		}
		if f, found := mt.FieldByName(name); found && ok {
			t.idx[3] = f.Index[0]
		} else {
			cdfUnknown = append(cdfUnknown, name)
			continue
		}
		for q := 0; q < 4; q++ {
			cdfDefault[q] = append(cdfDefault[q], vals[q]...)
		}
		for i := 0; i < cnt; i++ {
			cdfLeafTab = append(cdfLeafTab, len(cdfTables))
		}
		leaf += cnt
		cdfTables = append(cdfTables, t)
	}
	for i := range cdfTables {
		cdfByName[cdfTables[i].name] = &cdfTables[i]
	}
	if len(cdfTables) < 50 {
		return fmt.Errorf("only %d probability tables found", len(cdfTables))
	}
	return nil
}

// writeCdfFile writes the reference data from the decoder's own frame setup;
// used once, when the simulator was built, and committed.
func writeCdfFile(path string, get func(q int) *state.State) error {
	var out []byte
	put := func(v int) { out = append(out, byte(v), byte(v>>8)) }
	mt := reflect.TypeOf(state.MemoryArea{})
	var names []string
	for i := 0; i < mt.NumField(); i++ {
		if n := mt.Field(i).Name; strings.HasSuffix(n, "Cdf") {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	var sts [4]*state.State
	for q := range sts {
		sts[q] = get(q)
	}
	for _, n := range names {
		var c []int
		for q := range sts {
			var lv [][]int
			leavesOf(reflect.ValueOf(sts[q]).Elem().FieldByName(n), &lv)
			c = append(c, len(lv))
		}
		if c[0] != c[1] || c[0] != c[2] || c[0] != c[3] {
			fmt.Println(n, c)
		}
	}
	put(len(names))
	for _, n := range names {
		var lv [4][][]int
		for q := range lv {
			leavesOf(reflect.ValueOf(sts[q]).Elem().FieldByName(n), &lv[q])
		}
		v := 1
		if coefNames[n] {
			v = 4
		}
		put(len(n))
		out = append(out, n...)
		put(v)
		put(len(lv[0]))
		for q := 0; q < v; q++ {
			for _, l := range lv[q] {
				put(len(l))
				for _, x := range l {
					put(x)
				}
			}
		}
		for q := 1; q < 4 && v == 1; q++ {
			if fmt.Sprint(lv[0]) != fmt.Sprint(lv[q]) {
				return fmt.Errorf("%s depends on the quantizer", n)
			}
		}
	}
	return os.WriteFile(path, out, 0o644)
}

// cdfSet is a model value of all tables: a default set plus changed leaves.
type cdfSet struct {
	ok  bool
	q   int
	mod map[int][]int
}

func defaultCdfs(q int) cdfSet { return cdfSet{ok: true, q: q} }
func (c cdfSet) leaf(i int) []int {
	if l, ok := c.mod[i]; ok {
		return l
	}
	return cdfDefault[c.q][i]
}

// own returns a copy whose leaf i may be changed.
func (c *cdfSet) own(i int) []int {
	l := append([]int(nil), c.leaf(i)...)
	c.mod[i] = l
	return l
}
func (c cdfSet) clone() cdfSet {
	n := cdfSet{ok: c.ok, q: c.q, mod: map[int][]int{}}
	for k, v := range c.mod {
		n.mod[k] = v
	}
	return n
}

const (
	areaFrame = iota
	areaTile
	areaSaved
	areaSlot
)

// cdfLeaves lists the decoder's current leaves of one area.
func cdfLeaves(s *state.State, area, slot int) [][]int {
	out := make([][]int, 0, len(cdfLeafTab))
	v := reflect.ValueOf(s).Elem()
	if area == areaSlot {
		v = reflect.ValueOf(&s.Memory[slot]).Elem()
	}
	for i := range cdfTables {
		t := &cdfTables[i]
		n := len(out)
		leavesOf(v.Field(t.idx[area]), &out)
		// a table of another shape than the reference is reported as missing leaves
		for len(out)-n < t.n {
			out = append(out, nil)
		}
		out = out[:n+t.n]
	}
	return out
}

// sameProbs compares probabilities; the adaptation counter at the end of a
// context is compared only when withCount is set.
func sameProbs(a, b []int, withCount bool) bool {
	if len(a) != len(b) {
		return false
	}
	n := len(a)
	if !withCount {
		n--
	}
	for i := 0; i < n; i++ {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func leafName(i int) string {
	t := &cdfTables[cdfLeafTab[i]]
	return fmt.Sprintf("%s, context %d", t.name, i-t.first)
}

// diffCdfs describes the first difference between an area and the model.
func diffCdfs(s *state.State, area, slot int, want cdfSet, withCount bool) string {
	got := cdfLeaves(s, area, slot)
	for i := range got {
		if w := want.leaf(i); !sameProbs(got[i], w, withCount) {
			return fmt.Sprintf("%s: %v, expected %v", leafName(i), got[i], w)
		}
	}
	return ""
}
