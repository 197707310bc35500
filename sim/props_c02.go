package main

import (
	"reflect"
	"strings"

	"github.com/m4tthewde/gov1/internal/obu"
	"github.com/m4tthewde/gov1/internal/state"
)

// unitDigest summarises what a unit was decoded to. Named fields are left out,
// and so are the pixel scratch areas.
func unitDigest(o *obu.Obu, without string) uint64 {
	d := digester{h: 77}
	v := reflect.ValueOf(o).Elem()
	for k := 0; k < v.NumField(); k++ {
		n := v.Type().Field(k).Name
		if strings.Contains(without, "|"+n+"|") {
			continue
		}
		d.small(v.Field(k))
	}
	return d.h
}

// small adds v without its large arrays.
func (d *digester) small(v reflect.Value) {
	if v.Kind() == reflect.Struct {
		for i := 0; i < v.NumField(); i++ {
			d.small(v.Field(i))
		}
		return
	}
	if v.Type().Size() < 1<<14 {
		d.val(v)
	}
}

const (
	allFields = ""
	noFraming = "|Header|Size|"
	noLayers  = "|Header|Size|SequenceHeader|"
)

func unitDigests(l []obu.Obu, without string) []uint64 {
	o := make([]uint64, len(l))
	for i := range l {
		o[i] = unitDigest(&l[i], without)
	}
	return o
}

// stateDigest summarises a decoder's state without the named fields.
func stateDigest(st *state.State, without ...string) uint64 {
	d := digester{h: 5}
	v := reflect.ValueOf(st).Elem()
next:
	for i := 0; i < v.NumField(); i++ {
		n := v.Type().Field(i).Name
		for _, w := range without {
			if n == w {
				continue next
			}
		}
		d.val(v.Field(i))
	}
	return d.h
}

// stateDiff names the fields in which two states differ.
func stateDiff(a, b *state.State, without ...string) string {
	va, vb := reflect.ValueOf(a).Elem(), reflect.ValueOf(b).Elem()
	o := ""
next:
	for i := 0; i < va.NumField(); i++ {
		n := va.Type().Field(i).Name
		for _, w := range without {
			if n == w {
				continue next
			}
		}
		da, db := digester{h: 5}, digester{h: 5}
		da.val(va.Field(i))
		db.val(vb.Field(i))
		if da.h != db.h {
			o += " " + n
		}
	}
	if len(o) > 200 {
		o = o[:200] + "..."
	}
	return o
}

// cleanHist is a history without anything that fails.
func cleanHist() *histCfg {
	c := stdHist()
	c.frame.oddities = false
	c.maxTU = 5
	return c
}

// C02: delivery stops after some byte.
func runC02(s *Src, r *runInfo) *violation {
	cfg := cleanHist()
	switch s.N(3) {
	case 0:
		cfg.seq.tiny = true
		cfg.frame.decodable = true
		cfg.split = true
		cfg.blocks = s.Bool(1, 2)
		cfg.frame.segments = cfg.blocks
	case 1:
		cfg.mix = [2]int{1, 2}
		cfg.seq.tiny = true
	}
	h := newHist(s, cfg, r)
	n := 1 + s.N(cfg.maxTU)
	var all []byte
	var bounds, ends []int // ends of temporal units, of units
	for i := 0; i < n && !h.over; i++ {
		t := h.next()
		if t.end != mustWork {
			break
		}
		for _, u := range t.list() {
			ends = append(ends, len(all)+u.end)
		}
		all = append(all, t.bytes...)
		bounds = append(bounds, len(all))
		r.logf("temporal unit %d, up to byte %d: %s", i, len(all), t)
	}
	if len(all) == 0 {
		return nil
	}
	whole := newSession()
	whole.feed(all)
	ref := unitDigests(whole.units(), allFields)
	if whole.end != endOK || len(ref) != len(ends) {
		// what ails the complete stream is for the other properties
		r.add("run ended without a verdict", 1)
		if strict {
			return violatef("the whole stream failed: %s", whole.msg)
		}
		// ... unless the delivery in pieces decodes what the complete stream does not
		p := newSession()
		at := 0
		for _, b := range bounds {
			p.feed(all[at:b])
			at = b
		}
		if p.end == endOK {
			return violatef("the stream of %d bytes ended in %q when it was delivered at once, not in pieces", len(all), short(whole.msg))
		}
		return nil
	}
	final := stateDigest(whole.st)
	whole.clear()
	r.see(final, uint64(len(all)))
	// in pieces of whole temporal units
	if len(bounds) > 1 {
		p := newSession()
		at, pieces := 0, 0
		for i, b := range bounds {
			if i+1 < len(bounds) && s.Bool(1, 2) {
				continue
			}
			p.feed(all[at:b])
			at = b
			pieces++
			if p.end != endOK {
				return violatef("the stream delivered in %d pieces, each of whole temporal units, ended in a failure after byte %d (%s), not when delivered at once", pieces, b, short(p.msg))
			}
		}
		r.add("fault: delivery in pieces", 1)
		got := unitDigests(p.units(), allFields)
		if len(got) != len(ref) {
			return violatef("the stream delivered in %d pieces gave %d units, %d when delivered at once", pieces, len(got), len(ref))
		}
		for i := range got {
			if got[i] != ref[i] {
				return violatef("unit %d was decoded differently when the stream was delivered in %d pieces", i, pieces)
			}
		}
		if stateDigest(p.st) != final {
			return violatef("the stream delivered in %d pieces left a different decoder state:%s", pieces, stateDiff(p.st, whole.st))
		}
		p.clear()
		r.compared += int64(len(got)) + 1
	}
	// cut anywhere
	for k := 1 + s.N(6); k > 0; k-- {
		cut := s.N(len(all))
		switch s.N(4) {
		case 0: // near the end of a unit
			cut = clampInt(0, len(all)-1, ends[s.N(len(ends))]-1+s.N(3))
		case 1: // near the end of a temporal unit
			cut = clampInt(0, len(all)-1, bounds[s.N(len(bounds))]-3+s.N(6))
		}
		c := newSession()
		c.feed(all[:cut])
		boundary := cut == 0
		for _, b := range bounds {
			boundary = boundary || b == cut
		}
		done := 0
		for done < len(ends) && ends[done] <= cut {
			done++
		}
		r.add("fault: delivery stopped", 1)
		r.compared++
		if !boundary {
			r.weighty = true
		}
		r.state(uint64(done), uint64(len(ends)), uint64(b2i(boundary)), uint64(cut))
		got := unitDigests(c.units(), allFields)
		switch {
		case boundary && c.end != endOK:
			return violatef("delivery stopped after byte %d, at the end of a temporal unit, and decoding ended in a failure: %s", cut, short(c.msg))
		case !boundary && c.end == endOK:
			return violatef("delivery stopped after byte %d, inside a temporal unit, and decoding returned normally", cut)
		case c.end.hung():
			return violatef("delivery stopped after byte %d and decoding did not end", cut)
		case len(got) < done:
			return violatef("delivery stopped after byte %d; %d units were complete, %d were decoded", cut, done, len(got))
		case boundary && len(got) != done:
			return violatef("delivery stopped after byte %d; %d units were complete, %d were reported", cut, done, len(got))
		}
		for i := 0; i < done; i++ {
			if got[i] != ref[i] {
				return violatef("delivery stopped after byte %d, and unit %d, complete before, was decoded differently", cut, i)
			}
		}
		r.compared += int64(done)
		if !boundary {
			r.add("cut inside a temporal unit", 1)
		}
		c.clear()
	}
	return nil
}

func init() {
	register(&property{id: "C02", run: runC02,
		rule:    "a run generates a stream, delivers it at once, in pieces, and cut after up to six bytes; non-trivial if a cut is inside a temporal unit; distinct by the final state and length of the stream",
		measure: "units complete before the cut, units in the stream, cut position",
		real:    realTiles, stub: []string{"encoder and transport (generator)", "memory size (limit on allocations)", "logger (no-op)"}})
}
