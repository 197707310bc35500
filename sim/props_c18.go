package main

import (
	"bytes"
	"reflect"

	"github.com/m4tthewde/gov1/internal/obu"
	"github.com/m4tthewde/gov1/internal/sequenceheader"
)

// C18: what a decoder has reported stays as reported, whatever it or another
// decoder does afterwards.

// kept is something a consumer of a decoder holds on to.
type kept struct {
	what  string
	v     reflect.Value
	light uint64
}

// watched is one decoder with its consumer.
type watched struct {
	ses   *session
	h     *hist
	items []kept
	full  []uint64 // of the units in the order they were reported
	seqs  int
	done  bool
}

// lightOf hashes what is reachable from v save large arrays held by value:
// those cannot be shared with anything.
func (d *digester) lightOf(v reflect.Value) {
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			d.lightOf(v.Field(i))
		}
	case reflect.Array:
		if !plain(v.Type()) || v.Type().Size() < 2048 {
			for i := 0; i < v.Len(); i++ {
				d.lightOf(v.Index(i))
			}
		}
	default:
		d.val(v)
	}
}

func lightOf(v reflect.Value) uint64 {
	d := digester{h: 5}
	d.lightOf(v)
	return d.h
}

// take lets the consumer hold what has been reported since the last time.
func (w *watched) take(who int) {
	l := *w.ses.obus
	for k := len(w.full); k < len(l); k++ {
		v := reflect.ValueOf(&l[k]).Elem()
		w.items = append(w.items, kept{"unit " + itoa(k) + " of decoder " + itoa(who), v, lightOf(v)})
		w.full = append(w.full, digestOf(&l[k]))
	}
	if w.ses.sh != nil && w.seqs < 6 {
		// a consumer that copies the sequence header in force
		c := new(sequenceheader.SequenceHeader)
		*c = *w.ses.sh
		v := reflect.ValueOf(c).Elem()
		if n := len(w.items); n == 0 || w.items[n-1].light != lightOf(v) {
			w.items = append(w.items, kept{"the sequence header decoder " + itoa(who) + " had in force after " + itoa(len(l)) + " units", v, lightOf(v)})
			w.seqs++
		}
	}
}

// changed names what is no longer as reported.
func (w *watched) changed(who int, all bool, r *runInfo) string {
	for _, k := range w.items {
		r.compared++
		if lightOf(k.v) != k.light {
			return k.what
		}
	}
	l := *w.ses.obus
	if len(l) < len(w.full) {
		return "the number of units decoder " + itoa(who) + " reports, " + itoa(len(l)) + " after " + itoa(len(w.full)) + ","
	}
	if all {
		for i := range w.full {
			r.compared++
			if digestOf(&l[i]) != w.full[i] {
				return "unit " + itoa(i) + " of decoder " + itoa(who)
			}
		}
		for _, k := range w.items {
			if u, ok := k.v.Addr().Interface().(*obu.Obu); ok {
				for i := range w.full {
					if k.what == "unit "+itoa(i)+" of decoder "+itoa(who) && digestOf(u) != w.full[i] {
						return k.what
					}
				}
			}
		}
	}
	return ""
}

// lists are where the units of most decoders are put.
var lists = [3][]obu.Obu{make([]obu.Obu, 0, 24), make([]obu.Obu, 0, 24), make([]obu.Obu, 0, 24)}

func runC18(s *Src, r *runInfo) *violation {
	var ds []*watched
	for n := 1 + s.N(3); len(ds) < n; {
		cfg := stdHist()
		switch s.N(4) {
		case 0:
			cfg = blockHist(s)
		case 1:
			cfg.seq.tiny = true
			cfg.mix = [2]int{1, 2}
		case 2:
			cfg.newSeq = [2]int{1, 2}
			cfg.frame.segments = true
		}
		ses := newOwnSession()
		if s.Bool(7, 8) {
			*ses.obus = lists[len(ds)][:0]
		}
		ds = append(ds, &watched{ses: ses, h: newHist(s, cfg, newRunInfo())})
	}
	units := 0
	for turn := 2 + s.N(10); turn > 0 && units < 60; turn-- {
		who := s.N(len(ds))
		w := ds[who]
		if w.done || w.h.over {
			continue
		}
		t := w.h.next()
		r.logf("decoder %d: %s", who, t)
		old := w.ses.b.Data
		sent := append(append([]byte(nil), old...), t.bytes...)
		budget := int64(stdBudget)
		if s.Bool(1, 10) {
			budget = int64(1 + s.N(1<<uint(8+s.N(8))))
		}
		w.ses.feedFor(t.bytes, budget)
		w.done = w.ses.end != endOK
		if w.done {
			if w.ses.end == endSteps {
				r.add("fault: decoder killed", 1)
			} else {
				r.add("fault: decode ended in "+w.ses.end.String(), 1)
			}
		}
		if b := w.ses.b.Data; len(b) == len(sent) && !bytes.Equal(b, sent) {
			return violatef("decoder %d changed the bytes that were delivered to it", who)
		}
		for i, o := range ds {
			if len(o.items) > 0 && (i != who || len(t.bytes) > 0) {
				r.weighty = true
			}
			if d := o.changed(i, turn == 1, r); d != "" {
				return violatef("%s changed after it had been reported, while decoder %d decoded %s", d, who, t)
			}
		}
		w.take(who)
		units += len(t.list())
		r.see(uint64(who), uint64(w.ses.end), uint64(len(w.full)))
		for _, f := range w.full {
			r.see(f)
		}
		r.state(uint64(who), uint64(w.ses.end), uint64(len(w.items)), uint64(len(ds)))
		if t.stand = w.h.cfg.inject[1] > 0 && !w.done && w.h.inject(w.ses, t); t.stand {
			r.add("frame completed by the stand-in", 1)
		}
	}
	for i, o := range ds {
		if d := o.changed(i, true, r); d != "" {
			return violatef("%s changed after it had been reported", d)
		}
	}
	for _, o := range ds {
		*o.ses.obus = nil
		o.items = nil
	}
	return nil
}

func init() {
	register(&property{id: "C18", run: runC18,
		rule:    "a run lets one to three decoders take turns at temporal units of histories of their own, some of them damaged or killed, and looks again at everything reported before after every turn; non-trivial if something reported before was looked at again; distinct by everything reported",
		measure: "whose turn it was, how it ended, how much had been reported, number of decoders",
		real:    realTiles, stub: []string{"encoder (generator)", "content of the slots of some frames (stand-in)", "logger (no-op)"}})
}
