package main

import "reflect"

// A transport between encoder and decoder that loses, repeats and reorders
// temporal units and the units in them. The model then plays the receiving
// decoder: it parses what arrives with what it knows from earlier arrivals.

// copyUnit is the unit as sent, without the sender's view of it.
func copyUnit(u *unit) *unit {
	c := *u
	c.want, c.why, c.drop = mustWork, "", false
	return &c
}

func copyTU(t *tempUnit) *tempUnit {
	c := &tempUnit{stand: t.stand}
	for _, f := range t.frames {
		var l []*unit
		for _, u := range f {
			l = append(l, copyUnit(u))
		}
		c.frames = append(c.frames, l)
	}
	return c
}

// faulty is what the transport makes of a sequence of temporal units.
func faulty(s *Src, tus []*tempUnit, r *runInfo) (out []*tempUnit) {
	for i := 0; i < len(tus); i++ {
		t := copyTU(tus[i])
		switch {
		case s.Bool(1, 10):
			r.add("fault: temporal unit lost", 1)
			continue
		case s.Bool(1, 10):
			r.add("fault: temporal unit repeated", 1)
			out = append(out, t, copyTU(t))
			continue
		case i+1 < len(tus) && s.Bool(1, 10):
			r.add("fault: temporal units reordered", 1)
			out = append(out, copyTU(tus[i+1]), t)
			i++
			continue
		}
		for k := 0; k < 2 && s.Bool(1, 5); k++ {
			f := s.N(len(t.frames))
			l := t.frames[f]
			if len(l) == 0 {
				continue
			}
			j := s.N(len(l))
			switch s.N(3) {
			case 0:
				l = append(append([]*unit(nil), l[:j]...), l[j+1:]...)
				r.add("fault: unit lost", 1)
			case 1:
				l = append(append(append([]*unit(nil), l[:j+1]...), copyUnit(l[j])), l[j+1:]...)
				r.add("fault: unit repeated", 1)
			case 2:
				if j+1 < len(l) {
					l = append([]*unit(nil), l...)
					l[j], l[j+1] = l[j+1], l[j]
					r.add("fault: units reordered", 1)
				}
			}
			t.frames[f] = l
		}
		n := 0
		for _, f := range t.frames {
			n += len(f)
		}
		if n > 0 {
			out = append(out, t)
		}
	}
	return
}

// receiver is the model at the receiving end.
type receiver struct {
	h    *hist
	last *unit // the header unit whose tiles may follow
}

func (v *receiver) inside(u *unit) bool {
	op := v.h.m.opIdc
	return op == 0 || !u.ext || op>>uint(u.tid)&1 == 1 && op>>uint(u.sid+8)&1 == 1
}

// expect fills in what a conforming decoder makes of an arriving temporal unit.
func (v *receiver) expect(t *tempUnit) {
	h := v.h
	s := h.s
	for i := range h.m.slots {
		h.m.slots[i].fresh = false
	}
	h.m.frameCdfs = cdfSet{}
	blind := func(u *unit, why string) {
		u.blind = true
		u.why = why
		h.over = true
	}
	for _, u := range t.list() {
		m := h.m
		if h.over {
			u.blind = true
			continue
		}
		sent := u.fh
		u.fh, u.inForce = nil, nil
		if u.typ != obuSeq && u.typ != obuTD && !v.inside(u) {
			u.drop = true
			continue
		}
		switch u.typ {
		case obuTD:
			m.seen = false
		case obuSeq:
			m.sh = u.sh
			m.opIdc = u.sh.idc[0]
			m.needKey = true
			if u.sh.illegal {
				u.want, u.why = mayFail, "values AV1 forbids"
			}
		case obuFrameHdr, obuFrame, obuRedundant:
			if m.sh == nil {
				blind(u, "a frame before any sequence header")
				continue
			}
			if m.seen {
				u.want, u.why = mustFail, "second frame header of a frame"
				h.over = true
				continue
			}
			pi := &io{r: &bitr{b: u.payload}, s: s}
			c := m.snapshot()
			u.before = m.snapshot()
			var fh *frameHdr
			fc := h.cfg.frame
			if modelParse(func() { fh = frameSyntax(pi, &fc, c, u.tid, u.sid) }) {
				blind(u, "a header that no longer fits")
				continue
			}
			same := sent != nil && reflect.DeepEqual(fh.exp, sent.exp) && reflect.DeepEqual(fh.st, sent.st) && fh.bits == sent.bits
			switch {
			case fh.bits >= 8*len(u.payload) && u.typ != obuFrame:
				blind(u, "a header that no longer leaves room for its trailing bit")
				continue
			case fh.vague:
				blind(u, "a reference whose order hint was contradicted")
				continue
			case fh.unsupported != "":
				u.want, u.why = mustFail, fh.unsupported
				h.over = true
				continue
			case u.typ == obuFrame && (!same || u.tiles == nil || !sameSeq(u.tiles.sh, m.sh)):
				blind(u, "tiles of a frame that reads differently now")
				continue
			case !same || fh.illegal || m.needKey && !(fh.typ == keyFrame && fh.show == 1):
				u.want, u.why = mayFail, "header out of its context"
			}
			h.m = c
			m = c
			u.fh = fh
			u.inForce = m.sh
			m.needKey = false
			m.seen = true
			m.frameCdfs, m.lastTile = cdfSet{}, nil
			t.lastFh = fh
			v.last = u
			if u.typ == obuFrame {
				m.finish(fh, u.tiles)
				v.last = nil
			}
		case obuTileGroup:
			if u.tiles == nil || v.last == nil || v.last.tiles != u.tiles || !m.seen || v.last.want != mustWork || !sameSeq(u.tiles.sh, m.sh) {
				blind(u, "tiles without their frame header")
				continue
			}
			m.finish(v.last.fh, u.tiles)
			v.last = nil
		}
	}
	t.pack(s)
	t.after = h.m.snapshot()
	for _, u := range t.list() {
		if u.blind {
			t.end, t.why = mayFail, u.why
			break
		}
		if u.want != mustWork {
			t.end, t.why = u.want, u.why
			break
		}
	}
}

// sameSeq says whether a tile coded under one sequence header reads the same
// under another.
func sameSeq(a, b *seqHdr) bool {
	return a == b || a != nil && b != nil && reflect.DeepEqual(a.exp, b.exp)
}
