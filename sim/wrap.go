package main

import (
	"reflect"

	"github.com/m4tthewde/gov1/internal/tilegroup"
)

// Frames of any type, completed by gov1's own end of frame: the content of the
// tile alone is scripted, because gov1 decodes little of what it may hold.

// canWrap says whether gov1's own end of frame copes with a frame of this kind.
func canWrap(m *decModel, u *frameHdr) bool {
	if u.unsupported != "" || u.illegal || u.vague || u.upW > 8 || u.fh > 8 || u.tiles.cols*u.tiles.rows != 1 {
		return false
	}
	if u.lf[0] != 0 || u.lf[1] != 0 || u.usesLr {
		return false
	}
	if u.show == 1 && (u.upW > 1 || u.fh > 1 || u.applyGrain == 1 || m.opIdc != 0) {
		return false
	}
	return true
}

// script completes the frame whose header arrived last. ok is unset where the
// run cannot go on.
func (h *hist) script(ses *session, t *tempUnit) (fs []finding, ok bool) {
	m, s, r := h.m, h.s, h.run
	u := t.lastFh
	if u == nil || !m.seen || h.over || !tilegroup.VerifTileHooked || !canWrap(m, u) || !s.Bool(h.cfg.script[0], h.cfg.script[1]) {
		return nil, true
	}
	idx, found := fieldPath(reflect.ValueOf(ses.st).Elem(), "Cdef.CdefIdx")
	if !found || idx.Type() != reflect.TypeOf([][]int{}) {
		missingPaths["State.Cdef.CdefIdx"] = true
		return nil, true
	}
	start := defaultCdfs(coefSet(u.baseQ))
	f := &tileFrame{h: h, fh: u, start: start}
	f.scripts = []*tileScript{writeScript(s, start, u.disCdf == 1, 12, s.Bool(h.cfg.wide, 8))}
	f.order = []int{0}
	f.prepare = func() { idx.Set(reflect.ValueOf([][]int{{-1}})) } // no CDEF block was coded
	payload, offs := f.group(s, 0, 0, true)
	tu := h.dress(&unit{typ: obuTileGroup, payload: payload})
	g := &tempUnit{frames: [][]*unit{{tu}}}
	if s.Bool(1, 6) {
		g.frames[0] = append(g.frames[0], h.noiseUnit())
	}
	g.pack(s)
	f.base = 8 * len(ses.b.Data)
	f.offs = []int{tu.end - len(payload) + offs[0]}
	legal := f.scripts[0].maxBit >= -14
	before := digestSlots(ses.st)
	ses.clear()
	f.hooked(func() { ses.feed(g.bytes) })
	r.logf("scripted tile of %d bytes -> %s %s", len(payload), ses.end, short(ses.msg))
	defer ses.clear()
	if !legal {
		return nil, false
	}
	if len(f.fs) > 0 {
		return f.fs, false
	}
	if ses.end != endOK {
		return []finding{{"slots", "the end of a frame whose tile was decoded ended in a failure: " + short(ses.msg)}}, false
	}
	if f.seen != 1 {
		return []finding{{"tiles", "the tile was not decoded"}}, false
	}
	for i := range m.slots {
		m.slots[i].fresh = false
	}
	m.finish(u, &tilePlan{after: f.scripts[0].after})
	r.add("frame with a scripted tile completed", 1)
	if u.refresh != 0 && !u.intra {
		r.add("inter frame with a scripted tile kept in slots", 1)
	}
	r.weighty = true
	if d := diffCdfs(ses.st, areaFrame, 0, m.frameCdfs, false); d != "" {
		fs = append(fs, finding{"cdf", "probabilities after the frame: " + d})
	}
	fs = append(fs, checkSlots(ses.st, m, before, r)...)
	return fs, len(fs) == 0
}
