package main

import (
	"fmt"
	"reflect"
	"sort"

	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
)

// C09: where probabilities come from and where they go.

// defaultDigests summarises the decoder's default tables, by name.
func defaultDigests() map[string]uint64 {
	o := map[string]uint64{}
	for n, v := range uncompressedheader.VerifDefaults() {
		d := digester{h: 3}
		// an addressable copy of the outermost value; slices stay shared
		c := reflect.New(reflect.TypeOf(v)).Elem()
		c.Set(reflect.ValueOf(v))
		d.val(c)
		o[n] = d.h
	}
	return o
}

var pristine map[string]uint64

// checkDefaults says which default table changed since the process started.
func checkDefaults(r *runInfo) *violation {
	now := defaultDigests()
	var names []string
	for n := range now {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if now[n] != pristine[n] {
			return violatef("default table %s changed during the life of the process", n)
		}
	}
	r.compared += int64(len(names))
	r.add("default tables compared", int64(len(names)))
	return nil
}

// withCounts is the model set c with the adaptation counters the decoder has
// in one of its areas; diff is set where the probabilities differ.
func withCounts(st *state.State, area, slot int, c cdfSet) (o cdfSet, diff string) {
	got := cdfLeaves(st, area, slot)
	o = c.clone()
	for i := range got {
		w := c.leaf(i)
		if !sameProbs(got[i], w, false) {
			return o, fmt.Sprintf("%s: %v, expected %v", leafName(i), got[i], w)
		}
		if n := len(w); n > 0 && got[i][n-1] != w[n-1] {
			o.mod[i] = append([]int(nil), got[i]...)
		}
	}
	return
}

// storeOps saves and loads probabilities between units, as a decoder with
// primary reference frames does, while other decoders work. cur is the set in
// force, kept what the slots hold.
func storeOps(s *Src, r *runInfo, st *state.State, cur cdfSet, kept *[8]cdfSet) (cdfSet, *violation) {
	for n := s.N(6); n > 0; n-- {
		k := s.N(8)
		what := ""
		var e ending
		var msg string
		switch {
		case s.Bool(1, 3):
			disturb(s, r)
			what = "another decoder's work"
		case kept[k].ok && s.Bool(2, 3):
			_, e, msg = limited(20e6, func() { uncompressedheader.LoadCdfs(k, st) })
			cur = kept[k]
			what = "loading from slot " + itoa(k)
			r.add("probabilities loaded from a slot", 1)
			r.weighty = true
		default:
			_, e, msg = limited(20e6, func() { uncompressedheader.SaveCdfs(k, st) })
			kept[k] = cur
			what = "saving to slot " + itoa(k)
			r.add("probabilities saved to a slot", 1)
		}
		r.logf("%s", what)
		if e != endOK {
			return cur, violatef("%s ended in a failure: %s", what, short(msg))
		}
		var d string
		if cur, d = withCounts(st, areaFrame, 0, cur); d != "" {
			return cur, violatef("after %s, the frame's probabilities: %s", what, d)
		}
		for i := range kept {
			if kept[i].ok {
				if d := diffCdfs(st, areaSlot, i, kept[i], false); d != "" {
					return cur, violatef("after %s, reference slot %d: %s", what, i, d)
				}
			}
		}
		r.compared++
		r.state(uint64(k), uint64(len(what)), uint64(len(cur.mod)))
	}
	return cur, nil
}

// disturb lets another decoder of the same process decode something, to its
// end or only for some time.
func disturb(s *Src, r *runInfo) {
	cfg := cleanHist()
	cfg.seq.tiny = true
	cfg.frame.decodable = true
	cfg.split = true
	cfg.maxTU = 2
	cfg.lost = [2]int{1, 8}
	h := newHist(s, cfg, newRunInfo())
	ses := newOwnSession()
	budget := int64(stdBudget)
	if s.Bool(1, 3) {
		budget = int64(1 + s.N(1<<uint(s.N(19))))
		r.add("fault: another decoder abandoned", 1)
	} else {
		r.add("fault: another decoder ran in between", 1)
	}
	for i := 0; i < 2 && !h.over; i++ {
		ses.feedFor(h.next().bytes, budget)
	}
	if ses.end == endOK && s.Bool(1, 2) {
		k := s.N(8)
		if s.Bool(1, 2) {
			limited(20e6, func() { uncompressedheader.LoadCdfs(k, ses.st) })
		} else {
			limited(20e6, func() { uncompressedheader.SaveCdfs(k, ses.st) })
		}
	}
}

// loadRun decodes small frames to the end; some start from the probabilities
// of a reference slot.
func loadRun(s *Src, r *runInfo) *violation {
	cfg := cleanHist()
	cfg.seq.tiny = true
	cfg.frame.decodable = true
	cfg.split = true
	cfg.lost = [2]int{1, 2}
	h := newHist(s, cfg, r)
	ses := newSession()
	for k, n := 0, 2+s.N(5); k < n && !h.over; k++ {
		t := h.next()
		ses.clear()
		ses.feed(t.bytes)
		r.logf("temporal unit %d: %s", k, t)
		if fs := h.check(ses, t, nil); len(fs) > 0 {
			return judge(r, fs, []string{"cdf"})
		}
		if ses.end != endOK || t.end != mustWork {
			return nil
		}
		if t.lastFh == nil || !h.m.seen || !canDecode(h.m, t.lastFh, false) {
			continue
		}
		fh := t.lastFh
		var kept [8]cdfSet
		for i := range kept {
			if h.m.slots[i].written {
				kept[i] = h.m.slots[i].cdfs
			}
		}
		start, d := withCounts(ses.st, areaFrame, 0, defaultCdfs(coefSet(fh.baseQ)))
		if d != "" {
			return violatef("in temporal unit %d, the frame's starting probabilities: %s", k, d)
		}
		start, v := storeOps(s, r, ses.st, start, &kept)
		if v != nil {
			v.msg = "in temporal unit " + itoa(k) + ", " + v.msg
			return v
		}
		for i := range kept {
			h.m.slots[i].cdfs = kept[i]
		}
		tp := planTile(s, h.m, fh, start)
		h.m.finish(fh, tp)
		if fh.disEnd == 1 {
			h.m.frameCdfs = start
			for i := range h.m.slots {
				if fh.refresh>>uint(i)&1 == 1 {
					h.m.slots[i].cdfs = start
				}
			}
		}
		u := h.dress(&unit{typ: obuTileGroup, payload: tp.bytes, tiles: tp})
		g := &tempUnit{frames: [][]*unit{{u}}}
		g.pack(s)
		ses.clear()
		ses.feed(g.bytes)
		r.logf("tiles of the frame: %s -> %s %s", tp, ses.end, short(ses.msg))
		if ses.end != endOK {
			r.add("run ended without a verdict (tile fail)", 1)
			if strict {
				return violatef("other: %s", ses.msg)
			}
			return nil
		}
		r.add("frame decoded from the probabilities of a slot", 1)
		if d := diffCdfs(ses.st, areaFrame, 0, h.m.frameCdfs, false); d != "" {
			return violatef("in temporal unit %d, probabilities after the frame: %s", k, d)
		}
		for i := range h.m.slots {
			if sl := &h.m.slots[i]; sl.cdfs.ok {
				if d := diffCdfs(ses.st, areaSlot, i, sl.cdfs, false); d != "" {
					return violatef("in temporal unit %d, reference slot %d after the frame: %s", k, i, d)
				}
			}
		}
		r.see(uint64(fh.bits), uint64(len(tp.ops)))
	}
	ses.clear()
	return nil
}

func runC09(s *Src, r *runInfo) *violation {
	if pristine == nil {
		pristine = defaultDigests()
	}
	var v *violation
	switch s.N(5) {
	case 0:
		v = loadRun(s, r)
	case 1:
		v = tileRun(s, r, nil, "cdf")
	case 2:
		var kept [8]cdfSet
		v = tileRun(s, r, func(h *hist, ses *session, f *tileFrame) *violation {
			var v *violation
			f.start, v = storeOps(s, r, ses.st, f.start, &kept)
			for i := range kept {
				if kept[i].ok {
					f.kept[i] = kept[i]
				}
			}
			return v
		}, "cdf")
	default:
		cfg := cleanHist()
		cfg.seq.tiny = true
		cfg.frame.decodable = true
		cfg.split = true
		cfg.maxTU = 8
		cfg.lost = [2]int{1, 8}
		switch s.N(3) {
		case 0:
			cfg.mix = [2]int{1, 2}
		case 1:
			cfg.wrapped(s)
			cfg.wide = 5
		}
		cfg.damage = []int{obuFrameHdr}
		v = histRun(s, r, cfg, "cdf")
	}
	if v == nil {
		v = checkDefaults(r)
	}
	return v
}

func init() {
	register(&property{id: "C09", run: runC09,
		rule:    "a run decodes frames to the end, or frames of many scripted tiles, with probabilities saved to and loaded from the reference slots in between while other decoders of the process work or are abandoned; non-trivial if a frame follows another or a slot is loaded; distinct by everything the decoder reported",
		measure: "histories of headers; store operations with the number of adapted contexts",
		real:    append([]string{"uncompressedheader: SaveCdfs, LoadCdfs, default tables", "tilegroup: tile start, exitSymbol, frameEndUpdateCdf"}, realTiles...),
		stub:    []string{"primary reference frames (the simulator calls SaveCdfs and LoadCdfs where a header would)", "decodeTile (scripted reads), in some runs", "encoder and transport (generator)", "logger (no-op)"}})
}
