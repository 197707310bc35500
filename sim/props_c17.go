package main

import (
	"reflect"
	"strings"
)

// C17: a receiver that joins at a sequence header and a shown key frame
// decodes what one decodes that was there before, whatever came before.

// endsOf delivers temporal units until one of them does not end normally.
func feedAll(ses *session, tus []*tempUnit) bool {
	for _, t := range tus {
		ses.clear()
		ses.feed(t.bytes)
		if ses.end != endOK {
			return false
		}
	}
	ses.clear()
	return true
}

// past makes a decoder decode a history of its own, its faults included.
func past(s *Src, r *runInfo, ses *session) bool {
	cfg := cleanHist()
	cfg.maxTU = 6
	switch s.N(4) {
	case 0:
		cfg = blockHist(s)
	case 1:
		cfg.seq.tiny = true
		cfg.mix = [2]int{1, 2}
		cfg.script = [2]int{3, 4}
		cfg.frame.wrappable = true
		cfg.wide = 2
	case 2:
		cfg.seq.tiny = true
		cfg.frame.decodable = true
		cfg.blocks = s.Bool(1, 2)
		cfg.frame.segments = true
	default:
		cfg.frame.manyTiles = s.Bool(1, 2)
		cfg.noLayers = cfg.frame.manyTiles
	}
	h := newHist(s, cfg, newRunInfo())
	n := 1 + s.N(cfg.maxTU)
	if s.Bool(1, 2) {
		n = 1 + s.N(2)
	}
	if s.Bool(1, 3) {
		var sent []*tempUnit
		for i := 0; i < n && !h.over; i++ {
			sent = append(sent, h.next())
		}
		rcv := &receiver{h: newHist(s, cfg, newRunInfo())}
		for _, t := range faulty(s, sent, r) {
			rcv.expect(t)
			if t.end != mustWork {
				break
			}
			r.logf("past: %s", t)
			if !feedAll(ses, []*tempUnit{t}) {
				return false
			}
		}
		return true
	}
	for i := 0; i < n && !h.over; i++ {
		t := h.next()
		if t.end != mustWork {
			break
		}
		r.logf("past: %s", t)
		if !feedAll(ses, []*tempUnit{t}) {
			return false
		}
		if cfg.script[1] > 0 {
			if _, ok := h.script(ses, t); !ok {
				return false
			}
		}
		if cfg.frame.manyTiles && s.Bool(1, 2) && !h.someTiles(ses, t) {
			return false
		}
	}
	return true
}

// paint gives the frames of the past other contents: what gov1 reconstructs
// hardly varies, and a stream may have put any samples there.
func paint(s *Src, ses *session) {
	st := reflect.ValueOf(ses.st).Elem()
	for _, n := range []string{"CurrFrame", "CdefFrame", "UpscaledCurrFrame", "UpscaledCdefFrame", "LrFrame"} {
		f, ok := fieldPath(st, n)
		if !ok {
			missingPaths[n] = true
			continue
		}
		v := s.N(256)
		for p := 0; p < f.Len(); p++ {
			for y := 0; y < 8 && y < f.Index(p).Len(); y++ {
				row := f.Index(p).Index(y)
				for x := 0; x < 8 && x < row.Len(); x++ {
					if row.Index(x).Kind() == reflect.Int {
						row.Index(x).SetInt(int64((v + 37*p + 11*y + 5*x) & 255))
					}
				}
			}
		}
	}
}

func runC17(s *Src, r *runInfo) *violation {
	old := newSession()
	if !past(s, r, old) {
		r.add("run whose past ended in a failure", 1)
		return nil
	}
	if !s.Bool(1, 4) {
		paint(s, old)
		r.logf("past: frames of other contents")
		r.add("samples of the past scripted", 1)
	}
	cfg := cleanHist()
	cfg.maxTU = 4
	cfg.seq.tiny = true
	switch s.N(4) {
	case 0, 1:
		cfg = blockHist(s)
		cfg.maxTU = 4
	case 2:
		cfg.mix = [2]int{1, 2}
	default:
		cfg.frame.decodable = true
	}
	h := newHist(s, cfg, r)
	fresh := newOwnSession()
	n := 1 + s.N(cfg.maxTU)
	for i := 0; i < n && !h.over; i++ {
		t := h.next()
		if t.end != mustWork {
			break
		}
		r.logf("temporal unit %d: %s", i, t)
		old.clear()
		fresh.clear()
		fresh.feed(t.bytes)
		old.feed(t.bytes)
		if d := h.sameAsFresh(old, fresh, t, i); d != "" {
			return violatef("temporal unit %d after the point of entry: %s", i, strings.ReplaceAll(d, "{it}", "a decoder that starts there"))
		}
		r.state(uint64(i), uint64(len(t.list())), lightDigest(fresh.units()))
		r.see(lightDigest(fresh.units()))
		if fresh.end != endOK {
			r.add("run ended without a verdict", 1)
			if strict {
				return violatef("failure: %s", fresh.msg)
			}
			return nil
		}
		r.weighty = true
	}
	old.clear()
	fresh.clear()
	return nil
}

// sameAsFresh compares what two decoders made of a temporal unit.
func (h *hist) sameAsFresh(old, fresh *session, t *tempUnit, i int, but ...string) string {
	r := h.run
	if old.end != fresh.end || old.end != endOK && short(old.msg) != short(fresh.msg) {
		return "it ended in " + old.end.String() + " (" + short(old.msg) + "), for {it} in " + fresh.end.String() + " (" + short(fresh.msg) + ")"
	}
	a, b := old.units(), fresh.units()
	if len(a) != len(b) {
		return itoa(len(a)) + " units were decoded, " + itoa(len(b)) + " by {it}"
	}
	list := t.list()
	for k := range a {
		// what a unit of this type says; the rest are leftovers of earlier ones
		fields := []string{"Header", "Size"}
		if k < len(list) && !list[k].drop {
			switch list[k].typ {
			case obuSeq:
				fields = append(fields, "SequenceHeader")
			case obuFrameHdr:
				fields = append(fields, "SequenceHeader", "UncompressedHeader")
			case obuFrame:
				fields = append(fields, "SequenceHeader", "UncompressedHeader")
			}
		}
		x, y := reflect.ValueOf(&a[k]).Elem(), reflect.ValueOf(&b[k]).Elem()
		for _, n := range fields {
			f, g := x.FieldByName(n), y.FieldByName(n)
			if !f.IsValid() {
				missingPaths["Obu."+n] = true
				continue
			}
			r.compared++
			if d := unitDiff(f, g, "PrevFrameId"); d != "" {
				return "unit " + itoa(k) + " (" + obuNameOf(list[k].typ) + ") was decoded differently than by {it}: " + n + d
			}
		}
	}
	if old.end != endOK {
		return ""
	}
	if d := liveDiff(reflect.ValueOf(old.st).Elem(), reflect.ValueOf(fresh.st).Elem(), liveState(t, but...), &r.compared); d != "" {
		return "the state it left differs from that of {it} in" + d
	}
	if t.lastFh != nil {
		if d := sameCdfs(old, fresh, areaFrame, 0, &r.compared); d != "" {
			return "probabilities of the frame differ from those of {it}: " + d
		}
	}
	for i := range t.after.slots {
		if t.after.slots[i].written {
			if d := sameCdfs(old, fresh, areaSlot, i, &r.compared); d != "" {
				return "probabilities in slot " + itoa(i) + " differ from those of {it}: " + d
			}
		}
	}
	for k := range a {
		if u := list[k]; u.tiles != nil && !u.drop && u.typ != obuFrameHdr {
			x, y := reflect.ValueOf(&a[k]).Elem().FieldByName("TileGroup"), reflect.ValueOf(&b[k]).Elem().FieldByName("TileGroup")
			if x.IsValid() {
				if d := liveDiff(x, y, liveTile(u), &r.compared); d != "" {
					return "unit " + itoa(k) + " (" + obuNameOf(u.typ) + ") left something else than in {it}:" + d
				}
			}
			r.add("decoded frame compared", 1)
		}
	}
	return ""
}

// sameCdfs compares one area of probabilities of two decoders.
func sameCdfs(old, fresh *session, area, slot int, compared *int64) string {
	a, b := cdfLeaves(old.st, area, slot), cdfLeaves(fresh.st, area, slot)
	for i := range a {
		if !sameProbs(a[i], b[i], false) {
			return leafName(i)
		}
	}
	*compared += int64(len(a))
	return ""
}

// A live is a field that means something now, and how much of it: the first
// so many elements of each level of lists, or one of them (element -1-n).
type live struct {
	path string
	dims []int
}

func planesOf(path string, u *frameHdr, h *seqHdr, w, x int) (o []live) {
	for p := 0; p < h.numPlanes; p++ {
		ww, hh := w, u.fh
		if p > 0 {
			ww, hh = (w+h.subX)>>uint(h.subX), (hh+h.subY)>>uint(h.subY)
		}
		l := live{path, []int{-1 - p, hh, ww}}
		if x >= 0 {
			l.dims = append([]int{-1 - x}, l.dims...)
		}
		o = append(o, l)
	}
	return
}

// liveState lists what the state holds after a temporal unit.
func liveState(t *tempUnit, but ...string) (o []live) {
	m := t.after
	put := func(dims []int, names ...string) {
	names:
		for _, n := range names {
			for _, b := range but {
				if n == b {
					continue names
				}
			}
			o = append(o, live{n, dims})
		}
	}
	put(nil, "OperatingPointIdc", "SeenFrameHeader")
	u := t.lastFh
	if u == nil {
		return
	}
	put(nil, "MiCols", "MiRows", "TileCols", "TileRows", "TileColsLog2", "TileRowsLog2", "MiColStarts", "MiRowStarts", "FeatureEnabled", "FeatureData", "GmType", "CurrentFrameId")
	if !m.seen && m.lastTile != nil {
		put([]int{u.miR, u.miC}, "MiSizes", "RefFrames", "DeltaLFs")
		// CDEF looks at whole blocks of 8x8
		whole := &frameHdr{fh: 4 * u.miR}
		o = append(o, planesOf("CurrFrame", whole, m.sh, 4*u.miC, -1)...)
		o = append(o, planesOf("CdefFrame", u, m.sh, u.fw, -1)...)
		for _, n := range []string{"UpscaledCurrFrame", "UpscaledCdefFrame", "LrFrame"} {
			o = append(o, planesOf(n, u, m.sh, u.upW, -1)...)
		}
		put(nil, "CurrentQIndex", "DeltaLF")
	}
	for i := range m.slots {
		s := &m.slots[i]
		if !s.written {
			continue
		}
		put([]int{-1 - i}, "RefValid", "RefOrderHint", "RefFrameType", "RefFrameId", "RefUpscaledWidth", "RefFrameWidth", "RefFrameHeight", "RefRenderWidth", "RefRenderHeight", "RefMiCols", "RefMiRows", "RefSubsamplingX", "RefSubsamplingY", "RefBitDepth", "SavedOrderHints", "SavedGmParams")
		put([]int{-1 - i, s.miR, s.miC}, "SavedSegmentIds")
	}
	return
}

// liveTile lists what a completed frame leaves besides.
func liveTile(u *unit) (o []live) {
	h, f := u.inForce, u.fh
	if f == nil || h == nil {
		return nil
	}
	for _, n := range []string{"SegmentIds", "YModes", "Skips", "SkipModes", "IsInters", "TxSizes", "InterTxSizes", "TxTypes"} {
		o = append(o, live{n, []int{f.miR, f.miC}})
	}
	for i := 0; i < 8; i++ {
		if f.refresh>>uint(i)&1 == 1 {
			o = append(o, planesOf("FrameStore", f, h, f.upW, i)...)
		}
	}
	if f.show == 1 {
		o = append(o, live{"OutY", []int{f.fh, f.upW}})
		if h.numPlanes > 1 {
			d := []int{(f.fh + h.subY) >> uint(h.subY), (f.upW + h.subX) >> uint(h.subX)}
			o = append(o, live{"OutU", d}, live{"OutV", d})
		}
	}
	return
}

// liveDiff names the live fields in which two structures differ.
func liveDiff(a, b reflect.Value, l []live, compared *int64) (o string) {
	for _, w := range l {
		x, ok := fieldPath(a, w.path)
		y, _ := fieldPath(b, w.path)
		if !ok {
			missingPaths[w.path] = true
			continue
		}
		*compared++
		p, q := digester{h: 1}, digester{h: 1}
		p.part(x, w.dims)
		q.part(y, w.dims)
		if p.h != q.h {
			o += " " + w.path
			if len(w.dims) > 0 && w.dims[0] < 0 {
				o += " " + itoa(-1-w.dims[0])
			}
		}
	}
	return
}

// part adds the live elements of v.
func (d *digester) part(v reflect.Value, dims []int) {
	if k := v.Kind(); len(dims) == 0 || k != reflect.Array && k != reflect.Slice {
		d.val(v)
		return
	}
	if n := dims[0]; n < 0 {
		if -1-n < v.Len() {
			d.part(v.Index(-1-n), dims[1:])
		}
		return
	}
	for i := 0; i < dims[0] && i < v.Len(); i++ {
		d.part(v.Index(i), dims[1:])
	}
}

// unitDiff names the fields that differ, but for the one named.
func unitDiff(a, b reflect.Value, but string) (o string) {
	if a.Kind() == reflect.Struct {
		for k := 0; k < a.NumField(); k++ {
			if a.Type().Field(k).Name == but {
				continue // tells of the past by definition
			}
			if d := unitDiff(a.Field(k), b.Field(k), but); d != "" {
				o += " " + a.Type().Field(k).Name + d
			}
		}
		return
	}
	x, y := digester{h: 1}, digester{h: 1}
	x.small(a)
	y.small(b)
	if x.h != y.h {
		return ":"
	}
	return ""
}

func init() {
	register(&property{id: "C17", run: runC17,
		rule:    "a run gives one decoder a past of its own, with losses, and then lets it and a new decoder decode the same stream from a sequence header and key frame on; non-trivial if a temporal unit was compared; distinct by everything the decoders reported",
		measure: "position after the point of entry, units and everything decoded from them",
		real:    realTiles, stub: []string{"encoder and transport (generator)", "content of some tiles of the past and of some frames of the past (script)", "logger (no-op)"}})
}
