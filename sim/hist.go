package main

import (
	"fmt"
	"reflect"

	"github.com/m4tthewde/gov1/internal/obu"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
)

// A history is a generated coded video sequence together with what the model
// says a conforming decoder knows after each of its temporal units.

type histCfg struct {
	seq      seqCfg
	frame    frameCfg
	maxTU    int
	newSeq   [2]int // how often a sequence header is repeated or changed
	noise    [2]int // how often a unit that is not interpreted is put in
	crowd    [2]int // how often a temporal unit holds hundreds of units
	parts    [2]int // how often some tiles of a frame arrive
	outside  [2]int // how often a unit outside the operating point is put in
	lost     [2]int // how often a frame that could be decoded loses its tiles
	mix      [2]int // how often a frame is made such that gov1 decodes it to the end
	inject   [2]int // how often the simulator stands in for the tile decoder
	script   [2]int // how often only the content of the tile is a stand-in
	wide     int    // how often of 8 such a script uses every table
	blocks   bool   // the tile's block is split at will, segments and coefficients included
	cuts     bool   // and a tile may end within a coefficient
	habits   habits
	onlyFull bool   // only frames that gov1 decodes to the end
	plain    bool   // no redundant framing bytes
	split    bool   // tile groups may be units of their own
	noFrames bool   // sequence headers only
	noLayers bool   // no layer ids
	lossy    [2]int // how often the transport loses, repeats and reorders
	damage   []int  // header types a last, damaged header may have
}

// habits are choices of the encoder of blocks that it repeats within a run;
// 0 means none.
type habits struct {
	part, mode, skip, tx int
	small                bool // coefficients
}

type hist struct {
	s       *Src
	cfg     *histCfg
	m       *decModel
	over    bool   // nothing can follow
	seqBits []byte // the last sequence header generated, without trailing bits
	tus     []*tempUnit
	run     *runInfo
}

func newHist(s *Src, cfg *histCfg, run *runInfo) *hist {
	return &hist{s: s, cfg: cfg, m: &decModel{}, run: run}
}

func (m *decModel) snapshot() *decModel {
	c := *m
	return &c
}

func (h *hist) dress(u *unit) *unit {
	s := h.s
	if h.cfg.plain {
		u.hasSize = true
		return u
	}
	u.hasSize = s.Bool(1, 2)
	if s.Bool(1, 8) {
		u.res1 = 1
	}
	if u.hasSize && s.Bool(1, 16) {
		u.sizePad = s.N(4)
	}
	if s.Bool(1, 16) {
		u.lenPad = s.N(4)
	}
	return u
}

// layer chooses layer ids for a unit that is to be kept (or dropped).
func (h *hist) layer(u *unit, keep bool) *unit {
	s := h.s
	if keep {
		if h.cfg.noLayers || !s.Bool(1, 3) {
			return u
		}
	}
	u.ext = true
	u.res3 = s.N(8)
	in, out := [][2]int{}, [][2]int{}
	for t := 0; t < 8; t++ {
		for l := 0; l < 4; l++ {
			if h.m.opIdc == 0 || h.m.opIdc>>uint(t)&1 == 1 && h.m.opIdc>>uint(8+l)&1 == 1 {
				in = append(in, [2]int{t, l})
			} else {
				out = append(out, [2]int{t, l})
			}
		}
	}
	c := in
	if !keep {
		c = out
	}
	if len(c) == 0 {
		u.ext = false
		return u
	}
	x := c[s.N(len(c))]
	u.tid, u.sid = x[0], x[1]
	u.drop = !keep
	return u
}

func (h *hist) extraZero() int {
	if !h.cfg.plain && h.s.Bool(1, 8) {
		return h.s.N(4)
	}
	return 0
}

func (h *hist) randBytes(max int) []byte {
	n := h.s.N(max + 1)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(h.s.Bits(8))
	}
	return b
}

// seqUnit makes a sequence header and puts it in force.
func (h *hist) seqUnit() *unit {
	o := &io{gen: true, s: h.s}
	var sh *seqHdr
	if h.m.sh != nil && h.s.Bool(1, 4) {
		sh = h.nearlySame(o)
	}
	if sh == nil {
		o.w = bitw{}
		sh = seqSyntax(o, &h.cfg.seq)
	}
	h.seqBits = append([]byte(nil), o.w.b...)
	u := &unit{typ: obuSeq, sh: sh, payload: withTrailing(&o.w, h.extraZero())}
	h.m.sh = sh
	h.m.opIdc = sh.idc[0]
	h.m.needKey = true
	return h.dress(h.anyLayer(u))
}

// nearlySame repeats the last sequence header, mostly with one bit changed and
// read again from there on. It gives nil where that is no legal header of the
// kind wanted.
func (h *hist) nearlySame(o *io) *seqHdr {
	s, c := h.s, &h.cfg.seq
	b := append([]byte(nil), h.seqBits...)
	if k := s.N(8*len(b) + 4); k < 8*len(b) {
		b[k/8] ^= 128 >> uint(k%8)
	}
	for i := 0; i < 40; i++ {
		b = append(b, byte(s.N(256)))
	}
	p := &io{r: &bitr{b: b}}
	var sh *seqHdr
	if modelParse(func() { sh = seqSyntax(p, c) }) || sh.illegal {
		return nil
	}
	layered := false
	for _, x := range sh.idc {
		layered = layered || x != 0
	}
	switch {
	case c.small && (sh.fwBits > 12 || sh.fhBits > 12), c.upTo8 && (sh.maxW > 8 || sh.maxH > 8),
		c.tiny && !c.color && sh.mono == 0 && h.m.sh.mono == 1 && !s.Bool(1, 8),
		c.layered == 1 && layered, c.layered == 2 && !layered, c.noReduced && sh.reduced == 1, c.noIds && sh.ids == 1,
		c.noGrain && sh.grain == 1, c.noModel && sh.decModel == 1:
		return nil
	}
	for i := 0; i < p.r.pos; i++ {
		o.w.put(uint64(b[i/8]>>uint(7-i%8)&1), 1)
	}
	h.run.add("sequence header that differs little from the one before", 1)
	return sh
}

// anyLayer gives arbitrary layer ids to a unit that is never dropped.
func (h *hist) anyLayer(u *unit) *unit {
	if !h.cfg.plain && !h.cfg.noLayers && h.s.Bool(1, 6) {
		u.ext = true
		u.tid, u.sid, u.res3 = h.s.N(8), h.s.N(4), h.s.N(8)
	}
	return u
}

// noiseUnit is a unit that a decoder skips by its size.
func (h *hist) noiseUnit() *unit {
	types := []int{obuPadding, obuMeta, 0, obuTileList, 9, 10, 11, 12, 13, 14}
	u := &unit{typ: types[h.s.N(len(types))]}
	n := 12
	if h.s.Bool(1, 10) {
		n = 300
	}
	if h.s.Bool(1, 60) {
		// sizes of three bytes and more
		n = 1 << uint(8+h.s.N(10))
		u.payload = manyBytes(h.s, n+h.s.N(n))
		h.run.add("units of many bytes", 1)
	} else {
		u.payload = h.randBytes(n)
	}
	h.layer(u, true)
	h.run.add("fault: unit that is not interpreted put in", 1)
	return h.dress(u)
}

// crowdUnit is a small unit for temporal units of very many.
func (h *hist) crowdUnit() *unit {
	u := &unit{typ: []int{obuPadding, obuMeta, 9}[h.s.N(3)], hasSize: h.s.Bool(1, 2)}
	u.payload = make([]byte, h.s.N(3))
	return u
}

// outsideUnit is a unit outside the operating point: whatever it holds.
func (h *hist) outsideUnit() *unit {
	types := []int{obuFrameHdr, obuFrame, obuTileGroup, obuRedundant, obuMeta, obuPadding, obuTileList, 9, 0}
	u := &unit{typ: types[h.s.N(len(types))]}
	h.layer(u, false)
	if !u.ext {
		return nil
	}
	h.run.add("fault: unit outside the operating point put in", 1)
	if h.s.Bool(1, 3) && (u.typ == obuFrameHdr || u.typ == obuFrame) && h.m.sh != nil {
		// a frame header that would be understood if it were not dropped
		o := &io{gen: true, s: h.s}
		c := *h.m
		frameSyntax(o, &h.cfg.frame, &c, u.tid, u.sid)
		u.payload = withTrailing(&o.w, 0)
	} else {
		u.payload = h.randBytes(20)
	}
	return h.dress(u)
}

// frameUnits makes one frame: a header with or without its tile group.
func (h *hist) frameUnits(shown int) []*unit {
	s, m := h.s, h.m
	u := &unit{typ: obuFrameHdr}
	h.layer(u, true)
	fc := h.cfg.frame
	fc.shown = shown
	if h.cfg.mix[1] > 0 {
		fc.decodable = s.Bool(h.cfg.mix[0], h.cfg.mix[1])
	}
	if m.needKey {
		fc.types = []int{keyFrame}
		fc.shown = 1
	} else {
		fc.types = h.frameTypes()
	}
	o := &io{gen: true, s: s}
	again := m.seen
	fh := frameSyntax(o, &fc, m, u.tid, u.sid)
	u.fh = fh
	u.inForce = m.sh
	m.needKey = false
	m.seen = true
	m.frameCdfs, m.lastTile = cdfSet{}, nil
	switch {
	case again:
		u.want, u.why = mustFail, "second frame header of a frame"
	case fh.vague:
		u.want, u.why = mayFail, fh.unsupported
		h.over = true
	case fh.unsupported != "":
		u.want, u.why = mustFail, fh.unsupported
	case fh.illegal:
		u.want, u.why = mayFail, "values AV1 forbids"
	}
	if u.want == mustFail {
		h.over = true
	}
	if u.want != mustWork || !canDecode(m, fh, h.cfg.blocks) || s.Bool(h.cfg.lost[0], h.cfg.lost[1]) {
		u.payload = withTrailing(&o.w, h.extraZero())
		if fh.unsupported != "" {
			// the rest of the header: bits that a decoder which carries on
			// regardless can read
			rest := make([]byte, 80)
			if s.Bool(1, 2) {
				for i := range rest {
					rest[i] = byte(s.Bits(8))
				}
			}
			u.payload = append(u.payload, rest...)
		}
		h.run.add("fault: tiles of a frame lost", 1)
		return []*unit{h.dress(u)}
	}
	start := defaultCdfs(coefSet(fh.baseQ))
	var tp *tilePlan
	if h.cfg.blocks {
		tp = planBlocks(s, m, fh, h.cfg)
		tp.encode(start, fh.disCdf == 1)
	} else {
		tp = planTile(s, m, fh, start)
	}
	u.tiles = tp
	m.finish(fh, tp)
	if tp.cut {
		u.want, u.why = mayFail, "a coefficient without an end"
		h.over = true
		h.run.add("fault: coefficient without an end", 1)
	} else {
		h.run.add("frame decoded to the end", 1)
	}
	if h.cfg.split && s.Bool(1, 3) {
		u.payload = withTrailing(&o.w, h.extraZero())
		t := &unit{typ: obuTileGroup, ext: u.ext, tid: u.tid, sid: u.sid, res3: u.res3, tiles: tp, payload: tp.bytes}
		us := []*unit{h.dress(u)}
		for k := 0; k < 2 && s.Bool(1, 4) && s.Bool(h.cfg.noise[0], h.cfg.noise[1]); k++ {
			us = append(us, h.noiseUnit())
		}
		for k := 0; k < 2 && m.opIdc != 0 && s.Bool(1, 4) && s.Bool(h.cfg.outside[0], h.cfg.outside[1]); k++ {
			us = append(us, h.outsideUnit())
		}
		return append(us, h.dress(t))
	}
	u.typ = obuFrame
	for o.w.n%8 != 0 {
		o.w.put(0, 1)
	}
	u.payload = append(append([]byte(nil), o.w.b...), tp.bytes...)
	return []*unit{h.dress(u)}
}

// frameTypes are the frame types that make sense after this history.
func (h *hist) frameTypes() []int {
	t := h.cfg.frame.types
	usable := 0
	for i := range h.m.slots {
		if h.m.slots[i].written && h.m.slots[i].valid && !h.m.slots[i].unclear {
			usable++
		}
	}
	if usable > 0 {
		return t
	}
	var o []int
	for _, x := range t {
		if x == keyFrame || x == intraOnlyFrame {
			o = append(o, x)
		}
	}
	if len(o) == 0 {
		o = []int{keyFrame}
	}
	return o
}

// finish applies the reference update of a completely decoded frame.
func (m *decModel) finish(u *frameHdr, tp *tilePlan) {
	c := defaultCdfs(coefSet(u.baseQ))
	if u.disEnd == 0 {
		c = tp.after
	}
	m.frameCdfs, m.lastTile = c, tp
	var segs [2][2]int
	if tp.blk != nil {
		for y := range segs {
			for x := range segs[y] {
				segs[y][x] = tp.blk.cell[y][x].seg
			}
		}
	}
	for i := range m.slots {
		if u.refresh>>uint(i)&1 == 0 {
			continue
		}
		m.slots[i] = slot{own: true, segs: segs, fresh: true, written: true, valid: true, typ: u.typ, hint: u.hint, id: u.id,
			upW: u.upW, fw: u.fw, fh: u.fh, rw: u.rw, rh: u.rh, miC: u.miC, miR: u.miR,
			subX: m.sh.subX, subY: m.sh.subY, bd: m.sh.bitDepth, hints: u.hints, gm: u.gm, cdfs: c}
	}
	m.seen = false
}

// inject completes the frame whose header arrived last without its tiles: the
// simulator stands in for the tile decoder and writes what the reference
// update process leaves in the decoder's state. With no session only the model
// is changed.
func (h *hist) inject(ses *session, t *tempUnit) bool {
	m := h.m
	u := t.lastFh
	if u == nil || !m.seen || h.over || u.unsupported != "" || u.illegal || !h.s.Bool(h.cfg.inject[0], h.cfg.inject[1]) {
		return false
	}
	h.complete(ses, u)
	return true
}

func (h *hist) complete(ses *session, u *frameHdr) {
	m := h.m
	for i := range m.slots {
		if u.refresh>>uint(i)&1 == 0 {
			continue
		}
		m.slots[i] = slot{written: true, valid: true, typ: u.typ, hint: u.hint, id: u.id,
			upW: u.upW, fw: u.fw, fh: u.fh, rw: u.rw, rh: u.rh, miC: u.miC, miR: u.miR,
			subX: m.sh.subX, subY: m.sh.subY, bd: m.sh.bitDepth, hints: u.hints, gm: u.gm}
		if ses == nil {
			continue
		}
		for _, w := range slotExp(&m.slots[i]) {
			if !poke(ses.st, w.path, i, w.vals) {
				missingPaths["State."+w.path] = true
			}
		}
	}
	m.seen = false
	if ses != nil {
		poke(ses.st, "SeenFrameHeader", -1, []int{0})
		h.run.add("frame completed by a stand-in tile decoder", 1)
	}
}

// poke sets the integers or flags of a field (of element i, unless negative).
func poke(st *state.State, path string, i int, vals []int) bool {
	f, ok := fieldPath(reflect.ValueOf(st).Elem(), path)
	if !ok {
		return false
	}
	if i >= 0 {
		if f.Kind() != reflect.Array && f.Kind() != reflect.Slice || f.Len() <= i {
			return false
		}
		f = f.Index(i)
	}
	n := 0
	var set func(v reflect.Value)
	set = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Array, reflect.Slice:
			for k := 0; k < v.Len(); k++ {
				set(v.Index(k))
			}
		case reflect.Bool:
			if n < len(vals) {
				v.SetBool(vals[n] != 0)
			}
			n++
		case reflect.Int:
			if n < len(vals) {
				v.SetInt(int64(vals[n]))
			}
			n++
		}
	}
	set(f)
	return n >= len(vals)
}

// next generates one temporal unit.
func (h *hist) next() *tempUnit {
	s, m := h.s, h.m
	t := &tempUnit{}
	var l []*unit
	put := func(us ...*unit) {
		for _, u := range us {
			if u != nil {
				l = append(l, u)
			}
		}
	}
	filler := func() {
		for k := 0; k < 3 && s.Bool(h.cfg.noise[0], h.cfg.noise[1]); k++ {
			put(h.noiseUnit())
		}
		if m.opIdc != 0 {
			for k := 0; k < 3 && s.Bool(h.cfg.outside[0], h.cfg.outside[1]); k++ {
				put(h.outsideUnit())
			}
		}
	}
	put(h.dress(h.anyLayer(&unit{typ: obuTD})))
	m.seen = false
	for i := range m.slots {
		m.slots[i].fresh = false
	}
	filler()
	spread := [2]int{1, 5}
	if h.cfg.crowd[1] > 0 && s.Bool(h.cfg.crowd[0], h.cfg.crowd[1]) {
		spread = [][2]int{{0, 1}, {1, 1}, {1, 5}}[s.N(3)]
		for k := 40 + s.N(280); k > 0; k-- {
			put(h.crowdUnit())
		}
		h.run.add("temporal units of very many units", 1)
	}
	if m.sh == nil || s.Bool(h.cfg.newSeq[0], h.cfg.newSeq[1]) {
		put(h.seqUnit())
		filler()
		if h.m.sh.illegal {
			h.over = true
		}
	}
	for k := 0; h.cfg.noFrames && !h.over && k < 4 && s.Bool(1, 2); k++ {
		put(h.seqUnit())
		filler()
		h.over = m.sh.illegal
	}
	for k := 0; !h.over && !h.cfg.noFrames; k++ {
		shown := 2
		if k > 1 || !s.Bool(1, 3) {
			shown = 1
			if !h.cfg.onlyFull && s.Bool(1, 6) {
				shown = 0
			}
		}
		us := h.frameUnits(shown)
		put(us...)
		filler()
		last := us[len(us)-1]
		if last.want != mustWork || m.seen || us[0].fh.show == 1 {
			t.lastFh = us[0].fh
			break
		}
		t.lastFh = us[0].fh
	}
	// spread over frame units
	t.frames = [][]*unit{nil}
	for i, u := range l {
		if i > 0 && s.Bool(spread[0], spread[1]) {
			t.frames = append(t.frames, nil)
		}
		k := len(t.frames) - 1
		t.frames[k] = append(t.frames[k], u)
	}
	t.pack(s)
	t.after = m.snapshot()
	for _, u := range l {
		if u.want != mustWork {
			t.end, t.why = u.want, u.why
			break
		}
	}
	h.tus = append(h.tus, t)
	return t
}

// A finding is something a decoder did that the model does not allow.
type finding struct {
	aspect string
	msg    string
}

// check compares what a decoder made of a temporal unit with the model.
func (h *hist) check(ses *session, t *tempUnit, before *slotDigests) (fs []finding) {
	r := h.run
	after := t.after
	bad := func(aspect, f string, a ...any) { fs = append(fs, finding{aspect, fmt.Sprintf(f, a...)}) }
	list := t.list()
	got := ses.units()
	blind := false
	for _, u := range list {
		blind = blind || u.blind
	}
	if len(got) > len(list) && !blind {
		bad("units", "%d units were reported, %d were sent", len(got), len(list))
		return
	}
	for i := range got {
		if w := list[i]; w.blind {
			h.over = true
			return
		} else if w.want == mustFail {
			a := "frame"
			if w.typ == obuSeq {
				a = "seq"
			}
			bad(a, "unit %d uses %s, which is not supported, and was decoded without a failure", i, w.why)
			return
		} else if w.fh != nil && w.fh.vague && !w.drop {
			return
		}
		if !h.checkUnit(list[i], &got[i], i, bad) {
			return
		}
	}
	if stacks {
		for i, u := range list {
			if u.tiles != nil && u.typ != obuFrameHdr && i <= len(got) {
				r.logf("MODE %d angle %d tx %d: %v", u.tiles.yMode, u.tiles.angle, u.tiles.skip, i < len(got))
			}
		}
	}
	if ses.end != endOK {
		if len(got) >= len(list) {
			bad("units", "the decoder failed after the last unit of a temporal unit: %s", short(ses.msg))
			return
		}
		u := list[len(got)]
		if u.blind {
			h.over = true
			return
		}
		r.add("failure in a "+obuNameOf(u.typ), 1)
		if u.want == mustWork {
			if ses.end == endOOM && u.fh != nil && u.fh.miC*u.fh.miR > 1<<19 {
				r.add("memory limit reached by a large frame", 1)
				h.over = true
				return
			}
			a := map[int]string{obuSeq: "seq", obuFrameHdr: "frame", obuFrame: "frame tile", obuTileGroup: "tile"}[u.typ]
			if u.drop {
				a = "drop"
			} else if a == "" {
				a = "units"
			}
			if u.tiles != nil && u.tiles.blk != nil && !u.drop {
				a += " pixel"
			}
			bad(a+" fail", "unit %d (%s) of the temporal unit ended in a failure: %s", len(got), obuNameOf(u.typ), short(ses.msg))
			return
		}
		if u.want == mustFail && ses.end.hung() {
			bad("frame seq fail", "unit %d (%s), %s, did not end", len(got), obuNameOf(u.typ), u.why)
		}
		h.over = true
		if t.end == mustWork {
			return
		}
		// a header that failed has replaced no slot, but it may have changed
		// validity marks and order hints on its way
		if u.before != nil {
			after = u.before
		}
		after = after.snapshot()
		for i := range after.slots {
			after.slots[i].unclear, after.slots[i].fuzzy = true, true
		}
	} else {
		if len(got) != len(list) {
			bad("units", "%d units were reported, %d were sent", len(got), len(list))
			return
		}
		if ses.b.Position != 8*len(ses.b.Data) {
			bad("units", "the decoder stopped at bit %d of %d", ses.b.Position, 8*len(ses.b.Data))
		}
		if t.after.sh != nil && ses.sh != nil {
			if d := diffExp(ses.sh, "sequence header in force", t.after.sh.exp, &r.compared); d != "" {
				bad("seq", "%s", d)
			}
		}
		if d := checkOp(ses.st, t, r); d != "" {
			bad("op", "%s", d)
		}
		if d := h.checkState(ses.st, t); d != "" {
			bad("frame", "%s", d)
		}
		if t.lastFh != nil {
			if d := checkTileState(ses.st, t.lastFh, r); d != "" {
				bad("tiles", "%s", d)
			}
		}
		if t.after.frameCdfs.ok {
			if d := diffCdfs(ses.st, areaFrame, 0, t.after.frameCdfs, false); d != "" {
				bad("cdf", "probabilities after the frame: %s", d)
			}
			r.add("frame probabilities compared", 1)
		}
		if p := t.after.lastTile; p != nil && p.blk != nil {
			for i := len(list) - 1; i >= 0; i-- {
				if list[i].tiles == p && !list[i].drop {
					h.checkBlocks(ses.st, &got[i], p, bad)
					break
				}
			}
		}
	}
	for _, d := range checkSlots(ses.st, after, before, r) {
		fs = append(fs, d)
	}
	return
}

// checkBlocks compares what the last tile decoded left behind.
func (h *hist) checkBlocks(st *state.State, o *obu.Obu, p *tilePlan, bad func(string, string, ...any)) {
	r := h.run
	if d := diffBlocks(&o.TileGroup, st, p.blk, &r.compared); d != "" {
		bad("block", "tile of%s %s", p.blk.tree, d)
		return
	}
	if d := diffCdfs(st, areaTile, 0, p.after, false); d != "" {
		bad("block", "tile of%s contexts after it: %s", p.blk.tree, d)
		return
	}
	var kf [][]int
	f, ok := fieldPath(reflect.ValueOf(st).Elem(), "TileIntraFrameYModeCdf")
	if !ok {
		missingPaths["State.TileIntraFrameYModeCdf"] = true
		return
	}
	leavesOf(f, &kf)
	for i := range p.kf {
		if len(kf) != len(p.kf) || !sameProbs(kf[i], p.kf[i][:], false) {
			bad("block", "tile of%s contexts after it: y mode context %d is not as expected", p.blk.tree, i)
			return
		}
	}
	r.add("tile compared block by block", 1)
	r.weighty = true
	h.checkSamples(st, o, p, bad)
}

// checkSamples compares the decoded samples, and those that are put out.
func (h *hist) checkSamples(st *state.State, o *obu.Obu, p *tilePlan, bad func(string, string, ...any)) {
	r, b := h.run, p.blk
	u := b.fh
	if b.pic.vague {
		r.add("frame whose samples are not specified or not modelled", 1)
		return
	}
	if u.lf[0] != 0 || u.lf[1] != 0 {
		return
	}
	var e expl
	for pl := 0; pl < b.planes; pl++ {
		w, hh := 8, 8
		if pl > 0 {
			w, hh = 8>>uint(p.sh.subX), 8>>uint(p.sh.subY)
		}
		for y := 0; y < hh; y++ {
			e.set(fmt.Sprintf("CurrFrame.%d.%d...", pl, y), b.pic.s[pl][y][:w]...)
		}
	}
	if d := diffExp(st, "State", e, &r.compared); d != "" {
		bad("pixel", "samples of the frame with the tile of%s %s", b.tree, d)
		return
	}
	r.add("frame compared sample by sample", 1)
	if b.pic.coded {
		r.add("frame with a residual compared sample by sample", 1)
	}
	if b.pic.weighed {
		r.add("frame with a quantizer matrix compared sample by sample", 1)
	}
	if b.pic.edges > 0 {
		r.add("frame with filtered or upsampled edges compared sample by sample", 1)
	}
	if u.show == 0 || b.cdef != -1 || u.usesLr || u.superDenom != 8 {
		return
	}
	var out expl
	for pl := 0; pl < b.planes; pl++ {
		w, hh := u.upW, u.fh
		if pl > 0 {
			w, hh = (w+p.sh.subX)>>uint(p.sh.subX), (hh+p.sh.subY)>>uint(p.sh.subY)
		}
		var all []int
		for y := 0; y < hh; y++ {
			all = append(all, b.pic.s[pl][y][:w]...)
		}
		out.set([]string{"OutY", "OutU", "OutV"}[pl], all...)
	}
	for _, x := range out {
		f, ok := fieldPath(reflect.ValueOf(o.TileGroup), x.path)
		if !ok {
			missingPaths["TileGroup."+x.path] = true
			continue
		}
		var got []int
		flat(f, &got)
		r.compared++
		if fmt.Sprint(got) != fmt.Sprint(x.vals) {
			bad("pixel", "the shown frame with the tile of%s has %s %s, expected %s", b.tree, x.path, clip(got), clip(x.vals))
			return
		}
	}
	r.add("output frame compared sample by sample", 1)
}

func (h *hist) checkUnit(u *unit, o *obu.Obu, i int, bad func(string, string, ...any)) bool {
	r := h.run
	name := fmt.Sprintf("unit %d (%s)", i, obuNameOf(u.typ))
	var hd expl
	hd.set("ForbiddenBit", 0)
	hd.set("Type", u.typ)
	hd.set("ExtensionFlag", b2i(u.ext))
	hd.set("HasSizeField", b2i(u.hasSize))
	hd.set("ReservedBit", u.res1)
	if u.ext {
		hd.set("ExtensionHeader.TemporalID", u.tid)
		hd.set("ExtensionHeader.SpatialID", u.sid)
		hd.set("ExtensionHeader.Reserved3Bits", u.res3)
	}
	if d := diffExp(o.Header, "Header", hd, &r.compared); d != "" {
		bad("units", "%s: %s", name, d)
		return false
	}
	var sz expl
	sz.set("Size", len(u.payload))
	if d := diffExp(o, "Obu", sz, &r.compared); d != "" {
		bad("units", "%s: %s", name, d)
		return false
	}
	switch {
	case u.drop:
		r.add("unit outside the operating point", 1)
	case u.typ == obuSeq:
		if d := diffExp(o.SequenceHeader, "SequenceHeader", u.sh.exp, &r.compared); d != "" {
			bad("seq", "%s: %s", name, d)
			return false
		}
		r.add("sequence header compared", 1)
	case u.typ == obuFrameHdr || u.typ == obuFrame:
		if d := diffExp(o.UncompressedHeader, "UncompressedHeader", u.fh.exp, &r.compared); d != "" {
			bad("frame", "%s: %s", name, d)
			return false
		}
		r.add("frame header compared", 1)
	}
	if u.inForce != nil && !u.drop && (u.typ == obuFrameHdr || u.typ == obuFrame) {
		if d := diffExp(o.SequenceHeader, "SequenceHeader in force", u.inForce.exp, &r.compared); d != "" {
			bad("seq", "%s: %s", name, d)
			return false
		}
	}
	if u.tiles != nil && (u.typ == obuFrame || u.typ == obuTileGroup) && !u.drop {
		var e expl
		e.set("Skip", u.tiles.skip)
		e.set("YMode", u.tiles.yMode)
		e.set("AngleDeltaY", u.tiles.angle)
		if d := diffExp(o.TileGroup, "TileGroup", e, &r.compared); d != "" {
			bad("tile", "%s: %s", name, d)
			return false
		}
		if u.tiles.blk != nil {
			r.add("tile of several blocks compared", 1)
			if n := u.tiles.blk.filters; n > 0 {
				r.add("blocks predicted by filter intra", int64(n))
			}
			if n := u.tiles.blk.restored; n > 0 {
				r.add("planes with restoration parameters", int64(n))
			}
			if u.tiles.blk.inter {
				r.add("tile of intra blocks in an inter frame compared", 1)
			}
			r.add("coefficients coded", int64(u.tiles.blk.coefs))
			r.add("coefficients with a golomb part", int64(u.tiles.blk.big))
			if n := u.tiles.blk.chroma; n > 0 {
				r.add("blocks with chroma", int64(n))
				r.add("blocks predicting chroma from luma", int64(u.tiles.blk.cfl))
			}
		}
	}
	return true
}

// checkState compares the header values kept in the decoder's state after the
// temporal unit with the last header of it.
func (h *hist) checkState(st *state.State, t *tempUnit) string {
	r := h.run
	var e expl
	e.set("SeenFrameHeader", b2i(t.after.seen))
	if t.lastFh != nil {
		e.set("CurrentFrameId", t.after.curId)
	}
	if d := diffExp(st, "State", e, &r.compared); d != "" {
		return d
	}
	if t.lastFh != nil {
		return diffExp(st, "State", t.lastFh.st, &r.compared)
	}
	return ""
}

func checkOp(st *state.State, t *tempUnit, r *runInfo) string {
	var e expl
	e.set("OperatingPointIdc", t.after.opIdc)
	return diffExp(st, "State", e, &r.compared)
}

func checkTileState(st *state.State, u *frameHdr, r *runInfo) string {
	var e expl
	t := &u.tiles
	e.set("MiColStarts...", t.colStarts...)
	e.set("MiRowStarts...", t.rowStarts...)
	e.set("TileCols", t.cols)
	e.set("TileRows", t.rows)
	e.set("TileColsLog2", t.colsLog2)
	e.set("TileRowsLog2", t.rowsLog2)
	if t.colsLog2 > 0 || t.rowsLog2 > 0 {
		e.set("TileSizeBytes", t.sizeBytes)
	}
	r.add("tile layout compared", 1)
	if t.cols*t.rows > 1 {
		r.add("layout with several tiles", 1)
	}
	return diffExp(st, "State", e, &r.compared)
}

// slotDigests summarises everything kept per reference slot.
type slotDigests [8]uint64

var slotFields []int // State fields indexed by slot
var slotFieldsDone bool

func digestSlots(st *state.State) *slotDigests {
	v := reflect.ValueOf(st).Elem()
	if !slotFieldsDone {
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if f.Type.Kind() == reflect.Array && f.Type.Len() == 8 && (len(f.Name) > 3 && f.Name[:3] == "Ref" || len(f.Name) > 5 && f.Name[:5] == "Saved" || f.Name == "Memory") && f.Name != "RefValid" && f.Name != "RefOrderHint" && f.Type.Elem().Kind() != reflect.Bool {
				slotFields = append(slotFields, i)
			}
		}
		slotFieldsDone = true
	}
	var d slotDigests
	for i := range d {
		g := digester{h: 1}
		for _, f := range slotFields {
			g.val(v.Field(f).Index(i))
		}
		d[i] = g.h
	}
	return &d
}

// slotExp lists what a slot holds.
func slotExp(s *slot) (e expl) {
	if !s.unclear {
		e.set("RefOrderHint", s.hint)
	}
	if !s.fuzzy {
		e.set("RefValid", b2i(s.valid))
	}
	if s.written {
		e.set("RefFrameType", s.typ)
		e.set("RefFrameId", s.id)
		e.set("RefUpscaledWidth", s.upW)
		e.set("RefFrameWidth", s.fw)
		e.set("RefFrameHeight", s.fh)
		e.set("RefRenderWidth", s.rw)
		e.set("RefRenderHeight", s.rh)
		e.set("RefMiCols", s.miC)
		e.set("RefMiRows", s.miR)
		e.set("RefSubsamplingX", s.subX)
		e.set("RefSubsamplingY", s.subY)
		e.set("RefBitDepth", s.bd)
		e.set("SavedOrderHints", s.hints[:]...)
		g := make([]int, 6)
		for k := 1; k < 8; k++ {
			g = append(g, s.gm[k][:]...)
		}
		e.set("SavedGmParams", g...)
	}
	return
}

// diffSegs compares the segment ids kept with a frame that gov1 completed.
func diffSegs(v reflect.Value, i int, s *slot, r *runInfo) string {
	if !s.own {
		return ""
	}
	f, ok := fieldPath(v, "SavedSegmentIds")
	if !ok || f.Kind() != reflect.Array && f.Kind() != reflect.Slice || f.Len() <= i {
		missingPaths["State.SavedSegmentIds"] = true
		return ""
	}
	at := func(f reflect.Value, n int) (reflect.Value, bool) {
		ok := (f.Kind() == reflect.Array || f.Kind() == reflect.Slice) && n < f.Len()
		if !ok {
			return f, false
		}
		return f.Index(n), true
	}
	f = f.Index(i)
	for y := 0; y < 2 && y < s.miR; y++ {
		for x := 0; x < 2 && x < s.miC; x++ {
			c, ok := at(f, y)
			if ok {
				c, ok = at(c, x)
			}
			if !ok {
				missingPaths["State.SavedSegmentIds"] = true
				return ""
			}
			var got []int
			flat(c, &got)
			r.compared++
			if len(got) != 1 || got[0] != s.segs[y][x] {
				return fmt.Sprintf("reference slot %d: the segment id at row %d, column %d is %s, expected %d", i, y, x, clip(got), s.segs[y][x])
			}
			if s.segs[y][x] != 0 {
				r.add("slot segment ids other than 0 compared", 1)
			}
		}
	}
	return ""
}

func checkSlots(st *state.State, m *decModel, before *slotDigests, r *runInfo) (fs []finding) {
	var now *slotDigests
	if before != nil {
		now = digestSlots(st)
	}
	for i := range m.slots {
		s := &m.slots[i]
		e := slotExp(s)
		v := reflect.ValueOf(st).Elem()
		for _, w := range e {
			f, ok := fieldPath(v, w.path)
			if !ok || f.Kind() != reflect.Array && f.Kind() != reflect.Slice || f.Len() <= i {
				missingPaths["State."+w.path] = true
				continue
			}
			var got []int
			flat(f.Index(i), &got)
			if w.path == "SavedGmParams" {
				for k := 0; k < 6 && k < len(got); k++ {
					got[k] = 0 // not part of a frame's parameters
				}
			}
			if w.path == "SavedOrderHints" && len(got) > 0 {
				got[0] = 0
			}
			r.compared++
			if fmt.Sprint(got) != fmt.Sprint(w.vals) {
				fs = append(fs, finding{"slots", fmt.Sprintf("reference slot %d: %s is %s, expected %s", i, w.path, clip(got), clip(w.vals))})
				return
			}
		}
		if d := diffSegs(v, i, s, r); d != "" {
			fs = append(fs, finding{"slots", d})
			return
		}
		if before != nil && !s.fresh && now[i] != before[i] {
			fs = append(fs, finding{"slots", fmt.Sprintf("reference slot %d changed although no completed frame refreshed it", i)})
			return
		}
		if s.written && s.cdfs.ok {
			if d := diffCdfs(st, areaSlot, i, s.cdfs, false); d != "" {
				fs = append(fs, finding{"slots cdf", fmt.Sprintf("probabilities in reference slot %d: %s", i, d)})
				return
			}
			r.add("slot probabilities compared", 1)
		}
	}
	return
}

var _ = uncompressedheader.SaveCdfs
