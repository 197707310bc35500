package main

import (
	"fmt"
	"reflect"

	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/literal"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/symbol"
	"github.com/m4tthewde/gov1/internal/tilegroup"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
)

// Frames with any number of tiles. gov1's own tile decoder handles only one
// 8x8 block, so a scripted one takes its place (tilegroup.VerifTile): the tile
// group syntax, the set-up and the end of the symbol decoder, the symbol
// decoder itself and the probability tables are the real ones.

// racDec is an arithmetic decoder written for this simulator: x is the offset
// of the code value in the current interval.
type racDec struct {
	b     []byte
	pos   int
	x     int
	rng   int
	shift int
}

func newRacDec(b []byte) *racDec {
	d := &racDec{b: b, rng: 1 << 15}
	for i := 0; i < 15; i++ {
		d.x = d.x<<1 | d.bit()
	}
	return d
}
func (d *racDec) bit() int {
	v := 0
	if d.pos < 8*len(d.b) {
		v = int(d.b[d.pos/8]>>uint(7-d.pos%8)) & 1
	}
	d.pos++
	return v
}
func (d *racDec) symbol(cdf []int) int {
	n := len(cdf) - 1
	hi := d.rng
	for s := 0; ; s++ {
		lo := 0
		if s < n-1 {
			lo = (d.rng>>8)*((1<<15-cdf[s])>>6)>>1 + 4*(n-s-1)
		}
		if d.x < d.rng-lo {
			d.x -= d.rng - hi
			d.rng = hi - lo
			for d.rng < 1<<15 {
				d.rng *= 2
				d.x = 2*d.x + d.bit()
				d.shift++
			}
			return s
		}
		hi = lo
	}
}
func (d *racDec) literal(n int) int {
	v := 0
	for ; n > 0; n-- {
		v = 2*v + d.symbol([]int{1 << 14, 1 << 15, 0})
	}
	return v
}
func (d *racDec) ns(n int) int {
	w := bitLen(n)
	m := 1<<uint(w) - n
	v := d.literal(w - 1)
	if v < m {
		return v
	}
	return 2*v - m + d.literal(1)
}

// A script is what the stand-in decoder does in one tile.
type scriptOp struct {
	kind int // 0 context of the tile, 1 own context, 2 literal, 3 NS
	leaf int
	own  int
	n    int
	want int
}

type tileScript struct {
	ops    []scriptOp
	own    [][]int // contexts that belong to no table, as they start
	bytes  []byte  // as sent
	coded  bool    // made by an encoder; otherwise arbitrary bytes
	after  cdfSet
	maxBit int // bits left to read at the end; may be negative
}

func randomCdf(s *Src) []int {
	n := 2 + s.N(15)
	if s.Bool(1, 3) {
		n = []int{2, 3, 4, 16}[s.N(4)]
	}
	c := make([]int, n+1)
	kind := s.N(4)
	for i := 0; i < n-1; i++ {
		switch kind {
		case 0:
			c[i] = s.N(1<<15 + 1)
		case 1:
			c[i] = 1<<15*(i+1)/n + s.N(64) - 32
		case 2:
			c[i] = s.N(64)
		case 3:
			c[i] = 1<<15 - s.N(64)
		}
		c[i] = clampInt(1, 1<<15, c[i]) // no interval is as large as the whole
	}
	for i := 1; i < n-1; i++ { // in order
		for j := i; j > 0 && c[j] < c[j-1]; j-- {
			c[j], c[j-1] = c[j-1], c[j]
		}
	}
	c[n-1] = 1 << 15
	c[n] = []int{0, 0, 14, 15, 16, 30, 31, 32}[s.N(8)]
	return c
}

// writeScript makes a tile: first the steps, then bytes that hold them.
// A wide one uses every table once or twice.
func writeScript(s *Src, start cdfSet, frozen bool, maxSteps int, wide bool) *tileScript {
	t := &tileScript{coded: wide || s.N(4) > 0}
	c := start.clone()
	for k := s.N(4); k > 0; k-- {
		t.own = append(t.own, randomCdf(s))
	}
	own := make([][]int, len(t.own))
	for i := range own {
		own[i] = append([]int(nil), t.own[i]...)
	}
	// few contexts, so that each adapts often
	var leaves []int
	for k := 1 + s.N(5); k > 0; k-- {
		if s.Bool(1, 2) {
			leaves = append(leaves, s.N(len(cdfLeafTab)))
			continue
		}
		// the large tables are not all there is
		tb := &cdfTables[s.N(len(cdfTables))]
		leaves = append(leaves, tb.first+s.N(tb.n))
	}
	var queue []int
	if wide {
		first := s.N(len(cdfTables))
		for k := range cdfTables {
			tb := &cdfTables[(first+k)%len(cdfTables)]
			for n := 1 + s.N(2); n > 0; n-- {
				queue = append(queue, tb.first+s.N(tb.n))
			}
		}
	}
	e := newRac()
	var d *racDec
	if !t.coded {
		n := 1 + s.N(12)
		if s.Bool(1, 4) {
			n = 1 + s.N(2)
		}
		for i := 0; i < n; i++ {
			b := byte(s.N(256))
			switch s.N(6) {
			case 0:
				b = 0
			case 1:
				b = 255
			}
			t.bytes = append(t.bytes, b)
		}
		d = newRacDec(t.bytes)
	}
	skew := s.N(3)
	for k := s.N(maxSteps+1) + len(queue); k > 0; k-- {
		o := scriptOp{}
		switch x := s.N(8); {
		case len(queue) > 0:
			o.leaf = queue[0]
			queue = queue[1:]
		case x < 4:
			o.kind = 0
			o.leaf = leaves[s.N(len(leaves))]
		case x < 6 && len(own) > 0:
			o.kind = 1
			o.own = s.N(len(own))
		case x == 6:
			o.kind = 2
			o.n = s.N(9)
			if s.Bool(1, 8) {
				o.n = s.N(25)
			}
		default:
			o.kind = 3
			o.n = 1 + s.N(40)
			if s.Bool(1, 8) {
				o.n = 1 + s.N(1<<uint(s.N(20)))
			}
		}
		var cdf []int
		switch o.kind {
		case 0:
			cdf = c.leaf(o.leaf)
			if len(cdf) < 3 {
				continue
			}
		case 1:
			cdf = own[o.own]
		}
		if d != nil {
			// stop before the bytes are overdrawn, most of the time
			if 8*len(t.bytes)-15-d.shift < -8 && !s.Bool(1, 20) {
				break
			}
			switch o.kind {
			case 2:
				o.want = d.literal(o.n)
			case 3:
				o.want = d.ns(o.n)
			default:
				o.want = d.symbol(cdf)
			}
		} else {
			switch o.kind {
			case 2:
				o.want = s.N(1 << uint(o.n))
				e.literal(o.want, o.n)
			case 3:
				o.want = s.N(o.n)
				e.ns(o.want, o.n)
			default:
				n := len(cdf) - 1
				switch skew {
				case 0:
					o.want = s.N(n)
				case 1:
					o.want = 0
					if s.Bool(1, 8) {
						o.want = s.N(n)
					}
				case 2:
					o.want = n - 1
					if s.Bool(1, 8) {
						o.want = s.N(n)
					}
				}
				e.symbol(cdf, o.want)
			}
		}
		if o.kind < 2 && !frozen {
			if o.kind == 0 {
				cdf = c.own(o.leaf)
			}
			adapt(cdf, o.want)
		}
		t.ops = append(t.ops, o)
	}
	if t.coded {
		t.bytes = e.finish(s.Bool(1, 2))
		if s.Bool(1, 3) {
			t.bytes = append(t.bytes, make([]byte, 1+s.N(6))...) // zero padding
			if s.Bool(1, 40) {
				t.bytes = append(t.bytes, make([]byte, s.N(1<<uint(8+s.N(10))))...)
			}
		}
		t.maxBit = 8*len(t.bytes) - 15 - e.shift
	} else {
		t.maxBit = 8*len(t.bytes) - 15 - d.shift
	}
	t.after = c
	return t
}

// tileFrame is the frame whose tiles are scripted.
type tileFrame struct {
	h       *hist
	fh      *frameHdr
	start   cdfSet
	scripts []*tileScript
	offs    []int // bit at which the tile starts in its delivery
	sent    []bool
	base    int  // bits delivered before this delivery
	seen    int  // tiles decoded
	crowd   bool // so many tiles that not every one is looked at closely
	order   []int
	fs      []finding
	kept    [8]cdfSet // what else was saved to the slots
	prepare func()
}

// groups packs tiles first..last into a tile group.
func (f *tileFrame) group(s *Src, first, last int, whole bool) (payload []byte, offs map[int]int) {
	t := &f.fh.tiles
	var w bitw
	if t.cols*t.rows > 1 {
		if whole && s.Bool(1, 2) {
			w.put(0, 1)
		} else {
			w.put(1, 1)
			w.put(uint64(first), t.colsLog2+t.rowsLog2)
			w.put(uint64(last), t.colsLog2+t.rowsLog2)
		}
		for w.n%8 != 0 {
			w.put(0, 1)
		}
	}
	payload = w.b
	offs = map[int]int{}
	for i := first; i <= last; i++ {
		b := f.scripts[i].bytes
		if i < last {
			n := len(b) - 1
			for k := 0; k < t.sizeBytes; k++ {
				payload = append(payload, byte(n))
				n >>= 8
			}
		}
		offs[i] = len(payload)
		payload = append(payload, b...)
	}
	return
}

// run is the stand-in tile decoder.
func (f *tileFrame) run(b *bitstream.BitStream, st *state.State, frozen bool) {
	bad := func(aspect, m string, a ...any) { f.fs = append(f.fs, finding{aspect, fmt.Sprintf(m, a...)}) }
	r := f.h.run
	t := &f.fh.tiles
	if f.seen >= len(f.order) || len(f.fs) > 0 {
		bad("tiles", "more tiles were decoded than sent")
		panic("stop")
	}
	i := f.order[f.seen]
	f.seen++
	if f.prepare != nil {
		f.prepare()
	}
	sc := f.scripts[i]
	name := fmt.Sprintf("tile %d of %d", i, t.cols*t.rows)
	var e expl
	e.set("TileNum", i)
	e.set("MiRowStart", t.rowStarts[i/t.cols])
	e.set("MiRowEnd", t.rowStarts[i/t.cols+1])
	e.set("MiColStart", t.colStarts[i%t.cols])
	e.set("MiColEnd", t.colStarts[i%t.cols+1])
	if d := diffExp(st, "State", e, &r.compared); d != "" {
		bad("tiles", "%s: %s", name, d)
	}
	var q expl
	q.set("CurrentQIndex", f.fh.baseQ)
	if d := diffExp(st, "State", q, &r.compared); d != "" {
		bad("tiles quant", "%s: %s", name, d)
	}
	if want := f.base + 8*f.offs[i] + minInt(15, 8*len(sc.bytes)); b.Position != want {
		bad("entropy", "%s: its symbols are read from bit %d on, expected %d", name, b.Position, want)
	}
	if frozen != (f.fh.disCdf == 1) {
		bad("frame", "%s: adaptation is switched wrongly", name)
	}
	closely := !f.crowd || i%16 == 1
	if !closely {
	} else if d := diffCdfs(st, areaTile, 0, f.start, true); d != "" {
		bad("cdf", "%s does not start from the frame's probabilities: %s", name, d)
	}
	if len(f.fs) > 0 {
		panic("stop")
	}
	leaves := cdfLeaves(st, areaTile, 0)
	c := f.start.clone()
	own := make([][]int, len(sc.own))
	ownModel := make([][]int, len(sc.own))
	for k := range own {
		own[k] = append([]int(nil), sc.own[k]...)
		ownModel[k] = append([]int(nil), sc.own[k]...)
	}
	uh := uncompressedheader.UncompressedHeader{DisableCdfUpdate: frozen}
	for k, o := range sc.ops {
		var got int
		var real, model []int
		what := ""
		switch o.kind {
		case 0:
			real = leaves[o.leaf]
			model = c.leaf(o.leaf)
			if !frozen {
				model = c.own(o.leaf)
			}
			what = "a symbol of " + leafName(o.leaf)
			got = symbol.ReadSymbol(real, st, b, uh)
		case 1:
			real, model = own[o.own], ownModel[o.own]
			what = fmt.Sprintf("a symbol of a context of %d symbols", len(model)-1)
			got = symbol.ReadSymbol(real, st, b, uh)
		case 2:
			what = fmt.Sprintf("L(%d)", o.n)
			got = literal.L(o.n, st, b, uh)
		case 3:
			what = fmt.Sprintf("NS(%d)", o.n)
			got = literal.NS(o.n, st, b, uh)
		}
		r.compared++
		if got != o.want {
			bad("entropy", "%s, step %d: %s gave %d, expected %d", name, k, what, got, o.want)
			panic("stop")
		}
		if real != nil {
			if !frozen {
				adapt(model, got)
			}
			if !reflect.DeepEqual(real, model) {
				bad("entropy", "%s, step %d: after symbol %d, %s has probabilities %v, expected %v", name, k, got, what, real, model)
				panic("stop")
			}
			r.state(uint64(len(model)), uint64(got), uint64(model[len(model)-1]), uint64(model[0]>>6))
		}
	}
	r.add("entropy coded steps", int64(len(sc.ops)))
	r.add("tiles with scripted content", 1)
	// every other context of the tile is as it was
	if !closely {
	} else if d := diffCdfs(st, areaTile, 0, c, true); d != "" {
		bad("entropy", "%s: a context that coded nothing changed: %s", name, d)
		panic("stop")
	}
	// what quantizer deltas of its blocks would have left
	if f.fh.baseQ > 0 {
		poke(st, "CurrentQIndex", -1, []int{1 + (f.fh.baseQ+97*i+44)%255})
	}
}

// hooked runs f with the stand-in tile decoder.
func (f *tileFrame) hooked(g func()) {
	tilegroup.VerifTile = f.run
	defer func() { tilegroup.VerifTile = nil }()
	g()
}

// someTiles lets the first tiles of the last frame arrive and be decoded, but
// not the last one.
func (h *hist) someTiles(ses *session, t *tempUnit) bool {
	if t.lastFh == nil || !h.m.seen || h.over || !tilegroup.VerifTileHooked {
		return true
	}
	s, tl := h.s, &t.lastFh.tiles
	n := tl.cols * tl.rows
	if tl.illegal || n < 2 || n > 256 || tl.sizeBytes == 0 {
		return true
	}
	f := &tileFrame{h: h, fh: t.lastFh}
	for i := 0; i < n; i++ {
		f.scripts = append(f.scripts, &tileScript{bytes: h.randBytes(4)})
		if len(f.scripts[i].bytes) == 0 {
			f.scripts[i].bytes = []byte{byte(s.N(256))}
		}
	}
	last := s.N(n - 1)
	payload, _ := f.group(s, 0, last, false)
	g := &tempUnit{frames: [][]*unit{{h.dress(&unit{typ: obuTileGroup, payload: payload})}}}
	g.pack(s)
	tilegroup.VerifTile = func(*bitstream.BitStream, *state.State, bool) {}
	defer func() { tilegroup.VerifTile = nil }()
	ses.clear()
	ses.feed(g.bytes)
	h.run.add("fault: last tiles of a frame lost", 1)
	h.run.logf("tiles 0 to %d of %d arrive -> %s %s", last, n, ses.end, short(ses.msg))
	ses.clear()
	return ses.end == endOK
}

// tileRun simulates frames of many tiles, tile group by tile group.
func tileRun(s *Src, r *runInfo, between func(h *hist, ses *session, f *tileFrame) *violation, want ...string) *violation {
	if !tilegroup.VerifTileHooked {
		r.add("no place for the stand-in tile decoder", 1)
		return nil
	}
	cfg := cleanHist()
	cfg.frame.types = []int{keyFrame, intraOnlyFrame, interFrame}
	cfg.frame.manyTiles = true
	cfg.frame.maxMi = 1 << 12
	if s.Bool(1, 4) {
		cfg.frame.maxMi = 1 << 14
		if s.Bool(1, 3) {
			cfg.frame.maxMi = 1 << 17
			cfg.frame.huge, cfg.seq.huge = true, true
		}
	}
	cfg.noLayers = true
	cfg.lost = [2]int{1, 1}
	cfg.plain = s.Bool(1, 2)
	cfg.seq.layered = 1
	h := newHist(s, cfg, r)
	ses := newSession()
	n := 1 + s.N(4)
	for k := 0; k < n && !h.over; k++ {
		t := h.next()
		ses.clear()
		ses.feed(t.bytes)
		r.logf("temporal unit %d: %s", k, t)
		if fs := h.check(ses, t, nil); len(fs) > 0 {
			return judge(r, fs, want)
		}
		if ses.end != endOK || t.end != mustWork || t.lastFh == nil || !h.m.seen {
			return nil
		}
		f := &tileFrame{h: h, fh: t.lastFh, start: defaultCdfs(coefSet(t.lastFh.baseQ))}
		tl := &f.fh.tiles
		tiles := tl.cols * tl.rows
		if tl.illegal || tiles > 64 && (tiles > 1024 || !s.Bool(1, 2)) {
			continue
		}
		f.crowd = tiles > 64
		if d := diffCdfs(ses.st, areaFrame, 0, f.start, true); d != "" {
			return judge(r, []finding{{"cdf", "in temporal unit " + itoa(k) + ", the frame's starting probabilities: " + d}}, want)
		}
		if between != nil {
			if v := between(h, ses, f); v != nil {
				return v
			}
		}
		maxSteps, wide := 40, 1
		if want[0] == "cdf" {
			wide = 4
		}
		if f.crowd {
			maxSteps = 2
			r.add("frames of 65 to 1024 tiles", 1)
		} else if tiles > 4 {
			maxSteps = 10
		} else if s.Bool(1, 12) {
			maxSteps = 600
		}
		for i := 0; i < tiles; i++ {
			sc := writeScript(s, f.start, f.fh.disCdf == 1, maxSteps, tiles <= 8 && s.Bool(wide, 8))
			for len(sc.bytes) > 1<<uint(8*maxInt(tl.sizeBytes, 1)) {
				sc = writeScript(s, f.start, f.fh.disCdf == 1, 4, false)
			}
			f.scripts = append(f.scripts, sc)
		}
		f.offs = make([]int, tiles)
		// the last group arrives only at the end of the run: gov1 does not get
		// past the frame's end with frames of this size
		lastGroup := k == n-1 && s.Bool(1, 2)
		for first := 0; first < tiles; {
			last := first + s.N(tiles-first)
			if s.Bool(1, 3) {
				last = tiles - 1
			}
			if last == tiles-1 && !lastGroup {
				if first == last {
					break
				}
				last--
			}
			payload, offs := f.group(s, first, last, first == 0 && last == tiles-1)
			u := h.dress(&unit{typ: obuTileGroup, payload: payload})
			g := &tempUnit{frames: [][]*unit{{u}}}
			for q := 0; q < 2 && s.Bool(1, 4); q++ {
				g.frames[0] = append(g.frames[0], h.noiseUnit())
			}
			g.pack(s)
			f.base = 8 * len(ses.b.Data)
			f.order = nil
			f.seen = 0
			for i := first; i <= last; i++ {
				f.offs[i] = u.end - len(payload) + offs[i]
				f.order = append(f.order, i)
			}
			done := last == tiles-1
			legal := true // so far as the symbol decoder's end is concerned
			for i := first; i <= last; i++ {
				legal = legal && f.scripts[i].maxBit >= -14
			}
			ses.clear()
			budget := int64(stdBudget)
			if done {
				// what follows the last tile is not simulated
				budget = 4e6 + int64(tiles)*2e5
			}
			f.hooked(func() { ses.feedFor(g.bytes, budget) })
			r.logf("tiles %d to %d of %d, %d bytes -> %s %s", first, last, tiles, len(payload), ses.end, short(ses.msg))
			r.add("tile groups", 1)
			if first > 0 || !done {
				r.weighty = true
			}
			if len(f.fs) == 0 && f.seen < len(f.order) && legal {
				f.fs = append(f.fs, finding{"entropy", fmt.Sprintf("tile %d was not decoded: %s %s", f.order[f.seen], ses.end, short(ses.msg))})
			}
			if len(f.fs) == 0 && !done && legal && ses.end != endOK {
				f.fs = append(f.fs, finding{"entropy", fmt.Sprintf("tiles %d to %d of %d ended in a failure: %s", first, last, tiles, short(ses.msg))})
			}
			if len(f.fs) == 0 && !done && legal && ses.b.Position != 8*len(ses.b.Data) {
				f.fs = append(f.fs, finding{"entropy", fmt.Sprintf("after tiles %d to %d the decoder is at bit %d of %d", first, last, ses.b.Position, 8*len(ses.b.Data))})
			}
			if len(f.fs) == 0 && legal {
				f.fs = append(f.fs, f.afterGroup(ses, last, done)...)
			}
			if len(f.fs) > 0 {
				v := judge(r, f.fs, want)
				if v != nil {
					v.msg = "in temporal unit " + itoa(k) + ", " + v.msg
				}
				return v
			}
			if ses.end != endOK {
				ses.clear()
				return nil
			}
			first = last + 1
		}
		r.see(uint64(tiles), uint64(f.fh.bits))
	}
	ses.clear()
	return nil
}

// afterGroup compares the frame's and the saved probabilities.
func (f *tileFrame) afterGroup(ses *session, last int, done bool) (fs []finding) {
	r := f.h.run
	saved := f.fh.disEnd == 0 && last >= f.fh.tiles.ctxTile
	want := f.start
	if done && saved {
		want = f.scripts[f.fh.tiles.ctxTile].after
	}
	if d := diffCdfs(ses.st, areaFrame, 0, want, false); d != "" {
		fs = append(fs, finding{"cdf", "the frame's probabilities after tile " + itoa(last) + ": " + d})
	}
	if saved {
		if d := diffCdfs(ses.st, areaSaved, 0, f.scripts[f.fh.tiles.ctxTile].after, false); d != "" {
			fs = append(fs, finding{"cdf", "the probabilities saved from tile " + itoa(f.fh.tiles.ctxTile) + ": " + d})
		}
		r.add("saved probabilities compared", 1)
	}
	for i := range f.kept {
		if f.kept[i].ok {
			if d := diffCdfs(ses.st, areaSlot, i, f.kept[i], false); d != "" {
				fs = append(fs, finding{"cdf", "reference slot " + itoa(i) + ": " + d})
			}
		}
	}
	for i := range f.h.m.slots {
		if s := &f.h.m.slots[i]; s.written && !f.kept[i].ok && s.cdfs.ok {
			if d := diffCdfs(ses.st, areaSlot, i, s.cdfs, false); d != "" {
				fs = append(fs, finding{"cdf", "reference slot " + itoa(i) + ": " + d})
			}
		}
	}
	return
}
