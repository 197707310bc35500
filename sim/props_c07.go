package main

import (
	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/tileinfo"
)

// C07: one decoder reads the tile layouts of a history of frames of any size;
// some are damaged or cut off.

func runC07(s *Src, r *runInfo) *violation {
	if s.Bool(1, 8) {
		cfg := cleanHist()
		cfg.seq.small = s.Bool(1, 2)
		cfg.frame.maxMi = 1 << 17
		cfg.frame.manyTiles = true
		cfg.maxTU = 4
		cfg.lost = [2]int{1, 1}
		return histRun(s, r, cfg, "tiles")
	}
	if s.Bool(1, 8) {
		return tileRun(s, r, nil, "tiles")
	}
	st := &state.State{}
	bs := bitstream.NewBitStream(nil)
	var w bitw
	past := uint64(0)
	for n := 1 + s.N(8); n > 0; n-- {
		use128 := s.N(2)
		dim := func() int {
			switch s.N(4) {
			case 0:
				return 1 + s.N(64)
			case 1:
				return 1 + s.N(4096)
			case 2:
				return 1 + s.N(65536)
			}
			return 1 + s.Bits(16)
		}
		fw, fh := dim(), dim()
		miC, miR := 2*((fw+7)/8), 2*((fh+7)/8)
		// the history so far ends on a byte; a header field of any length may
		// precede the layout
		w = bitw{}
		lead := s.N(8)
		w.put(uint64(s.N(256)), lead)
		o := &io{gen: true, s: s, w: w}
		t := tileSyntax(o, use128, miC, miR, s.Bool(1, 2))
		w = o.w
		end := w.n
		w.put(uint64(s.Bits(16)), 16)
		data := w.b
		fault := ""
		switch {
		case s.Bool(1, 10): // damaged
			data = damage(s, data, end)
			fault = "damaged"
		case s.Bool(1, 10): // cut off
			data = append([]byte(nil), data[:s.N(end/8+1)]...)
			fault = "cut off"
		}
		if fault != "" {
			r.add("fault: layout "+fault, 1)
			pi := &io{r: &bitr{b: data, pos: lead}, s: s}
			r.weighty = true
			if modelParse(func() { t = tileSyntax(pi, use128, miC, miR, false); end = pi.bits() }) {
				end = -1
			}
		}
		at := len(bs.Data) * 8
		bs.Position = at + lead
		bs.Data = append(append([]byte(nil), bs.Data...), data...)
		st.MiCols, st.MiRows = miC, miR
		var sh sequenceheader.SequenceHeader
		sh.Use128x128SuperBlock = use128 == 1
		var ti tileinfo.TileInfo
		_, e, msg := limited(20e6, func() { ti = tileinfo.NewTileInfo(sh, st, &bs) })
		r.logf("%dx%d, superblock %d, %s layout %dx%d tiles -> %s %s", fw, fh, 64<<uint(use128), fault, t.cols, t.rows, e, short(msg))
		what := "tile layout of a " + itoa(fw) + "x" + itoa(fh) + " frame, " + itoa(64<<uint(use128)) + " superblocks"
		if end < 0 {
			if e == endOK {
				return violatef("%s: read without a failure although its data is cut off", what)
			}
			if e.hung() {
				return violatef("%s: does not end although its data is cut off", what)
			}
			break // nothing can follow
		}
		if e != endOK {
			if t.illegal {
				break
			}
			return violatef("%s: reading it ended in a failure: %s", what, short(msg))
		}
		fhd := &frameHdr{tiles: t}
		if t.illegal && t.cols <= 64 && t.rows <= 64 {
			r.add("layout with a context tile that does not exist", 1)
		}
		if d := checkTileState(st, fhd, r); d != "" {
			return violatef("%s: %s", what, d)
		}
		var ex expl
		ex.set("ContextUpdateTileId", t.ctxTile)
		if d := diffExp(ti, "TileInfo", ex, &r.compared); d != "" {
			return violatef("%s: %s", what, d)
		}
		if got := bs.Position - at; got != end {
			return violatef("%s: used %d bits, the layout has %d", what, got-lead, end-lead)
		}
		r.compared++
		if t.cols*t.rows > 1 {
			r.weighty = true
		}
		r.add(map[bool]string{true: "uniform layout", false: "explicit layout"}[t.uniform], 1)
		past = mix(past, uint64(t.cols)<<32|uint64(t.rows)<<16|uint64(use128))
		r.state(past, uint64(miC)<<20|uint64(miR))
		if len(bs.Data) > 4096 {
			bs.Data = nil
		}
	}
	return nil
}

func init() {
	register(&property{id: "C07", run: runC07,
		rule:    "a run reads up to eight tile layouts one after another with one decoder state (or, one run in five, whole streams end to end, some with a scripted decoder in every tile); non-trivial if a layout has several tiles, is damaged or cut off; distinct by the history of layouts",
		measure: "history of tile counts and superblock sizes, with the frame's dimensions in 4x4 blocks",
		real:    []string{"tileinfo", "bitstream", "state", "in one run of five all header packages and the parser"},
		stub:    []string{"the frame header around the layout (in four runs of five)", "delivery of bytes"}})
}
