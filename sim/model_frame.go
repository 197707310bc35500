package main

// The model of uncompressed_header( ), written from sections 5.9 and 7.20 of
// the AV1 specification.

const (
	keyFrame = iota
	interFrame
	intraOnlyFrame
	switchFrame
)

// slot is one of the eight reference slots.
type slot struct {
	written        bool // a frame was stored in it
	valid          bool
	unclear        bool // its order hint was contradicted by ref_order_hint
	fuzzy          bool // a header that failed may have marked it
	typ, hint, id  int
	upW, fw, fh    int
	rw, rh         int
	miC, miR       int
	subX, subY, bd int
	hints          [8]int
	gm             [8][6]int
	cdfs           cdfSet
	fresh          bool // written in the current temporal unit
	own            bool // gov1 completed the frame itself
	segs           [2][2]int
}

// decModel is what a conforming decoder knows between units.
type decModel struct {
	sh        *seqHdr
	opIdc     int
	slots     [8]slot
	curId     int
	seen      bool   // SeenFrameHeader
	needKey   bool   // a new sequence starts: a shown key frame must follow
	frameCdfs cdfSet // after the last completed frame
	lastTile  *tilePlan
}

type frameCfg struct {
	plainLoop bool // the loop filters are mostly off
	decodable bool // a frame gov1 can decode to the end
	segments  bool // often with segmentation
	wrappable bool // a frame gov1 can complete, given its tile
	types     []int
	shown     int // 0 any, 1 shown, 2 hidden
	dropHints bool
	maxMi     int // largest mi area
	oddities  bool
	sameRes   bool
	noCdfUpd  bool
	skipCoded int // tile symbols: 0 any
	manyTiles bool
	huge      bool // many large frames
	unkept    bool // frames that no slot keeps are common
}

type frameHdr struct {
	typ, show, showable, err     int
	intra                        bool
	disCdf, sct, imv             int
	id                           int
	sizeOverride, hint           int
	refresh                      int
	upW, fw, fh, rw, rh          int
	superDenom                   int
	intrabc                      int
	refIdx                       [7]int
	hpMv                         int
	hints                        [8]int
	disEnd                       int
	miC, miR                     int
	baseQ                        int
	dq                           [5]int // ydc udc uac vdc vac
	segOn                        int
	segEnabled                   [8][8]int
	segData                      [8][8]int
	segPreSkip, lastSeg          int
	skipMode                     int
	lrType                       [3]int
	dqPresent, dqRes             int
	dlfPresent, dlfRes, dlfMulti int
	codedLossless, allLossless   bool
	lossless                     [8]bool
	lf                           [4]int
	cdefBits                     int
	qm                           [3]int // matrix levels, 15 is none
	txSelect, reducedTx          int
	refSelect                    int
	gm                           [8][6]int
	applyGrain                   int
	tiles                        tileLayout
	usesLr                       bool
	exp                          expl // in UncompressedHeader
	st                           expl // in State
	illegal                      bool
	unsupported                  string
	vague                        bool // the model does not know what it means
	bits                         int
}

type unsupportedFeature struct{ what string }

func relDist(h *seqHdr, a, b int) int {
	if h.orderHint == 0 {
		return 0
	}
	d := (a - b) & (1<<uint(h.hintBits) - 1)
	if d >= 1<<uint(h.hintBits-1) {
		d -= 1 << uint(h.hintBits)
	}
	return d
}

var segBits = [8]int{8, 6, 6, 6, 6, 3, 0, 0}
var segSigned = [8]int{1, 1, 1, 1, 1, 0, 0, 0}
var segMax = [8]int{255, 63, 63, 63, 63, 7, 0, 0}

func clampInt(lo, hi, v int) int {
	if v < lo {
		return lo
	}
	if v > hi {
		return hi
	}
	return v
}

// frameSyntax models a frame header sent after the history in m. It applies
// the effects that the header itself has on m (validity marks, frame id).
func frameSyntax(o *io, cfg *frameCfg, m *decModel, tid, sid int) (u *frameHdr) {
	u = &frameHdr{}
	defer func() {
		if r := recover(); r != nil {
			x, ok := r.(unsupportedFeature)
			if !ok {
				panic(r)
			}
			u.unsupported = x.what
		}
		u.bits = o.bits()
	}()
	h := m.sh
	s := o.s
	e := &u.exp
	unsup := func(w string) { panic(unsupportedFeature{w}) }
	start := o.bits()
	_ = start
	temporalPoint := func() {
		v := o.f(h.presLen)
		e.set("FramePresentationTime", v)
	}
	if h.reduced == 1 {
		u.typ, u.show = keyFrame, 1
	} else {
		existing := o.val(1, func() int { return b2i(cfg.oddities && s.Bool(1, 60)) })
		if existing == 1 {
			o.val(3, func() int { return s.N(8) })
			unsup("show_existing_frame")
		}
		u.typ = o.val(2, func() int {
			if h.still == 1 {
				return keyFrame
			}
			return cfg.types[s.N(len(cfg.types))]
		})
		u.show = o.val(1, func() int {
			switch {
			case h.still == 1:
				return 1
			case cfg.shown == 1 || cfg.shown == 2:
				return 2 - cfg.shown
			}
			return 1 - s.N(2)
		})
		if u.show == 1 && h.decModel == 1 && h.equalPic == 0 {
			temporalPoint()
		}
		if u.show == 1 {
			u.showable = b2i(u.typ != keyFrame)
		} else {
			u.showable = o.f(1)
		}
		if u.typ == switchFrame || u.typ == keyFrame && u.show == 1 {
			u.err = 1
		} else {
			u.err = o.prob(1, 2)
			if o.gen && u.err == 0 && u.typ == interFrame {
				// fine: primary_ref_frame is chosen as none below
				_ = u
			}
		}
	}
	u.intra = u.typ == keyFrame || u.typ == intraOnlyFrame
	if h.still == 1 && !(u.typ == keyFrame && u.show == 1) {
		u.illegal = true
	}
	if u.typ == keyFrame && u.show == 1 {
		for i := range m.slots {
			m.slots[i].valid = false
			m.slots[i].hint = 0
			m.slots[i].unclear, m.slots[i].fuzzy = false, false
		}
	}
	u.disCdf = o.val(1, func() int {
		if cfg.noCdfUpd {
			return 1
		}
		return b2i(s.Bool(1, 4))
	})
	if h.forceSCT == selectAuto {
		u.sct = o.val(1, func() int {
			if cfg.decodable {
				return b2i(s.Bool(1+2*b2i(cfg.segments), 12))
			}
			return s.N(2)
		})
	} else {
		u.sct = h.forceSCT
	}
	if u.sct == 1 {
		if h.forceIMV == selectAuto {
			u.imv = o.f(1)
		} else {
			u.imv = h.forceIMV
		}
	}
	if u.intra {
		u.imv = 1
	}
	e.set("ShowExistingFrame", 0)
	e.set("FrameType", u.typ)
	e.set("FrameIsIntra", b2i(u.intra))
	e.set("ShowFrame", u.show)
	e.set("ShowableFrame", u.showable)
	e.set("DisableCdfUpdate", u.disCdf)
	e.set("AllowScreenContentTools", u.sct)
	e.set("ForceIntegerMv", u.imv)
	if h.ids == 1 {
		prev := m.curId
		u.id = o.val(h.idLen, func() int { return pickFrameId(s, m, h, u) })
		e.set("PrevFrameId", prev)
		markRefFrames(m, h, u.id)
		if !(u.typ == keyFrame && u.show == 1) {
			// 6.8.2: differs from the previous one, by less than half the range
			d := (u.id - prev) & (1<<uint(h.idLen) - 1)
			if d == 0 || d >= 1<<uint(h.idLen-1) {
				u.illegal = true
			}
		}
	}
	m.curId = u.id
	e.set("CurrentFrameId", u.id)
	if u.typ == switchFrame {
		u.sizeOverride = 1
	} else if h.reduced == 0 {
		u.sizeOverride = o.val(1, func() int {
			if u.typ == interFrame && u.err == 0 {
				return 0 // with a size override the size may come from a reference
			}
			if cfg.decodable || h.maxW*h.maxH > cfg.maxMi*16 {
				return b2i(h.maxW > 1 || h.maxH > 1 || s.Bool(1, 3))
			}
			return b2i(s.Bool(1, 2))
		})
	}
	e.set("FrameSizeOverrideFlag", u.sizeOverride)
	u.hint = o.f(h.hintBits)
	e.set("OrderHint", u.hint)
	primary := 7
	if !u.intra && u.err == 0 {
		primary = o.val(3, func() int {
			if cfg.oddities && s.Bool(1, 40) {
				return s.N(7)
			}
			return 7
		})
	}
	e.set("PrimaryRefFrame", primary)
	if h.decModel == 1 {
		if o.f(1) == 1 {
			for i := 0; i < h.ops; i++ {
				if h.dmpo[i] == 1 {
					c := h.idc[i]
					if c == 0 || c>>uint(tid)&1 == 1 && c>>uint(sid+8)&1 == 1 {
						o.f(h.remLen)
					}
				}
			}
		}
	}
	if u.typ == switchFrame || u.typ == keyFrame && u.show == 1 {
		u.refresh = 255
	} else {
		u.refresh = o.val(8, func() int {
			r := s.Bits(8)
			if cfg.unkept && s.Bool(1, 2) {
				r = 0
			}
			if u.typ == intraOnlyFrame && r == 255 {
				r = 127
			}
			return r
		})
		if u.typ == intraOnlyFrame && u.refresh == 255 {
			u.illegal = true
		}
	}
	e.set("RefreshFrameFlags", u.refresh)
	if (!u.intra || u.refresh != 255) && u.err == 1 && h.orderHint == 1 {
		for i := range m.slots {
			sl := &m.slots[i]
			v := o.val(h.hintBits, func() int {
				if cfg.oddities && s.Bool(1, 16) {
					return s.N(1 << uint(h.hintBits))
				}
				return sl.hint
			})
			if sl.unclear || v != sl.hint {
				if v != sl.hint {
					sl.valid = false
				}
				sl.unclear = true
			}
		}
	}
	size := func() {
		if u.sizeOverride == 1 {
			dim := func(n, max int) func() int {
				return func() int {
					if cfg.decodable && s.Bool(2, 3) {
						return s.N(min8(max))
					}
					if cfg.decodable || cfg.wrappable && u.show == 1 && s.Bool(3, 4) {
						return 0
					}
					v := s.Bits(n)
					if cfg.huge {
						v = s.N(1 << uint(8+s.N(6)))
					}
					if v >= max {
						v = max - 1
					}
					return v
				}
			}
			u.upW = o.val(h.fwBits, dim(h.fwBits, h.maxW)) + 1
			u.fh = o.val(h.fhBits, func() int {
				v := dim(h.fhBits, h.maxH)()
				for v > 0 && (v/4+2)*(u.upW/4+2) > cfg.maxMi {
					v /= 2
				}
				return v
			}) + 1
			if u.upW > h.maxW || u.fh > h.maxH {
				u.illegal = true
			}
		} else {
			u.upW, u.fh = h.maxW, h.maxH
		}
		use := 0
		if h.superres == 1 {
			use = o.val(1, func() int {
				if cfg.decodable {
					return 0
				}
				return b2i(s.Bool(1, 3))
			})
		}
		u.superDenom = 8
		if use == 1 {
			u.superDenom = 9 + o.f(3)
		}
		u.fw = (u.upW*8 + u.superDenom/2) / u.superDenom
		u.miC = 2 * ((u.fw + 7) / 8)
		u.miR = 2 * ((u.fh + 7) / 8)
		e.set("UseSuperRes", use)
		e.set("SuperResDenom", u.superDenom)
		e.set("UpscaledWidth", u.upW)
		e.set("FrameWidth", u.fw)
		e.set("FrameHeight", u.fh)
		u.st.set("MiCols", u.miC)
		u.st.set("MiRows", u.miR)
		u.rw, u.rh = u.upW, u.fh
		if o.prob(1, 4) == 1 {
			u.rw = o.f(16) + 1
			u.rh = o.f(16) + 1
		}
		e.set("RenderWidth", u.rw)
		e.set("RenderHeight", u.rh)
	}
	refMvs := 0
	if u.intra {
		size()
		if u.sct == 1 && u.upW == u.fw {
			u.intrabc = o.val(1, func() int {
				if cfg.decodable && !cfg.segments {
					return 0
				}
				return b2i(s.Bool(1, 3))
			})
		}
	} else {
		if h.orderHint == 1 {
			if o.val(1, func() int { return b2i(cfg.oddities && s.Bool(1, 60)) }) == 1 {
				o.f(3)
				o.f(3)
				unsup("frame_refs_short_signaling")
			}
		}
		for i := 0; i < 7; i++ {
			u.refIdx[i] = o.val(3, func() int { return pickRef(s, m, h, u) })
			sl := &m.slots[u.refIdx[i]]
			if !sl.written || !sl.valid {
				u.illegal = true
			}
			if sl.unclear && h.orderHint == 1 {
				u.vague = true
				unsup("reference whose order hint was contradicted")
			}
			if h.ids == 1 {
				d := o.val(h.deltaLen, func() int {
					return (u.id - sl.id - 1) & (1<<uint(h.idLen) - 1) & (1<<uint(h.deltaLen) - 1)
				}) + 1
				if (u.id-d)&(1<<uint(h.idLen)-1) != sl.id {
					u.illegal = true
				}
			}
		}
		e.set("RefFrameIdx", u.refIdx[:]...)
		if u.sizeOverride == 1 && u.err == 0 {
			unsup("frame_size_with_refs")
		}
		size()
		if u.imv == 0 {
			u.hpMv = o.f(1)
		}
		sw := o.f(1)
		filt := 4
		if sw == 0 {
			filt = o.f(2)
		}
		e.set("InterpolationFilter", filt)
		mms := o.f(1)
		e.set("IsMotionModeSwitchable", mms)
		if u.err == 0 && h.refMvs == 1 {
			refMvs = o.val(1, func() int { return b2i(cfg.oddities && s.Bool(1, 40)) })
		}
		var bias [8]int
		for i, r := range u.refIdx {
			u.hints[1+i] = m.slots[r].hint
			bias[1+i] = b2i(relDist(h, m.slots[r].hint, u.hint) > 0)
		}
		e.set("RefFrameSignBias", bias[:]...)
	}
	e.set("AllowIntraBc", u.intrabc)
	e.set("AllowHighPrecisionMv", u.hpMv)
	e.set("UseRefFrameMvs", refMvs)
	e.set("OrderHints", u.hints[:]...)
	u.disEnd = 1
	if h.reduced == 0 && u.disCdf == 0 {
		u.disEnd = o.f(1)
	}
	e.set("DisableFrameEndUpdateCdf", u.disEnd)
	if primary != 7 {
		unsup("primary_ref_frame")
	}
	if refMvs == 1 {
		unsup("use_ref_frame_mvs")
	}
	u.tiles = tileSyntax(o, h.use128, u.miC, u.miR, cfg.manyTiles)
	if u.tiles.illegal {
		u.illegal = true
	}
	e.set("TileInfo.ContextUpdateTileId", u.tiles.ctxTile)

	// quantization_params
	u.baseQ = o.f(8)
	dq := func() int {
		if o.prob(1, 4) == 1 {
			return o.su(7, func() int { return s.N(128) })
		}
		return 0
	}
	u.dq[0] = dq()
	if h.numPlanes > 1 {
		diff := 0
		if h.sepUV == 1 {
			diff = o.f(1)
		}
		u.dq[1] = dq()
		u.dq[2] = dq()
		u.dq[3], u.dq[4] = u.dq[1], u.dq[2]
		if diff == 1 {
			u.dq[3] = dq()
			u.dq[4] = dq()
		}
	}
	e.set("BaseQIdx", u.baseQ)
	e.set("DeltaQYDc", u.dq[0])
	e.set("DeltaQUDc", u.dq[1])
	e.set("DeltaQUAc", u.dq[2])
	e.set("DeltaQVDc", u.dq[3])
	e.set("DeltaQVAc", u.dq[4])
	qm := o.prob(1, 3)
	e.set("UsingQMatrix", qm)
	u.qm = [3]int{15, 15, 15}
	var qml [3]int
	if qm == 1 {
		qml[0] = o.f(4)
		qml[1] = o.f(4)
		if h.sepUV == 1 {
			qml[2] = o.f(4)
		} else {
			qml[2] = qml[1]
		}
		u.qm = qml
		e.set("Qmy", qml[0])
		e.set("Qmu", qml[1])
		e.set("Qmv", qml[2])
	}
	// segmentation_params
	u.segOn = o.val(1, func() int {
		if cfg.decodable {
			if cfg.segments {
				return b2i(s.Bool(1, 2))
			}
			return b2i(s.Bool(1, 10))
		}
		return b2i(s.Bool(1, 3))
	})
	if u.segOn == 1 {
		e.set("SegmentationUpdateMap", 1)
		e.set("SegmentationTemporalUpdate", 0)
		for i := 0; i < 8; i++ {
			for j := 0; j < 8; j++ {
				// segments of a frame with blocks do not force a reference
				plain := cfg.segments && cfg.decodable && !u.intra && j != 6 && j >= 5
				if o.val(1, func() int {
					if plain {
						return b2i(s.Bool(1, []int{8, 0, 40}[j-5]))
					}
					return b2i(s.Bool(1, 6))
				}) == 0 {
					continue
				}
				u.segEnabled[i][j] = 1
				v := 0
				if segSigned[j] == 1 {
					v = o.su(1+segBits[j], func() int { return s.N(2 << uint(segBits[j])) })
					v = clampInt(-segMax[j], segMax[j], v)
				} else {
					v = clampInt(0, segMax[j], o.val(segBits[j], func() int {
						if plain && !s.Bool(1, 8) {
							return 0
						}
						return s.Bits(segBits[j])
					}))
				}
				u.segData[i][j] = v
				u.lastSeg = i
				if j >= 5 {
					u.segPreSkip = 1
				}
			}
		}
	}
	e.set("SegmentationEnabled", u.segOn)
	e.set("SegIdPreSkip", u.segPreSkip)
	e.set("LastActiveSegId", u.lastSeg)
	var fe, fd []int
	for i := 0; i < 8; i++ {
		fe = append(fe, u.segEnabled[i][:]...)
		fd = append(fd, u.segData[i][:]...)
	}
	u.st.set("FeatureEnabled", fe...)
	u.st.set("FeatureData", fd...)
	// delta_q_params, delta_lf_params
	if u.baseQ > 0 {
		u.dqPresent = o.f(1)
	}
	if u.dqPresent == 1 {
		u.dqRes = o.f(2)
		if u.intrabc == 0 {
			u.dlfPresent = o.f(1)
		}
		if u.dlfPresent == 1 {
			u.dlfRes = o.f(2)
			u.dlfMulti = o.f(1)
		}
	}
	e.set("DeltaQPresent", u.dqPresent)
	e.set("DeltaQRes", u.dqRes)
	e.set("DeltaLfPresent", u.dlfPresent)
	e.set("DeltaLfRes", u.dlfRes)
	e.set("DeltaLfMulti", u.dlfMulti)
	// lossless
	u.codedLossless = true
	var la []int
	var sq [3][]int
	for i := 0; i < 8; i++ {
		q := u.baseQ
		if u.segOn == 1 && u.segEnabled[i][0] == 1 {
			q = clampInt(0, 255, q+u.segData[i][0])
		}
		u.lossless[i] = q == 0 && u.dq == [5]int{}
		if !u.lossless[i] {
			u.codedLossless = false
		}
		la = append(la, b2i(u.lossless[i]))
		for p := 0; p < 3; p++ {
			l := qml[p]
			if u.lossless[i] {
				l = 15
			}
			sq[p] = append(sq[p], l)
		}
	}
	e.set("LosslessArray", la...)
	e.set("CodedLossless", b2i(u.codedLossless))
	u.allLossless = u.codedLossless && u.fw == u.upW
	e.set("AllLossless", b2i(u.allLossless))
	if qm == 1 {
		e.set("SegQMLevel", append(append(sq[0], sq[1]...), sq[2]...)...)
	}
	loopFilter(o, h, u, cfg.wrappable || cfg.plainLoop)
	cdefSyntax(o, h, u)
	lrSyntax(o, h, u, cfg)
	// tx mode: 0 ONLY_4X4, 1 LARGEST, 2 SELECT
	tx := 0
	if !u.codedLossless {
		u.txSelect = o.f(1)
		tx = 1 + u.txSelect
	}
	e.set("TxMode", tx)
	if !u.intra {
		u.refSelect = o.f(1)
	}
	e.set("ReferenceSelect", u.refSelect)
	skipMode(o, h, u, m)
	wm := 0
	if !u.intra && u.err == 0 && h.warped == 1 {
		wm = o.f(1)
	}
	e.set("AllowWarpedMotion", wm)
	u.reducedTx = o.f(1)
	e.set("ReducedTxSet", u.reducedTx)
	globalMotion(o, u)
	filmGrain(o, h, u, cfg)
	return u
}

func pickFrameId(s *Src, m *decModel, h *seqHdr, u *frameHdr) int {
	mask := 1<<uint(h.idLen) - 1
	if u.typ == keyFrame && u.show == 1 {
		return s.N(mask + 1)
	}
	lim := 1 << uint(h.idLen-1)
	if s.Bool(2, 3) && lim > 4 {
		lim = 4
	}
	return (m.curId + 1 + s.N(lim-1)) & mask
}

func markRefFrames(m *decModel, h *seqHdr, id int) {
	d := 1 << uint(h.deltaLen)
	for i := range m.slots {
		sl := &m.slots[i]
		if id > d {
			if sl.id > id || sl.id < id-d {
				sl.valid = false
			}
		} else if sl.id > id && sl.id < 1<<uint(h.idLen)+id-d {
			sl.valid = false
		}
	}
}

func usableRef(m *decModel, h *seqHdr, u *frameHdr, i int) bool {
	sl := &m.slots[i]
	if !sl.written || !sl.valid || sl.unclear {
		return false
	}
	if h.ids == 1 {
		d := (u.id - sl.id) & (1<<uint(h.idLen) - 1)
		if d == 0 || d > 1<<uint(h.deltaLen) {
			return false
		}
	}
	return true
}

func pickRef(s *Src, m *decModel, h *seqHdr, u *frameHdr) int {
	var c []int
	for i := range m.slots {
		if usableRef(m, h, u, i) {
			c = append(c, i)
		}
	}
	if len(c) == 0 {
		return s.N(8)
	}
	return c[s.N(len(c))]
}

func loopFilter(o *io, h *seqHdr, u *frameHdr, easy bool) {
	e := &u.exp
	s := o.s
	ref := [8]int{1, 0, 0, 0, -1, 0, -1, -1}
	mode := [2]int{}
	if u.codedLossless || u.intrabc == 1 {
		e.set("LoopFilterLevel", 0, 0)
		e.set("LoopFilterRefDeltas", ref[:]...)
		e.set("LoopFilterModeDeltas", mode[:]...)
		return
	}
	lvl := func() int {
		return o.val(6, func() int {
			if s.N(2) == 0 || easy && s.N(8) > 0 {
				return 0
			}
			return s.N(64)
		})
	}
	u.lf[0] = lvl()
	u.lf[1] = lvl()
	if h.numPlanes > 1 && (u.lf[0] != 0 || u.lf[1] != 0) {
		u.lf[2] = lvl()
		u.lf[3] = lvl()
		e.set("LoopFilterLevel", u.lf[:]...)
	} else {
		e.set("LoopFilterLevel", u.lf[:2]...)
	}
	e.set("LoopFilterSharpness", o.f(3))
	en := o.f(1)
	e.set("LoopFilterDeltaEnabled", en)
	if en == 1 {
		upd := o.f(1)
		e.set("LoopFilterDeltaUpdate", upd)
		if upd == 1 {
			for i := range ref {
				if o.f(1) == 1 {
					ref[i] = o.su(7, func() int { return s.N(128) })
				}
			}
			for i := range mode {
				if o.f(1) == 1 {
					mode[i] = o.su(7, func() int { return s.N(128) })
				}
			}
		}
	}
	e.set("LoopFilterRefDeltas", ref[:]...)
	e.set("LoopFilterModeDeltas", mode[:]...)
}

func cdefSyntax(o *io, h *seqHdr, u *frameHdr) {
	e := &u.exp
	if u.codedLossless || u.intrabc == 1 || h.cdef == 0 {
		e.set("CdefBits", 0)
		e.set("CdefYPriStrength", 0)
		e.set("CdefYSecStrength", 0)
		e.set("CdefUVPriStrength", 0)
		e.set("CdefUVSecStrength", 0)
		e.set("CdefDampening", 3)
		return
	}
	e.set("CdefDampening", o.f(2)+3)
	u.cdefBits = o.f(2)
	n := 1 << uint(u.cdefBits)
	yp, ys, up, us := make([]int, n), make([]int, n), make([]int, n), make([]int, n)
	sec := func() int {
		v := o.f(2)
		if v == 3 {
			v = 4
		}
		return v
	}
	for i := 0; i < n; i++ {
		yp[i] = o.f(4)
		ys[i] = sec()
		if h.numPlanes > 1 {
			up[i] = o.f(4)
			us[i] = sec()
		}
	}
	e.set("CdefBits", u.cdefBits)
	e.set("CdefYPriStrength", yp...)
	e.set("CdefYSecStrength", ys...)
	if h.numPlanes > 1 {
		e.set("CdefUVPriStrength", up...)
		e.set("CdefUVSecStrength", us...)
	}
}

func lrSyntax(o *io, h *seqHdr, u *frameHdr, cfg *frameCfg) {
	var t [3]int
	if u.allLossless || u.intrabc == 1 || h.restoration == 0 {
		u.exp.set("FrameRestorationType", t[:]...)
		u.exp.set("UsesLr", 0)
		return
	}
	chroma := false
	for i := 0; i < h.numPlanes; i++ {
		v := o.val(2, func() int {
			if cfg.decodable && cfg.segments {
				return o.s.N(4) * b2i(o.s.Bool(1, 2))
			}
			if cfg.decodable || cfg.wrappable && o.s.N(4) > 0 {
				return 0
			}
			return o.s.N(4)
		})
		t[i] = []int{0, 3, 1, 2}[v] // NONE, SWITCHABLE, WIENER, SGRPROJ
		if v != 0 {
			u.usesLr = true
			chroma = chroma || i > 0
		}
	}
	u.lrType = t
	u.exp.set("FrameRestorationType", t[:]...)
	u.exp.set("UsesLr", b2i(u.usesLr))
	if !u.usesLr {
		return
	}
	shift := o.f(1)
	if h.use128 == 1 {
		shift++
	} else if shift == 1 {
		shift += o.f(1)
	}
	size := 64 << uint(shift)
	uv := 0
	if h.subX == 1 && h.subY == 1 && chroma {
		uv = o.f(1)
	}
	u.st.set("LoopRestorationSize", size, size>>uint(uv), size>>uint(uv))
}

func skipMode(o *io, h *seqHdr, u *frameHdr, m *decModel) {
	var fr [2]int
	allowed := false
	if !u.intra && u.refSelect == 1 && h.orderHint == 1 {
		fwd, bwd := -1, -1
		var fh, bh int
		for i, r := range u.refIdx {
			rh := m.slots[r].hint
			d := relDist(h, rh, u.hint)
			if d < 0 && (fwd < 0 || relDist(h, rh, fh) > 0) {
				fwd, fh = i, rh
			}
			if d > 0 && (bwd < 0 || relDist(h, rh, bh) < 0) {
				bwd, bh = i, rh
			}
		}
		second := bwd
		if fwd >= 0 && bwd < 0 {
			var sh int
			for i, r := range u.refIdx {
				rh := m.slots[r].hint
				if relDist(h, rh, fh) < 0 && (second < 0 || relDist(h, rh, sh) > 0) {
					second, sh = i, rh
				}
			}
		}
		if fwd >= 0 && second >= 0 {
			allowed = true
			a, b := fwd, second
			if a > b {
				a, b = b, a
			}
			fr = [2]int{1 + a, 1 + b}
		}
	}
	p := 0
	if allowed {
		u.exp.set("SkipModeFrame", fr[:]...)
		p = o.f(1)
	}
	u.skipMode = p
	u.exp.set("SkipModePresent", p)
}

func globalMotion(o *io, u *frameHdr) {
	const prec = 16
	var typ [8]int
	for r := 1; r < 8; r++ {
		u.gm[r] = [6]int{0, 0, 1 << prec, 0, 0, 1 << prec}
	}
	if !u.intra {
		for r := 1; r < 8; r++ {
			if o.prob(1, 4) == 1 {
				if o.f(1) == 1 {
					typ[r] = 2 // ROTZOOM
				} else if o.f(1) == 1 {
					typ[r] = 1 // TRANSLATION
				} else {
					typ[r] = 3 // AFFINE
				}
			}
			g := &u.gm[r]
			rd := func(i int) {
				abs, pb := 12, 15
				if i < 2 {
					if typ[r] == 1 {
						abs, pb = 9-(1-u.hpMv), 3-(1-u.hpMv)
					} else {
						abs, pb = 12, 6
					}
				}
				shift := uint(prec - pb)
				round, sub := 0, 0
				if i == 2 || i == 5 {
					round, sub = 1<<prec, 1<<uint(pb)
				}
				// the previous parameters are the defaults: no primary reference
				ref := round>>shift - sub
				mx := 1 << uint(abs)
				g[i] = signedSubexpRef(o, -mx, mx+1, ref)<<shift + round
			}
			if typ[r] >= 2 {
				rd(2)
				rd(3)
				if typ[r] == 3 {
					rd(4)
					rd(5)
				} else {
					g[4], g[5] = -g[3], g[2]
				}
			}
			if typ[r] >= 1 {
				rd(0)
				rd(1)
			}
		}
	}
	u.st.set("GmType", typ[:]...)
	var all []int
	for r := 0; r < 8; r++ {
		if r == 0 {
			all = append(all, 0, 0, 0, 0, 0, 0)
		} else {
			all = append(all, u.gm[r][:]...)
		}
	}
	u.exp.set("GmParams", all...)
}

func signedSubexpRef(o *io, low, high, r int) int {
	return unsignedSubexpRef(o, high-low, r-low) + low
}
func unsignedSubexpRef(o *io, mx, r int) int {
	v := subexp(o, mx)
	if 2*r <= mx {
		return invRecenter(r, v)
	}
	return mx - 1 - invRecenter(mx-1-r, v)
}
func invRecenter(r, v int) int {
	switch {
	case v > 2*r:
		return v
	case v&1 == 1:
		return r - (v+1)/2
	default:
		return r + v/2
	}
}
func subexp(o *io, n int) int {
	mk, k := 0, 3
	for i := 0; ; i++ {
		b := k
		if i > 0 {
			b = k + i - 1
		}
		a := 1 << uint(b)
		if n <= mk+3*a {
			return mk + o.ns(n-mk, func() int { return o.s.N(n - mk) })
		}
		if o.prob(1, 2) == 0 {
			return mk + o.f(b)
		}
		mk += a
	}
}

func filmGrain(o *io, h *seqHdr, u *frameHdr, cfg *frameCfg) {
	e := &u.exp
	s := o.s
	reset := func() {
		e.set("ApplyGrain", 0)
		for _, n := range []string{"GrainSeed", "ChromaScalingFromLuna", "GrainScalingMinus8", "ArCoeffLag", "ArCoeffShiftMinus6", "GrainScaleShift", "CbMult", "CbLumaMult", "CbOffset", "CrMult", "CrLumaMult", "CrOffset", "OverlapFlag", "ClipToRestrictedRange"} {
			e.set(n, 0)
		}
		for _, n := range []string{"PointYValue", "PointYScaling", "PointCbValue", "PointCbScaling", "PointCrValue", "PointCrScaling"} {
			e.set(n)
		}
	}
	if h.grain == 0 || u.show == 0 && u.showable == 0 {
		reset()
		return
	}
	u.applyGrain = o.val(1, func() int {
		if (cfg.decodable || cfg.wrappable) && u.show == 1 {
			return 0
		}
		return s.N(2)
	})
	if u.applyGrain == 0 {
		reset()
		return
	}
	e.set("ApplyGrain", 1)
	e.set("GrainSeed", o.f(16))
	if u.typ == interFrame {
		if o.val(1, func() int { return 1 - b2i(cfg.oddities && s.Bool(1, 12)) }) == 0 {
			o.f(3)
			panic(unsupportedFeature{"film grain from a reference"})
		}
	}
	points := func(name string, max int) int {
		n := o.val(4, func() int { return s.N(max + 1) })
		if n > max {
			u.illegal = true
		}
		v, sc := make([]int, n), make([]int, n)
		for i := range v {
			v[i] = o.val(8, func() int {
				lo := 0
				if i > 0 {
					lo = v[i-1] + 1
				}
				return lo + s.N(256-lo-(n-1-i))/4
			})
			if i > 0 && v[i] <= v[i-1] {
				u.illegal = true
			}
			sc[i] = o.f(8)
		}
		e.set("Point"+name+"Value", v...)
		e.set("Point"+name+"Scaling", sc...)
		return n
	}
	ny := points("Y", 14)
	cfl := 0
	if h.mono == 0 {
		cfl = o.f(1)
	}
	e.set("ChromaScalingFromLuna", cfl)
	ncb, ncr := 0, 0
	if !(h.mono == 1 || cfl == 1 || h.subX == 1 && h.subY == 1 && ny == 0) {
		ncb = points("Cb", 10)
		ncr = points("Cr", 10)
		if h.subX == 1 && h.subY == 1 && (ncb == 0) != (ncr == 0) {
			u.illegal = true // 6.8.20
		}
	} else {
		e.set("PointCbValue")
		e.set("PointCrValue")
	}
	e.set("GrainScalingMinus8", o.f(2))
	lag := o.f(2)
	e.set("ArCoeffLag", lag)
	nl := 2 * lag * (lag + 1)
	nc := nl
	coeffs := func(name string, n int) {
		v := make([]int, n)
		for i := range v {
			v[i] = o.f(8)
		}
		e.set(name, v...)
	}
	if ny > 0 {
		nc = nl + 1
		coeffs("ArCoeffsYPlus128", nl)
	}
	if cfl == 1 || ncb > 0 {
		coeffs("ArCoeffsCbPlus128", nc)
	}
	if cfl == 1 || ncr > 0 {
		coeffs("ArCoeffsCrPlus128", nc)
	}
	e.set("ArCoeffShiftMinus6", o.f(2))
	e.set("GrainScaleShift", o.f(2))
	if ncb > 0 {
		e.set("CbMult", o.f(8))
		e.set("CbLumaMult", o.f(8))
		e.set("CbOffset", o.f(9))
	}
	if ncr > 0 {
		e.set("CrMult", o.f(8))
		e.set("CrLumaMult", o.f(8))
		e.set("CrOffset", o.f(9))
	}
	e.set("OverlapFlag", o.f(1))
	e.set("ClipToRestrictedRange", o.f(1))
}

func min8(n int) int {
	if n > 8 {
		return 8
	}
	return n
}
