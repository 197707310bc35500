package main

// The model of sequence_header_obu( ), written from section 5.5 and 6.4 of the
// AV1 specification. One description serves two purposes: with gen set it
// draws legal values and writes them; otherwise it parses given bits.

type io struct {
	gen bool
	w   bitw
	r   *bitr
	s   *Src
}

func (o *io) val(n int, v func() int) int {
	if o.gen {
		x := v()
		o.w.put(uint64(x)&(1<<uint(n)-1), n)
		return x & (1<<uint(n) - 1)
	}
	return o.r.f(n)
}
func (o *io) f(n int) int           { return o.val(n, func() int { return o.s.Bits(n) }) }
func (o *io) prob(num, den int) int { return o.val(1, func() int { return b2i(o.s.Bool(num, den)) }) }
func (o *io) is(n, v int) int       { return o.val(n, func() int { return v }) }
func (o *io) su(n int, v func() int) int {
	x := o.val(n, v)
	if x >= 1<<uint(n-1) {
		x -= 1 << uint(n)
	}
	return x
}
func (o *io) ns(n int, v func() int) int {
	if !o.gen {
		return o.r.ns(n)
	}
	x := v()
	w := bitLen(n)
	m := 1<<uint(w) - n
	if x < m {
		o.w.put(uint64(x), w-1)
	} else {
		o.w.put(uint64(x+m), w)
	}
	return x
}
func (o *io) uvlc(v func() int) int {
	if !o.gen {
		return o.r.uvlc()
	}
	x := v()
	w := bitLen(x + 1)
	o.w.put(0, w-1)
	o.w.put(uint64(x+1), w)
	return x
}
func (o *io) bits() int {
	if o.gen {
		return o.w.n
	}
	return o.r.pos
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// exp is a list of expected values by field path in the decoder's structures.
type expv struct {
	path string
	vals []int
}
type expl []expv

func (e *expl) set(path string, vals ...int) { *e = append(*e, expv{path, vals}) }

// seqCfg restricts what the generator chooses.
type seqCfg struct {
	tiny      bool // frames of it can be decoded by gov1: 1x1 reachable, mono, 64x64
	color     bool // monochrome and small superblocks only half the time
	small     bool // no huge frames
	huge      bool // many large frames
	upTo8     bool // frames of at most 8x8
	layered   int  // 0 any, 1 never, 2 always
	wantHints bool
	noIds     bool
	noReduced bool
	noGrain   bool
	canLR     bool
	noModel   bool // no decoder model: no header field depends on layers
}

type seqHdr struct {
	profile, still, reduced                              int
	timing, equalPic, decModel                           int
	bufDelayLen, remLen, presLen                         int
	ops                                                  int
	idc, dmpo                                            []int
	fwBits, fhBits, maxW, maxH                           int
	ids, deltaLen, addLen, idLen                         int
	edge, use128, filterIntra, warped, orderHint, refMvs int
	hintBits, forceSCT, forceIMV                         int
	superres, cdef, restoration                          int
	mono, numPlanes, subX, subY, sepUV, bitDepth, grain  int
	exp                                                  expl
	idcAt                                                []int // where the operating point masks are coded
	illegal                                              bool  // value combinations AV1 forbids
}

const selectAuto = 2

func seqSyntax(o *io, cfg *seqCfg) *seqHdr {
	h := &seqHdr{}
	e := &h.exp
	s := o.s
	h.profile = o.val(3, func() int {
		if cfg.tiny {
			return []int{0, 2}[s.N(2)]
		}
		return s.N(3)
	})
	h.still = o.val(1, func() int { return b2i(s.Bool(1, 12)) })
	h.reduced = o.val(1, func() int {
		if h.still == 1 && !cfg.noReduced && cfg.layered != 2 {
			return s.N(2)
		}
		return 0
	})
	e.set("SeqProfile", h.profile)
	e.set("StillPicture", h.still)
	e.set("ReducedStillPictureHeader", h.reduced)
	if h.reduced == 1 && h.still == 0 {
		h.illegal = true
	}
	h.ops = 1
	h.idc = []int{0}
	h.dmpo = []int{0}
	if h.reduced == 1 {
		lvl := o.f(5)
		e.set("OperatingPointsCountMinusOne", 0)
		e.set("InitialDisplayDelayPresent", 0)
		e.set("DecoderModelInfoPresent", 0)
		e.set("OperatingPointIdc", 0)
		e.set("SeqLevelIdx", lvl)
		e.set("SeqTier", 0)
		e.set("DecoderModelPresentForThisOp", 0)
		e.set("InitialDisplayDelayPresentForThisOp", 0)
		e.set("TimingInfo.NumUnitsInDisplayTick", 0)
		e.set("TimingInfo.TimeScale", 0)
		e.set("TimingInfo.EqualPictureInterval", 0)
	} else {
		h.timing = o.prob(1, 3)
		nu, ts, nt := 0, 0, 0
		bdl, nud := 0, 0
		if h.timing == 1 {
			nz := func() int { return 1 + s.N(1<<32-1) }
			small := func() int {
				if s.N(2) == 0 {
					return 1 + s.N(1000)
				}
				return nz()
			}
			nu = o.val(32, small)
			ts = o.val(32, small)
			if nu == 0 || ts == 0 {
				h.illegal = true
			}
			h.equalPic = o.f(1)
			if h.equalPic == 1 {
				nt = o.uvlc(func() int {
					if s.N(3) > 0 {
						return s.N(200)
					}
					return s.N(1<<32 - 1)
				})
				if nt == 1<<32-1 {
					h.illegal = true
				}
			}
			h.decModel = o.val(1, func() int { return b2i(!cfg.noModel) & s.N(2) })
			if h.decModel == 1 {
				bdl = o.f(5)
				nud = o.val(32, small)
				if nud == 0 {
					h.illegal = true
				}
				h.remLen = o.f(5) + 1
				h.presLen = o.f(5) + 1
				h.bufDelayLen = bdl + 1
			}
		}
		e.set("TimingInfo.NumUnitsInDisplayTick", nu)
		e.set("TimingInfo.TimeScale", ts)
		e.set("TimingInfo.EqualPictureInterval", h.equalPic)
		e.set("TimingInfo.NumTicksPerMinuteMinusOne", nt)
		e.set("DecoderModelInfoPresent", h.decModel)
		if h.decModel == 1 {
			e.set("DecoderModelInfo.BufferDelayLengthMinusOne", bdl)
			e.set("DecoderModelInfo.NumUnitsInDecodingTick", nud)
			e.set("DecoderModelInfo.BufferRemovalTimeLengthMinusOne", h.remLen-1)
			e.set("DecoderModelInfo.FramePresentationTimeLengthMinusOne", h.presLen-1)
		}
		idp := o.prob(1, 3)
		layered := cfg.layered == 2
		if o.gen && cfg.layered == 0 {
			layered = s.Bool(1, 4)
		}
		cnt := o.val(5, func() int {
			if s.Bool(1, 10) {
				return s.N(32)
			}
			if layered {
				return s.N(4)
			}
			return 0
		})
		h.ops = cnt + 1
		n := h.ops
		h.idc = make([]int, n)
		h.dmpo = make([]int, n)
		lvl, tier, iddp, idd := make([]int, n), make([]int, n), make([]int, n), make([]int, n)
		dbd, ebd, low := make([]int, n), make([]int, n), make([]int, n)
		for i := 0; i < n; i++ {
			h.idcAt = append(h.idcAt, o.bits())
			h.idc[i] = o.val(12, func() int {
				if !layered {
					return 0
				}
				t := 1 + s.N(255)
				sp := 1 + s.N(15)
				return sp<<8 | t
			})
			if h.idc[i] != 0 && (h.idc[i]&255 == 0 || h.idc[i]>>8 == 0) {
				h.illegal = true
			}
			lvl[i] = o.f(5)
			if lvl[i] > 7 {
				tier[i] = o.f(1)
			}
			if h.decModel == 1 {
				h.dmpo[i] = o.f(1)
				if h.dmpo[i] == 1 {
					dbd[i] = o.f(h.bufDelayLen)
					ebd[i] = o.f(h.bufDelayLen)
					low[i] = o.f(1)
				}
			}
			if idp == 1 {
				iddp[i] = o.f(1)
				if iddp[i] == 1 {
					idd[i] = o.f(4)
				}
			}
		}
		e.set("InitialDisplayDelayPresent", idp)
		e.set("OperatingPointsCountMinusOne", cnt)
		e.set("OperatingPointIdc", h.idc...)
		e.set("SeqLevelIdx", lvl...)
		e.set("SeqTier", tier...)
		e.set("DecoderModelPresentForThisOp", h.dmpo...)
		e.set("DecoderBufferDelay", dbd...)
		e.set("EncoderBufferDelay", ebd...)
		e.set("LowDelayModeFlag", low...)
		e.set("InitialDisplayDelayPresentForThisOp", iddp...)
		e.set("InitialDisplayDelayMinusOne", idd...)
	}
	dimBits := func() int {
		if cfg.small {
			return s.N(12)
		}
		if cfg.huge {
			return 10 + s.N(6)
		}
		return s.N(16)
	}
	h.fwBits = o.val(4, dimBits) + 1
	h.fhBits = o.val(4, dimBits) + 1
	dim := func(n int) func() int {
		return func() int {
			if cfg.tiny && s.Bool(1, 2) {
				return 0
			}
			if cfg.upTo8 && n > 3 {
				return s.N(8)
			}
			if cfg.huge {
				return s.N(1 << uint(n))
			}
			return s.Bits(n)
		}
	}
	h.maxW = o.val(h.fwBits, dim(h.fwBits)) + 1
	h.maxH = o.val(h.fhBits, dim(h.fhBits)) + 1
	e.set("FrameWidthBitsMinusOne", h.fwBits-1)
	e.set("FrameHeightBitsMinusOne", h.fhBits-1)
	e.set("MaxFrameWidthMinusOne", h.maxW-1)
	e.set("MaxFrameHeightMinusOne", h.maxH-1)
	if h.reduced == 0 {
		h.ids = o.val(1, func() int {
			if cfg.noIds {
				return 0
			}
			return b2i(s.Bool(1, 3))
		})
	}
	e.set("FrameIdNumbersPresent", h.ids)
	if h.ids == 1 {
		d := o.f(4)
		a := o.val(3, func() int {
			m := 16 - 3 - d
			if m > 7 {
				m = 7
			}
			if m < 0 {
				m = 0
			}
			return s.N(m + 1)
		})
		e.set("DeltaFrameIdLengthMinusTwo", d)
		e.set("AdditionalFrameIdLengthMinusOne", a)
		h.deltaLen = d + 2
		h.addLen = a + 1
		h.idLen = a + d + 3
		if h.idLen > 16 {
			h.illegal = true
		}
	}
	h.use128 = o.val(1, func() int {
		if cfg.tiny && !cfg.color {
			return b2i(s.Bool(1, 16))
		}
		return s.N(2)
	})
	h.filterIntra = o.val(1, func() int {
		if cfg.tiny && !cfg.color {
			return b2i(s.Bool(1, 16))
		}
		return s.N(2)
	})
	h.edge = o.f(1)
	e.set("Use128x128SuperBlock", h.use128)
	e.set("EnableFilterIntra", h.filterIntra)
	e.set("EnableIntraEdgeFilter", h.edge)
	h.forceSCT, h.forceIMV = selectAuto, selectAuto
	ii, mc, df, jc := 0, 0, 0, 0
	chooseSCT, chooseIMV := 0, 0
	if h.reduced == 0 {
		ii = o.f(1)
		mc = o.f(1)
		h.warped = o.f(1)
		df = o.f(1)
		h.orderHint = o.val(1, func() int {
			if cfg.wantHints {
				return b2i(s.Bool(7, 8))
			}
			return s.N(2)
		})
		if h.orderHint == 1 {
			jc = o.f(1)
			h.refMvs = o.f(1)
		}
		chooseSCT = o.f(1)
		if chooseSCT == 0 {
			h.forceSCT = o.f(1)
		}
		if h.forceSCT > 0 {
			chooseIMV = o.f(1)
			if chooseIMV == 0 {
				h.forceIMV = o.f(1)
			}
		}
		if h.orderHint == 1 {
			h.hintBits = o.f(3) + 1
		}
		e.set("SeqChooseScreenContentTools", chooseSCT)
		e.set("SeqChooseIntegerMv", chooseIMV)
	}
	e.set("EnableInterIntraCompound", ii)
	e.set("EnableMaskedCompound", mc)
	e.set("EnableWarpedMotion", h.warped)
	e.set("EnableDualFilter", df)
	e.set("EnableOrderHint", h.orderHint)
	e.set("EnableJntComp", jc)
	e.set("EnableRefFrameMvs", h.refMvs)
	e.set("SeqForceScreenContentTools", h.forceSCT)
	e.set("SeqForceIntegerMv", h.forceIMV)
	e.set("OrderHintBits", h.hintBits)
	h.superres = o.f(1)
	h.cdef = o.f(1)
	h.restoration = o.val(1, func() int {
		if cfg.tiny {
			return b2i(s.Bool(1, 8))
		}
		return s.N(2)
	})
	e.set("EnableSuperRes", h.superres)
	e.set("EnableCdef", h.cdef)
	e.set("EnableRestoration", h.restoration)
	colorConfig(o, cfg, h)
	h.grain = o.val(1, func() int {
		if cfg.noGrain {
			return 0
		}
		return s.N(2)
	})
	e.set("FilmGrainParamsPresent", h.grain)
	return h
}

func colorConfig(o *io, cfg *seqCfg, h *seqHdr) {
	e := &h.exp
	s := o.s
	hbd := o.f(1)
	twelve := 0
	if h.profile == 2 && hbd == 1 {
		twelve = o.f(1)
		h.bitDepth = 10 + 2*twelve
	} else if h.profile <= 2 {
		h.bitDepth = 8 + 2*hbd
	} else {
		h.illegal = true
	}
	if h.profile != 1 {
		h.mono = o.val(1, func() int {
			if cfg.tiny && !cfg.color {
				return b2i(s.Bool(15, 16))
			}
			return b2i(s.Bool(1, 3))
		})
	}
	h.numPlanes = 3 - 2*h.mono
	desc := o.f(1)
	cp, tc, mc := 2, 2, 2
	force444 := false
	if desc == 1 {
		// sRGB needs 4:4:4, identity needs 4:4:4
		srgb := o.gen && (h.profile == 1 || h.profile == 2 && h.bitDepth == 12) && s.Bool(1, 3)
		// near: all but some of the three are those of sRGB
		near := o.gen && s.Bool(1, 3)
		can444 := h.profile == 1 || h.profile == 2 && h.bitDepth == 12
		some := func(v, lo int) func() int {
			return func() int {
				if srgb || near && s.N(3) > 0 {
					return v
				}
				if s.N(4) == 0 {
					return lo + s.N(256-lo)
				}
				return lo + s.N(14-lo)
			}
		}
		cp = o.val(8, some(1, 0))
		tc = o.val(8, some(13, 0))
		if o.gen && near && (!can444 || h.mono == 1) {
			near = false
		}
		mc = o.val(8, some(0, 1))
		if o.gen && mc == 0 && h.mono == 0 && !(cp == 1 && tc == 13) {
			force444 = true
		}
	}
	rng, csp := 0, 0
	if h.mono == 1 {
		rng = o.f(1)
		h.subX, h.subY = 1, 1
		if mc == 0 {
			h.illegal = true
		}
	} else if cp == 1 && tc == 13 && mc == 0 {
		rng = 1
		if !(h.profile == 1 || h.profile == 2 && h.bitDepth == 12) {
			h.illegal = true
		}
		h.sepUV = o.f(1)
	} else {
		rng = o.f(1)
		switch {
		case h.profile == 0:
			h.subX, h.subY = 1, 1
		case h.profile == 1:
		case h.bitDepth == 12:
			h.subX = o.val(1, func() int {
				if force444 {
					return 0
				}
				return s.N(2)
			})
			if h.subX == 1 {
				h.subY = o.f(1)
			}
		default:
			h.subX = 1
		}
		if h.subX == 1 && h.subY == 1 {
			csp = o.f(2)
		}
		if mc == 0 && (h.subX == 1 || h.subY == 1) {
			h.illegal = true
		}
		h.sepUV = o.f(1)
	}
	e.set("ColorConfig.HighBitDepth", hbd)
	e.set("ColorConfig.TwelveBit", twelve)
	if h.profile <= 2 {
		e.set("ColorConfig.BitDepth", h.bitDepth)
	}
	e.set("ColorConfig.MonoChrome", h.mono)
	e.set("ColorConfig.NumPlanes", h.numPlanes)
	e.set("ColorConfig.ColorDescriptionPresent", desc)
	e.set("ColorConfig.ColorPrimaries", cp)
	e.set("ColorConfig.TransferCharacteristics", tc)
	e.set("ColorConfig.MatrixCoefficients", mc)
	e.set("ColorConfig.ColorRange", rng)
	e.set("ColorConfig.SubsamplingX", h.subX)
	e.set("ColorConfig.SubsamplingY", h.subY)
	e.set("ColorConfig.ChromaSamplePosition", csp)
	e.set("ColorConfig.SeparateUvDeltaQ", h.sepUV)
}
