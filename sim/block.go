package main

import (
	"fmt"
	"reflect"
)

// The blocks of the only kind of tile gov1 decodes to the end: an intra frame
// of at most 8x8 luma samples, that is one 8x8 block split at will. Encoder
// and expectation are written from sections 5.11 and 8.3.2 of AV1.

// Block sizes and transform sizes by their AV1 numbers.
const (
	bs4x4 = iota
	bs4x8
	bs8x4
	bs8x8
)
const (
	tx4x4 = 0
	tx8x8 = 1
	tx4x8 = 5
	tx8x4 = 6
)

var (
	bsW4   = [4]int{1, 1, 2, 2}
	bsH4   = [4]int{1, 2, 1, 2}
	bsTx   = [4]int{tx4x4, tx4x8, tx8x4, tx8x8}
	txWide = map[int]int{tx4x4: 4, tx8x8: 8, tx4x8: 4, tx8x4: 8}
	txHigh = map[int]int{tx4x4: 4, tx8x8: 8, tx4x8: 8, tx8x4: 4}
)

// cell is what is known about 4x4 samples.
type cell struct {
	size, skip, yMode, seg, tx, interTx, txType int
	dir                                         int // the direction a transform type goes by
	dlf                                         [4]int
	done, hasUV                                 bool
	uvMode                                      int
}

// blockPlan is the understanding of a tile's blocks that is expected.
type blockPlan struct {
	cell               [2][2]cell
	aboveLvl, aboveDc  [3][2]int
	leftLvl, leftDc    [3][2]int
	planes             int
	lfTx               [3][2][2]int // 1 + the transform size covering it
	hasUV              bool         // of the last block
	uvMode, angleUV    int          // of the last block with chroma
	cflU, cflV         int
	cfl, chroma        int
	quant              [64]int
	qidx, cdef         int
	seg                int // of the last block
	tree               string
	coefs, big, blocks int
	lr                 [3]lrUnit
	restored           int
	filter, filterMode int // of the last block
	filters            int
	inter              bool // the frame is not an intra frame
	pic                picture
	fh                 *frameHdr
}

type blockEnc struct {
	s     *Src
	h     *seqHdr
	u     *frameHdr
	p     *tilePlan
	ssx   int
	ssy   int
	b     *blockPlan
	read  bool // delta values are still to be coded
	split int
	calm  bool
	habits
	cuts bool // a coefficient's length may never end
}

func (e *blockEnc) sym(name string, ctx, v int) {
	if e.p.cut {
		return
	}
	e.p.ops = append(e.p.ops, tileOp{leafOf(name, ctx), 0, v})
}
func (e *blockEnc) lit(n, v int) {
	if !e.p.cut {
		e.p.ops = append(e.p.ops, tileOp{-1, n, v})
	}
}

// habit is the usual choice, if there is one, or else v.
func (e *blockEnc) habit(usual, v int) int {
	if usual > 0 && !e.s.Bool(1, 4) {
		return usual - 1
	}
	return v
}

// planBlocks chooses the content of the tile.
func planBlocks(s *Src, m *decModel, u *frameHdr, cfg *histCfg) *tilePlan {
	p := &tilePlan{sh: m.sh, cdef: -1, qidx: u.baseQ}
	e := &blockEnc{s: s, h: m.sh, u: u, p: p, b: &blockPlan{cdef: -1, qidx: u.baseQ}, read: u.dqPresent == 1, cuts: cfg.cuts, habits: cfg.habits, ssx: m.sh.subX, ssy: m.sh.subY}
	p.blk = e.b
	e.b.fh = u
	e.b.planes = e.h.numPlanes
	e.b.inter = !u.intra
	e.b.cflU, e.b.cflV = notCoded, notCoded
	e.b.uvMode, e.b.angleUV = notCoded, notCoded
	e.calm = s.Bool(1, 4)
	e.split = e.habit(e.habits.part, s.N(4))
	if e.b.planes > 1 && e.split == 2 && e.ssx == 1 && e.ssy == 0 {
		e.split = 3 // the chroma of a 4x8 block would be 2x8
	}
	e.restoration()
	e.sym("PartitionW8Cdf", 0, e.split)
	switch e.split {
	case 0:
		e.block(0, 0, bs8x8)
	case 1:
		e.block(0, 0, bs8x4)
		e.block(1, 0, bs8x4)
	case 2:
		e.block(0, 0, bs4x8)
		e.block(0, 1, bs4x8)
	case 3:
		for i := 0; i < 4; i++ {
			e.block(i/2, i%2, bs4x4)
		}
	}
	return p
}

// Ranges and starting points of the loop restoration parameters.
var (
	wienerMin, wienerMax, wienerK = [3]int{-5, -23, -17}, [3]int{10, 8, 46}, [3]int{1, 2, 3}
	sgrMin, sgrMax                = [2]int{-96, -32}, [2]int{31, 95}
)

// lrUnit is the restoration unit of a plane, which covers the frame.
type lrUnit struct {
	typ    int
	wiener [2][3]int
	set    int
	xqd    [2]int
}

// restoration codes read_lr() of the one superblock.
func (e *blockEnc) restoration() {
	s := e.s
	for p := 0; p < e.b.planes; p++ {
		l := &e.b.lr[p]
		switch e.u.lrType[p] {
		case 0:
			continue
		case 1:
			l.typ = s.N(2)
			e.sym("UseWienerCdf", 0, l.typ)
		case 2:
			l.typ = 2 * s.N(2)
			e.sym("UseSgrprojCdf", 0, l.typ/2)
		case 3:
			l.typ = s.N(3)
			e.sym("RestorationTypeCdf", 0, l.typ)
		}
		e.b.restored += b2i(l.typ > 0)
		value := func(min, max, k, ref int) int {
			v := ref
			switch s.N(6) {
			case 0:
				v = min + s.N(4)
			case 1:
				v = max - s.N(4)
			case 2, 3, 4:
				v = min + s.N(max-min+1)
			}
			e.subexp(max+1-min, k, ref-min, v-min)
			return v
		}
		switch l.typ {
		case 1:
			for pass := 0; pass < 2; pass++ {
				for j := b2i(p > 0); j < 3; j++ {
					l.wiener[pass][j] = value(wienerMin[j], wienerMax[j], wienerK[j], [3]int{3, -7, 15}[j])
				}
			}
		case 2:
			l.set = s.N(16)
			e.lit(4, l.set)
			for i := 0; i < 2; i++ {
				switch {
				case i == 0 && l.set >= 10 && l.set < 14:
				case i == 1 && l.set >= 14:
					l.xqd[1] = clampInt(sgrMin[1], sgrMax[1], 128-l.xqd[0])
				default:
					l.xqd[i] = value(sgrMin[i], sgrMax[i], 4, [2]int{-32, 31}[i])
				}
			}
		}
	}
}

// subexp codes a number below n by its distance from an earlier one.
func (e *blockEnc) subexp(n, k, ref, v int) {
	fold := func(r, v int) int {
		switch {
		case v > 2*r:
			return v
		case v >= r:
			return 2 * (v - r)
		}
		return 2*(r-v) - 1
	}
	if 2*ref <= n {
		v = fold(ref, v)
	} else {
		v = fold(n-1-ref, n-1-v)
	}
	low, bits := 0, k
	for n > low+3<<uint(bits) {
		more := b2i(v >= low+1<<uint(bits))
		e.lit(1, more)
		if more == 0 {
			e.lit(bits, v-low)
			return
		}
		low += 1 << uint(bits)
		if low > 1<<uint(k) {
			bits++
		}
	}
	n, v = n-low, v-low
	w := bitLen(n)
	if short := 1<<uint(w) - n; v < short {
		e.lit(w-1, v)
	} else {
		e.lit(w-1, (v+short)>>1)
		e.lit(1, (v+short)&1)
	}
}

// notCoded marks a value that the tile does not contain.
const notCoded = -1 << 30

// at is the cell at (r, c), or nothing outside the tile.
func (e *blockEnc) at(r, c int) *cell {
	if r < 0 || c < 0 || !e.b.cell[r][c].done {
		return nil
	}
	return &e.b.cell[r][c]
}

func (e *blockEnc) segment(up, left, diag *cell, skip int) int {
	s, u := e.s, e.u
	pred := 0
	switch {
	case up == nil && left != nil:
		pred = left.seg
	case up != nil && left == nil:
		pred = up.seg
	case up != nil && left != nil:
		pred = left.seg
		if diag.seg == up.seg {
			pred = up.seg
		}
	}
	if skip == 1 {
		return pred
	}
	ctx := 0
	if diag != nil && up != nil && left != nil {
		switch {
		case diag.seg == up.seg && diag.seg == left.seg:
			ctx = 2
		case diag.seg == up.seg || diag.seg == left.seg || up.seg == left.seg:
			ctx = 1
		}
	}
	v := s.N(8)
	if s.Bool(3, 4) {
		v = s.N(u.lastSeg + 1)
	}
	e.sym("SegmentIdCdf", ctx, v)
	// the coded number ranks the ids by their distance from the prediction
	max := u.lastSeg + 1
	id := v
	switch {
	case pred == 0:
	case pred >= max-1:
		id = max - 1 - v
	default:
		lo := pred // ids below, then above the prediction
		if max-1-pred < lo {
			lo = max - 1 - pred
		}
		switch {
		case v <= 2*lo && v&1 == 1:
			id = pred + (v+1)/2
		case v <= 2*lo:
			id = pred - v/2
		case 2*pred >= max:
			id = max - 1 - v
		}
	}
	return clampInt(0, u.lastSeg, id)
}

func (e *blockEnc) delta(name string, ctx int) int {
	s := e.s
	a := s.N(4)
	if s.Bool(1, 4) {
		a = 3 + s.N(60)
	}
	if a < 3 {
		e.sym(name, ctx, a)
	} else {
		e.sym(name, ctx, 3)
		n := 1
		for 1<<uint(n+1)+1 <= a {
			n++
		}
		e.lit(3, n-1)
		e.lit(n, a-1<<uint(n)-1)
	}
	if a == 0 {
		return 0
	}
	neg := s.N(2)
	e.lit(1, neg)
	if neg == 1 {
		return -a
	}
	return a
}

// kfModeCtx is the context a neighbour's mode stands for.
var kfModeCtx = [13]int{0, 1, 2, 3, 4, 4, 4, 4, 3, 0, 1, 2, 0}

func (e *blockEnc) block(r, c, size int) {
	s, u, h, b := e.s, e.u, e.h, e.b
	up, left := e.at(r-1, c), e.at(r, c-1)
	diag := e.at(r-1, c-1)
	w4, h4 := bsW4[size], bsH4[size]
	b.blocks++
	var k cell
	k.size, k.done = size, true

	// intra_frame_mode_info
	preSkip := u.segOn == 1 && u.segPreSkip == 1
	if preSkip {
		k.seg = e.segment(up, left, diag, 0)
	}
	if !u.intra && u.skipMode == 1 && size == bs8x8 && !(preSkip && (u.segEnabled[k.seg][5] == 1 || u.segEnabled[k.seg][6] == 1 || u.segEnabled[k.seg][7] == 1)) {
		e.sym("SkipModeCdf", 0, 0)
	}
	if preSkip && u.segEnabled[k.seg][6] == 1 {
		k.skip = 1
	} else {
		ctx := 0
		if up != nil {
			ctx += up.skip
		}
		if left != nil {
			ctx += left.skip
		}
		k.skip = e.habit(e.habits.skip, b2i(s.Bool(1, 3)))
		e.sym("SkipCdf", ctx, k.skip)
	}
	if u.segOn == 1 && !preSkip {
		k.seg = e.segment(up, left, diag, k.skip)
	}
	lossless := u.lossless[k.seg]
	if k.skip == 0 && !u.codedLossless && h.cdef == 1 && u.intrabc == 0 && b.cdef < 0 {
		b.cdef = s.N(1 << uint(u.cdefBits))
		e.lit(u.cdefBits, b.cdef)
	}
	if e.read {
		if d := e.delta("DeltaQCdf", 0); d != 0 {
			b.qidx = clampInt(1, 255, b.qidx+d<<uint(u.dqRes))
		}
		if u.dlfPresent == 1 {
			n := 1
			if u.dlfMulti == 1 {
				n = 2
				if b.planes > 1 {
					n = 4
				}
			}
			for i := 0; i < n; i++ {
				d := 0
				if u.dlfMulti == 1 {
					d = e.delta("DeltaLFMultiCdf", i)
				} else {
					d = e.delta("DeltaLFCdf", 0)
				}
				if d != 0 {
					e.p.dlf[i] = clampInt(-63, 63, d<<uint(u.dlfRes))
				}
			}
		}
		e.read = false
	}
	k.dlf = e.p.dlf
	if u.intrabc == 1 {
		e.sym("IntrabcCdf", 0, 0) // the block is an intra block all the same
	}
	if !u.intra && u.segEnabled[k.seg][5] == 0 {
		// is_inter; all neighbours are intra blocks
		ctx := 0
		switch {
		case up != nil && left != nil:
			ctx = 3
		case up != nil || left != nil:
			ctx = 2
		}
		e.sym("IsInterCdf", ctx, 0)
	}
	k.hasUV = b.planes > 1 && (e.ssy == 0 || h4 == 2 || r == 1) && (e.ssx == 0 || w4 == 2 || c == 1)
	b.hasUV = k.hasUV
	k.yMode = e.mode(r, c, &k, up, left, lossless)

	// read_block_tx_size
	k.tx = bsTx[size]
	if lossless {
		k.tx = tx4x4
	} else if size > bs4x4 && u.txSelect == 1 {
		ctx := 0
		if up != nil && txWide[up.interTx] >= txWide[k.tx] {
			ctx++
		}
		if left != nil && txHigh[left.interTx] >= txHigh[k.tx] {
			ctx++
		}
		d := e.habit(e.habits.tx, s.N(2))
		e.sym("Tx8x8Cdf", ctx, d)
		if d == 1 {
			k.tx = tx4x4
		}
	}
	k.interTx = k.tx
	b.tree += fmt.Sprintf(" %dx%d@%d,%d skip %d seg %d mode %d tx %dx%d;", 4*w4, 4*h4, r, c, k.skip, k.seg, k.yMode, txWide[k.tx], txHigh[k.tx])
	for i := r; i < r+h4; i++ {
		for j := c; j < c+w4; j++ {
			b.cell[i][j] = k
		}
	}
	b.seg = k.seg
	e.p.skip, e.p.yMode = k.skip, k.yMode
	planes := 1
	if k.hasUV {
		planes = 3
	}
	for p := 0; p < planes; p++ {
		// the block and its transform in this plane
		y0, x0, hh, ww, tx := r, c, h4, w4, k.tx
		if p > 0 {
			y0, x0 = r>>uint(e.ssy), c>>uint(e.ssx)
			hh, ww = (h4+e.ssy)>>uint(e.ssy), (w4+e.ssx)>>uint(e.ssx)
			tx = bsTx[(hh-1)+2*(ww-1)]
			if lossless {
				tx = tx4x4
			}
		}
		for i := y0; i < y0+hh; i++ {
			for j := x0; j < x0+ww; j++ {
				b.lfTx[p][i][j] = 1 + tx
			}
		}
		if k.skip == 1 {
			for i := y0; i < y0+hh; i++ {
				b.leftLvl[p][i], b.leftDc[p][i] = 0, 0
			}
			for j := x0; j < x0+ww; j++ {
				b.aboveLvl[p][j], b.aboveDc[p][j] = 0, 0
			}
		}
		for y := y0; y < y0+hh; y += txHigh[tx] / 4 {
			for x := x0; x < x0+ww; x += txWide[tx] / 4 {
				e.predict(p, y, x, tx, &k, r, c)
				if k.skip == 1 {
					continue
				}
				if coded, typ := e.coefs(p, y, x, 4*ww, 4*hh, tx, &k, lossless); coded {
					e.residue(p, y, x, tx, &k, lossless, typ)
				}
			}
		}
	}
}

// mode chooses the prediction mode.
func (e *blockEnc) mode(r, c int, k *cell, up, left *cell, lossless bool) int {
	s, u, h, b, size := e.s, e.u, e.h, e.b, k.size
	all := []int{0, 9, 10, 11, 12, 1, 2, 3, 4, 5, 6, 7, 8}
	modes := all
	m := modes[s.N(len(modes))]
	for _, v := range modes {
		if v+1 == e.habits.mode {
			m = e.habit(v+1, m)
		}
	}
	ctx := [2]int{}
	if up != nil {
		ctx[0] = kfModeCtx[up.yMode]
	}
	if left != nil {
		ctx[1] = kfModeCtx[left.yMode]
	}
	if !u.intra {
		e.sym("YModeCdf", b2i(size == bs8x8), m)
	} else if !e.p.cut {
		e.p.ops = append(e.p.ops, tileOp{kfLeaf(ctx[0], ctx[1]), 0, m})
	}
	e.p.angle = e.angle(m, size)
	if k.hasUV {
		e.uv(m, k, all, lossless)
	}
	if u.sct == 1 && m == 0 && size == bs8x8 {
		e.sym("PaletteYModeCdf", 0, 0)
	}
	if u.sct == 1 && k.hasUV && k.uvMode == 0 && size == bs8x8 {
		e.sym("PaletteUVModeCdf", 0, 0)
	}
	k.dir = m
	b.filter, b.filterMode = 0, notCoded
	if h.filterIntra == 1 && m == 0 {
		b.filter = s.N(2)
		e.sym("FilterIntraCdf", size, b.filter)
		if b.filter == 1 {
			b.filterMode = s.N(5)
			e.sym("FilterIntraModeCdf", 0, b.filterMode)
			k.dir = []int{0, 1, 2, 6, 0}[b.filterMode]
			b.filters++
		}
	}
	return m
}

func (e *blockEnc) angle(m, size int) int {
	if m < 1 || m > 8 || size != bs8x8 {
		return 0
	}
	a := e.s.N(7)
	e.sym("AngleDeltaCdf", m-1, a)
	return a - 3
}

// uv chooses the prediction of the chroma planes.
func (e *blockEnc) uv(y int, k *cell, modes []int, lossless bool) {
	s, b := e.s, e.b
	uw, uh := bsW4[k.size], bsH4[k.size]
	if e.ssx == 1 {
		uw = 1
	}
	if e.ssy == 1 {
		uh = 1
	}
	const cfl = 13
	m := modes[s.N(len(modes))]
	if lossless && uw*uh > 1 {
		e.sym("UVModeCflNotAllowedCdf", y, m)
	} else {
		if s.Bool(1, 3) {
			m = cfl
		}
		e.sym("UVModeCflAllowedCdf", y, m)
	}
	k.uvMode, b.uvMode = m, m
	b.chroma++
	if m == cfl {
		// signs: none, negative, positive, and not both none
		n := 1 + s.N(8)
		su, sv := n/3, n%3
		e.sym("CflSignCdf", 0, n-1)
		alpha := func(sign, other int) int {
			if sign == 0 {
				return 0
			}
			v := s.N(16)
			e.sym("CflAlphaCdf", (sign-1)*3+other, v)
			if sign == 1 {
				return -1 - v
			}
			return 1 + v
		}
		b.cflU = alpha(su, sv)
		b.cflV = alpha(sv, su)
		b.cfl++
	}
	b.angleUV = e.angle(m, k.size)
}

// scanOf lists positions (row times width plus column) in coding order.
func scanOf(w, h, class int) (o []int) {
	switch class {
	case 1: // horizontal transform: column by column
		for c := 0; c < w; c++ {
			for r := 0; r < h; r++ {
				o = append(o, r*w+c)
			}
		}
		return
	case 2:
		for i := 0; i < w*h; i++ {
			o = append(o, i)
		}
		return
	}
	for d := 0; d < w+h-1; d++ {
		// diagonals run downwards in tall blocks, upwards in wide ones and
		// alternate in square ones, the first downwards
		down := w < h || w == h && d%2 == 1
		for k := 0; k <= d; k++ {
			r := d - k
			if down {
				r = k
			}
			if c := d - r; r < h && c < w {
				o = append(o, r*w+c)
			}
		}
	}
	return
}

// Transform types by their AV1 numbers.
var (
	txSet1 = []int{9, 0, 10, 11, 3, 1, 2}
	txSet2 = []int{9, 0, 3, 1, 2}
)

func (e *blockEnc) coefs(plane, y4, x4, bw, bh, tx int, k *cell, lossless bool) (coded bool, txType int) {
	s, u, b := e.s, e.u, e.b
	w, h := txWide[tx], txHigh[tx]
	w4, h4 := w/4, h/4
	szCtx := 0
	if tx != tx4x4 {
		szCtx = 1
	}
	b.quant = quantCleared(b.quant, w*h)

	// all_zero
	top, left := 0, 0
	for i := 0; i < w4; i++ {
		top = maxInt(top, b.aboveLvl[plane][x4+i])
		if plane > 0 {
			top = maxInt(top, b.aboveDc[plane][x4+i])
		}
	}
	for i := 0; i < h4; i++ {
		left = maxInt(left, b.leftLvl[plane][y4+i])
		if plane > 0 {
			left = maxInt(left, b.leftDc[plane][y4+i])
		}
	}
	ctx := 0
	if plane > 0 {
		ctx = 7 + b2i(top > 0) + b2i(left > 0)
		if w < bw || h < bh {
			ctx += 3
		}
	} else if w < bw || h < bh {
		lo, hi := minInt(top, left), maxInt(top, left)
		switch {
		case hi == 0:
			ctx = 1
		case lo == 0:
			ctx = 2 + b2i(hi > 3)
		case hi <= 3:
			ctx = 4
		case lo <= 3:
			ctx = 5
		default:
			ctx = 6
		}
	}
	zero := b2i(s.Bool(1, 3))
	e.sym("TxbSkipCdf", szCtx*13+ctx, zero)
	lvl, dc := 0, 0
	if zero == 0 && plane > 0 {
		lvl, dc = e.levels(1, plane, y4, x4, w, h, szCtx, 0)
	} else if zero == 0 {
		q := u.baseQ
		if u.segOn == 1 && u.segEnabled[k.seg][0] == 1 {
			q = clampInt(0, 255, q+u.segData[k.seg][0])
		}
		if q > 0 {
			sqr := b2i(tx == tx8x8)
			if u.reducedTx == 1 {
				i := s.N(5)
				e.sym("IntraTxTypeSet2Cdf", sqr*13+k.dir, i)
				txType = txSet2[i]
			} else {
				i := s.N(7)
				e.sym("IntraTxTypeSet1Cdf", sqr*13+k.dir, i)
				txType = txSet1[i]
			}
		}
		used := txType
		if lossless {
			used = 0
		}
		lvl, dc = e.levels(0, plane, y4, x4, w, h, szCtx, used)
	}
	for i := 0; i < w4; i++ {
		b.aboveLvl[plane][x4+i], b.aboveDc[plane][x4+i] = lvl, dc
	}
	for i := 0; i < h4; i++ {
		b.leftLvl[plane][y4+i], b.leftDc[plane][y4+i] = lvl, dc
	}
	if plane > 0 {
		return zero == 0, 0
	}
	for i := 0; i < h4; i++ {
		for j := 0; j < w4; j++ {
			b.cell[y4+i][x4+j].txType = txType
		}
	}
	return zero == 0, txType
}

func quantCleared(q [64]int, n int) [64]int {
	for i := 0; i < n; i++ {
		q[i] = 0
	}
	return q
}

func (e *blockEnc) pickLevel() int {
	s := e.s
	if e.habits.small {
		switch s.N(8) {
		case 0, 1, 2, 3:
			return s.N(2)
		case 4, 5, 6:
			return s.N(5)
		}
		return s.N(20)
	}
	switch s.N(10) {
	case 0, 1, 2:
		return 0
	case 3, 4:
		return 1 + s.N(3)
	case 5:
		return 2 + s.N(5)
	case 6, 7:
		return 1 + s.N(16)
	case 8:
		return 14 + s.N(4)
	}
	if e.calm {
		return s.N(3)
	}
	if s.Bool(1, 6) {
		return 1<<20 + 13 - s.N(28) // the longest, of which the largest wrap
	}
	return 15 + s.Bits(1+s.N(19))
}

// levels codes the coefficients of a block that is not all zero and returns
// the contexts it leaves.
func (e *blockEnc) levels(uv, plane, y4, x4, w, h, szCtx, txType int) (lvl, dc int) {
	s, b := e.s, e.b
	class := 0
	switch txType {
	case 10:
		class = 2
	case 11:
		class = 1
	}
	scan := scanOf(w, h, class)
	n := w * h
	eob := 1 + s.N(n)
	if s.Bool(1, 2) {
		eob = 1 + s.N(4)
	}
	pt := 1 // 1, 2, 3-4, 5-8, 9-16, 17-32, 33-64
	for pt < 2 && eob > 1 || pt >= 2 && eob > 1<<uint(pt-1) {
		pt++
	}
	name := map[int]string{16: "EobPt16Cdf", 32: "EobPt32Cdf", 64: "EobPt64Cdf"}[n]
	e.sym(name, uv*2+b2i(class != 0), pt-1)
	if pt >= 3 {
		rest := eob - 1<<uint(pt-2) - 1
		e.sym("EobExtraCdf", szCtx*18+uv*9+pt-3, rest>>uint(pt-3)&1)
		for i := pt - 4; i >= 0; i-- {
			e.lit(1, rest>>uint(i)&1)
		}
	}
	var q [64]int // magnitudes by position as the contexts see them
	val := make([]int, eob)
	for c := eob - 1; c >= 0; c-- {
		v := e.pickLevel()
		if c == eob-1 && v == 0 {
			v = 1
		}
		val[c] = v
		pos := scan[c]
		row, col := pos/w, pos%w
		near := func(dr, dc, cap int) int {
			if r, c := row+dr, col+dc; r < h && c < w {
				return minInt(q[r*w+c], cap)
			}
			return 0
		}
		if c == eob-1 {
			ctx := 0
			switch {
			case c == 0:
			case c <= n/8:
				ctx = 1
			case c <= n/4:
				ctx = 2
			default:
				ctx = 3
			}
			e.sym("CoeffBaseEobCdf", szCtx*8+uv*4+ctx, minInt(v, 3)-1)
		} else {
			mag := 0
			switch class {
			case 0:
				mag = near(0, 1, 3) + near(1, 0, 3) + near(1, 1, 3) + near(0, 2, 3) + near(2, 0, 3)
			case 1:
				mag = near(0, 1, 3) + near(1, 0, 3) + near(0, 2, 3) + near(0, 3, 3) + near(0, 4, 3)
			case 2:
				mag = near(0, 1, 3) + near(1, 0, 3) + near(2, 0, 3) + near(3, 0, 3) + near(4, 0, 3)
			}
			ctx := minInt((mag+1)/2, 4)
			switch {
			case class == 1:
				ctx += 26 + 5*minInt(col, 2)
			case class == 2:
				ctx += 26 + 5*minInt(row, 2)
			case pos == 0:
				ctx = 0
			case w < h && row < 2:
				ctx += 11
			case w > h && col < 2:
				ctx += 16
			case row+col < 2:
				ctx++
			case row+col < 4:
				ctx += 6
			default:
				ctx += 21
			}
			e.sym("CoeffBaseCdf", szCtx*84+uv*42+ctx, minInt(v, 3))
		}
		if v > 2 {
			mag := near(0, 1, 15) + near(1, 0, 15)
			switch class {
			case 0:
				mag += near(1, 1, 15)
			case 1:
				mag += near(0, 2, 15)
			case 2:
				mag += near(2, 0, 15)
			}
			ctx := minInt((mag+1)/2, 6)
			switch {
			case pos == 0:
			case class == 0 && row < 2 && col < 2, class == 1 && col == 0, class == 2 && row == 0:
				ctx += 7
			default:
				ctx += 14
			}
			rest := minInt(v, 15) - 3
			for i := 0; i < 4; i++ {
				x := minInt(rest, 3)
				e.sym("CoeffBrCdf", szCtx*42+uv*21+ctx, x)
				rest -= x
				if x < 3 {
					break
				}
			}
		}
		q[pos] = minInt(v, 15)
	}
	sum := 0
	for c := 0; c < eob; c++ {
		v := val[c]
		if v == 0 {
			continue
		}
		neg := s.N(2)
		if c == 0 {
			bal := 0
			for i := 0; i < w/4; i++ {
				bal += dcWeight[b.aboveDc[plane][x4+i]]
			}
			for i := 0; i < h/4; i++ {
				bal += dcWeight[b.leftDc[plane][y4+i]]
			}
			ctx := 0
			if bal < 0 {
				ctx = 1
			} else if bal > 0 {
				ctx = 2
			}
			e.sym("DcSignCdf", uv*3+ctx, neg)
			dc = 2 - neg
		} else {
			e.lit(1, neg)
		}
		if v > 14 {
			x := v - 14
			l := bitLen(x)
			if e.cuts && s.Bool(1, 3) {
				e.lit(s.N(40), 0)
				e.p.cut = true
			}
			e.lit(l-1, 0)
			e.lit(l, x)
			b.big++
		}
		v &= 1<<20 - 1
		sum += v
		if neg == 1 {
			v = -v
		}
		b.quant[scan[c]] = v
		b.coefs++
	}
	return minInt(sum, 63), dc
}

// dcWeight of no, a negative and a positive DC coefficient.
var dcWeight = [3]int{0, -1, 1}

// diffBlocks compares what the decoder understood of the blocks.
func diffBlocks(tg, st any, b *blockPlan, compared *int64) string {
	var e, f expl
	var size, skip, mode, seg, tx, itx, typ, zero []int
	var dlf, ref []int
	for r := 0; r < 2; r++ {
		for c := 0; c < 2; c++ {
			k := &b.cell[r][c]
			size = append(size, k.size)
			skip = append(skip, k.skip)
			mode = append(mode, k.yMode)
			seg = append(seg, k.seg)
			tx = append(tx, k.tx)
			itx = append(itx, k.interTx)
			typ = append(typ, k.txType)
			dlf = append(dlf, k.dlf[:]...)
			zero = append(zero, 0)
			ref = append(ref, 0, -1) // intra, and no second reference
		}
	}
	e.set("Skips", skip...)
	e.set("YModes", mode...)
	e.set("SegmentIds", seg...)
	e.set("TxSizes", tx...)
	e.set("InterTxSizes", itx...)
	e.set("TxTypes", typ...)
	e.set("IsInters", zero...)
	e.set("SkipModes", zero...)
	f.set("MiSizes", size...)
	f.set("DeltaLFs", dlf...)
	f.set("RefFrames", ref...)
	for _, x := range []struct {
		v    any
		name string
		e    expl
	}{{tg, "TileGroup", e}, {st, "State", f}} {
		if d := diffGrid(x.v, x.name, x.e, compared); d != "" {
			return d
		}
	}
	var g, o expl
	g.set("Quant...", b.quant[:]...)
	for i := 0; i < 4; i++ {
		if k := &b.cell[i/2][i%2]; k.hasUV {
			g.set(fmt.Sprintf("UVModes.%d.%d", i/2, i%2), k.uvMode)
		}
		for p := 0; p < b.planes; p++ {
			if tx := b.lfTx[p][i/2][i%2]; tx > 0 {
				g.set(fmt.Sprintf("LoopFilterTxSizes.%d.%d.%d", p, i/2, i%2), tx-1)
			}
		}
	}
	for _, x := range []struct {
		name string
		vals [3][2]int
	}{{"AboveLevelContext", b.aboveLvl}, {"AboveDcContext", b.aboveDc}, {"LeftLevelContext", b.leftLvl}, {"LeftDcContext", b.leftDc}} {
		for p := 0; p < b.planes; p++ {
			g.set(fmt.Sprintf("%s.%d...", x.name, p), x.vals[p][0], x.vals[p][1])
		}
	}
	for p := 0; p < b.planes; p++ {
		l := &b.lr[p]
		g.set(fmt.Sprintf("LrType.%d...", p), l.typ)
		switch l.typ {
		case 1:
			g.set(fmt.Sprintf("LrWiener.%d...", p), append(l.wiener[0][:], l.wiener[1][:]...)...)
		case 2:
			g.set(fmt.Sprintf("LrSgrSet.%d...", p), l.set)
			g.set(fmt.Sprintf("LrSgrXqd.%d...", p), l.xqd[:]...)
		}
	}
	g.set("SegmentId", b.seg)
	g.set("UseFilterIntra", b.filter)
	if b.filterMode != notCoded {
		g.set("FilterIntraMode", b.filterMode)
	}
	g.set("HasChroma", b2i(b.hasUV))
	for _, x := range []struct {
		name string
		val  int
	}{{"UVMode", b.uvMode}, {"AngleDeltaUV", b.angleUV}, {"CflAlphaU", b.cflU}, {"CflAlphaV", b.cflV}} {
		if x.val != notCoded {
			g.set(x.name, x.val)
		}
	}
	o.set("CurrentQIndex", b.qidx)
	o.set("Cdef.CdefIdx...", b.cdef)
	if d := diffExp(tg, "TileGroup", g, compared); d != "" {
		return d
	}
	return diffExp(st, "State", o, compared)
}

// diffGrid compares the four 4x4 entries of values kept per row and column.
func diffGrid(x any, name string, e expl, compared *int64) string {
	v := reflect.ValueOf(x)
	for v.Kind() == reflect.Ptr {
		v = v.Elem()
	}
	list := func(k reflect.Kind) bool { return k == reflect.Array || k == reflect.Slice }
	for _, w := range e {
		f, ok := fieldPath(v, w.path)
		if !ok || !list(f.Kind()) {
			missingPaths[name+"."+w.path] = true
			continue
		}
		n := len(w.vals) / 4
		for i := 0; i < 4; i++ {
			*compared++
			var got []int
			if f.Len() > i/2 && list(f.Index(i/2).Kind()) && f.Index(i/2).Len() > i%2 {
				flat(f.Index(i/2).Index(i%2), &got)
			}
			if fmt.Sprint(got) != fmt.Sprint(w.vals[n*i:n*i+n]) {
				return fmt.Sprintf("%s.%s of row %d, column %d is %s, expected %s", name, w.path, i/2, i%2, clip(got), clip(w.vals[n*i:n*i+n]))
			}
		}
	}
	return ""
}
