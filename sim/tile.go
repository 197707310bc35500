package main

import "fmt"

// The coded content of the only kind of tile gov1 decodes to the end: one
// 8x8 luma block of an intra frame of at most 8x8 samples.

// A tileOp is one step of entropy coding: a symbol of a context, a literal,
// or a non-symmetric value.
type tileOp struct {
	leaf int // context number, -1 literal, -2 NS( n ), -10 and below the tile's own y mode contexts
	n    int
	v    int
}

type tilePlan struct {
	sh    *seqHdr // in force
	ops   []tileOp
	bytes []byte
	after cdfSet // tile contexts after it
	yMode int
	angle int
	skip  int
	qidx  int
	dlf   [4]int
	cdef  int         // -1 none
	coded int         // bytes that matter
	kf    [25][14]int // y mode contexts after it
	cut   bool        // it ends within a coefficient
	blk   *blockPlan  // the blocks, where they are not just one
}

// kfYMode are the default contexts of intra_frame_y_mode (above, left), which
// are reset for every tile.
var kfYMode = [25][14]int{
	{15588, 17027, 19338, 20218, 20682, 21110, 21825, 23244, 24189, 28165, 29093, 30466, 32768, 0},
	{12016, 18066, 19516, 20303, 20719, 21444, 21888, 23032, 24434, 28658, 30172, 31409, 32768, 0},
	{10052, 10771, 22296, 22788, 23055, 23239, 24133, 25620, 26160, 29336, 29929, 31567, 32768, 0},
	{14091, 15406, 16442, 18808, 19136, 19546, 19998, 22096, 24746, 29585, 30958, 32462, 32768, 0},
	{12122, 13265, 15603, 16501, 18609, 20033, 22391, 25583, 26437, 30261, 31073, 32475, 32768, 0},
	{10023, 19585, 20848, 21440, 21832, 22760, 23089, 24023, 25381, 29014, 30482, 31436, 32768, 0},
	{5983, 24099, 24560, 24886, 25066, 25795, 25913, 26423, 27610, 29905, 31276, 31794, 32768, 0},
	{7444, 12781, 20177, 20728, 21077, 21607, 22170, 23405, 24469, 27915, 29090, 30492, 32768, 0},
	{8537, 14689, 15432, 17087, 17408, 18172, 18408, 19825, 24649, 29153, 31096, 32210, 32768, 0},
	{7543, 14231, 15496, 16195, 17905, 20717, 21984, 24516, 26001, 29675, 30981, 31994, 32768, 0},
	{12613, 13591, 21383, 22004, 22312, 22577, 23401, 25055, 25729, 29538, 30305, 32077, 32768, 0},
	{9687, 13470, 18506, 19230, 19604, 20147, 20695, 22062, 23219, 27743, 29211, 30907, 32768, 0},
	{6183, 6505, 26024, 26252, 26366, 26434, 27082, 28354, 28555, 30467, 30794, 32086, 32768, 0},
	{10718, 11734, 14954, 17224, 17565, 17924, 18561, 21523, 23878, 28975, 30287, 32252, 32768, 0},
	{9194, 9858, 16501, 17263, 18424, 19171, 21563, 25961, 26561, 30072, 30737, 32463, 32768, 0},
	{12602, 14399, 15488, 18381, 18778, 19315, 19724, 21419, 25060, 29696, 30917, 32409, 32768, 0},
	{8203, 13821, 14524, 17105, 17439, 18131, 18404, 19468, 25225, 29485, 31158, 32342, 32768, 0},
	{8451, 9731, 15004, 17643, 18012, 18425, 19070, 21538, 24605, 29118, 30078, 32018, 32768, 0},
	{7714, 9048, 9516, 16667, 16817, 16994, 17153, 18767, 26743, 30389, 31536, 32528, 32768, 0},
	{8843, 10280, 11496, 15317, 16652, 17943, 19108, 22718, 25769, 29953, 30983, 32485, 32768, 0},
	{12578, 13671, 15979, 16834, 19075, 20913, 22989, 25449, 26219, 30214, 31150, 32477, 32768, 0},
	{9563, 13626, 15080, 15892, 17756, 20863, 22207, 24236, 25380, 29653, 31143, 32277, 32768, 0},
	{8356, 8901, 17616, 18256, 19350, 20106, 22598, 25947, 26466, 29900, 30523, 32261, 32768, 0},
	{10835, 11815, 13124, 16042, 17018, 18039, 18947, 22753, 24615, 29489, 30883, 32482, 32768, 0},
	{7618, 8288, 9859, 10509, 15386, 18657, 22903, 28776, 29180, 31355, 31802, 32593, 32768, 0},
}

// kfLeaf numbers those contexts as steps.
func kfLeaf(above, left int) int { return -10 - 5*above - left }

func leafOf(name string, ctx int) int {
	t := cdfByName[name]
	if t == nil || ctx >= t.n {
		return -100
	}
	return t.first + ctx
}

// canDecode says whether gov1 decodes a frame with this header to the end.
func canDecode(m *decModel, u *frameHdr, blocks bool) bool {
	h := m.sh
	if u.unsupported != "" || u.illegal || !u.intra && !(blocks && intraBlocks(u)) || h.numPlanes != 1 && !blocks || h.use128 == 1 && !blocks || u.intrabc == 1 && !blocks || u.usesLr && !blocks || u.segOn == 1 && !blocks {
		return false
	}
	if u.show == 1 && (u.applyGrain == 1 || m.opIdc != 0) {
		return false
	}
	return u.upW <= 8 && u.fh <= 8
}

// intraBlocks says whether all blocks of a frame that is not an intra frame can be
// intra blocks: no segment, or none that forces a reference.
func intraBlocks(u *frameHdr) bool {
	for i := range u.segEnabled {
		if f := u.segEnabled[i]; f[5] == 1 && u.segData[i][5] != 0 || f[5] == 0 && f[7] == 1 {
			return false
		}
	}
	return true
}

// planTile chooses the content of the tile.
func planTile(s *Src, m *decModel, u *frameHdr, start cdfSet) *tilePlan {
	h := m.sh
	p := &tilePlan{sh: m.sh, cdef: -1, qidx: u.baseQ}
	sym := func(name string, ctx, v int) { p.ops = append(p.ops, tileOp{leafOf(name, ctx), 0, v}) }
	lit := func(n, v int) { p.ops = append(p.ops, tileOp{-1, n, v}) }
	sym("PartitionW8Cdf", 0, 0)
	p.skip = 1
	if s.Bool(1, 4) {
		p.skip = 0
	}
	sym("SkipCdf", 0, p.skip)
	if p.skip == 0 && !u.codedLossless && h.cdef == 1 {
		p.cdef = s.N(1 << uint(u.cdefBits))
		lit(u.cdefBits, p.cdef)
	}
	delta := func(name string, ctx int) int {
		a := s.N(4)
		if s.Bool(1, 4) {
			a = 3 + s.N(60)
		}
		if a < 3 {
			sym(name, ctx, a)
		} else {
			sym(name, ctx, 3)
			// abs = bits + (1<<n) + 1
			n := 1
			for 1<<uint(n+1)+1 <= a {
				n++
			}
			if n == 1 && a < 3 {
				a = 3
			}
			lit(3, n-1)
			lit(n, a-1<<uint(n)-1)
		}
		if a != 0 && s.N(2) == 1 {
			lit(1, 1)
			return -a
		} else if a != 0 {
			lit(1, 0)
		}
		return a
	}
	if u.dqPresent == 1 {
		d := delta("DeltaQCdf", 0)
		if d != 0 {
			p.qidx = clampInt(1, 255, p.qidx+d<<uint(u.dqRes))
		}
	}
	if u.dqPresent == 1 && u.dlfPresent == 1 {
		n := 1
		if u.dlfMulti == 1 {
			n = 2
		}
		for i := 0; i < n; i++ {
			var d int
			if u.dlfMulti == 1 {
				d = delta("DeltaLFMultiCdf", i)
			} else {
				d = delta("DeltaLFCdf", 0)
			}
			if d != 0 {
				p.dlf[i] = clampInt(-63, 63, d<<uint(u.dlfRes))
			}
		}
	}
	modes := []int{0, 9, 10, 11, 12, 1, 2, 3, 4, 5, 6, 7, 8}
	if h.filterIntra == 1 {
		modes = modes[1:] // filter intra is not supported
	}
	p.yMode = modes[s.N(len(modes))]
	p.ops = append(p.ops, tileOp{kfLeaf(0, 0), 0, p.yMode})
	if p.yMode >= 1 && p.yMode <= 8 {
		a := s.N(7)
		sym("AngleDeltaCdf", p.yMode-1, a)
		p.angle = a - 3
	}
	if u.sct == 1 && p.yMode == 0 {
		sym("PaletteYModeCdf", 0, 0)
	}
	tx4 := u.lossless[0]
	if !u.lossless[0] && u.txSelect == 1 {
		d := s.N(2)
		sym("Tx8x8Cdf", 0, d)
		tx4 = d == 1
	}
	if p.skip == 0 {
		if tx4 {
			// all four 4x4 blocks are empty: the contexts stay zero, but the
			// block size differs from the transform size
			_ = tx4
			for i := 0; i < 4; i++ {
				sym("TxbSkipCdf", 1, 1)
			}
		} else {
			sym("TxbSkipCdf", 13, 1)
		}
	}
	p.encode(start, u.disCdf == 1)
	return p
}

// encode codes the steps, following the adaptation of every context.
func (p *tilePlan) encode(start cdfSet, frozen bool) {
	e := newRac()
	c := start.clone()
	ky := kfYMode
	for _, o := range p.ops {
		switch {
		case o.leaf == -1:
			e.literal(o.v, o.n)
		case o.leaf == -2:
			e.ns(o.v, o.n)
		case o.leaf <= -10:
			l := ky[-10-o.leaf][:]
			e.symbol(l, o.v)
			if !frozen {
				adapt(l, o.v)
			}
		default:
			l := c.leaf(o.leaf)
			e.symbol(l, o.v)
			if !frozen {
				l = c.own(o.leaf)
				adapt(l, o.v)
			}
		}
	}
	p.bytes = e.finish(false)
	p.coded = len(p.bytes)
	p.after = c
	p.kf = ky
}

func (p *tilePlan) String() string {
	if p.blk != nil {
		return fmt.Sprintf("%d coded steps, %d bytes:%s %d coefficients", len(p.ops), len(p.bytes), p.blk.tree, p.blk.coefs)
	}
	return fmt.Sprintf("%d coded steps, skip %d, y mode %d, %d bytes", len(p.ops), p.skip, p.yMode, len(p.bytes))
}
