package main

// The model of tile_info( ), from section 5.9.15: which superblock boundaries
// the coded choices describe.

type tileLayout struct {
	cols, rows         int
	colsLog2, rowsLog2 int
	colStarts          []int
	rowStarts          []int
	ctxTile            int
	sizeBytes          int
	illegal            bool
	uniform            bool
}

func log2ceil(blk, target int) int {
	k := 0
	for blk<<uint(k) < target {
		k++
	}
	return k
}
func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}
func maxInt(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func tileSyntax(o *io, use128, miC, miR int, many bool) (t tileLayout) {
	s := o.s
	mi := 16 << uint(use128) // mi units per superblock
	sbC := (miC + mi - 1) / mi
	sbR := (miR + mi - 1) / mi
	sbPix := 64 << uint(use128)
	maxW := 4096 / sbPix
	maxArea := 4096 * 2304 / (sbPix * sbPix)
	minCols := log2ceil(maxW, sbC)
	maxCols := log2ceil(1, minInt(sbC, 64))
	maxRows := log2ceil(1, minInt(sbR, 64))
	minTiles := maxInt(minCols, log2ceil(maxArea, sbC*sbR))
	t.uniform = o.f(1) == 1
	split := func(n, sb, mi, end int) (starts []int) {
		step := (sb + 1<<uint(n) - 1) >> uint(n)
		for p := 0; p < sb; p += step {
			starts = append(starts, p*mi)
		}
		return append(starts, end)
	}
	more := func() int { return o.prob(1, 2) }
	if t.uniform {
		for t.colsLog2 = minCols; t.colsLog2 < maxCols && more() == 1; {
			t.colsLog2++
		}
		t.colStarts = split(t.colsLog2, sbC, mi, miC)
		for t.rowsLog2 = maxInt(minTiles-t.colsLog2, 0); t.rowsLog2 < maxRows && more() == 1; {
			t.rowsLog2++
		}
		t.rowStarts = split(t.rowsLog2, sbR, mi, miR)
		t.cols, t.rows = len(t.colStarts)-1, len(t.rowStarts)-1
	} else {
		widest := 0
		explicit := func(sb, max, end, left int) (starts []int) {
			for p := 0; p < sb; {
				starts = append(starts, p*mi)
				lim := minInt(sb-p, max)
				w := 1 + o.ns(lim, func() int {
					// the tile count is limited, so leave no more than fits
					need := 0
					rest := left - len(starts)
					if rest <= 0 {
						need = lim - 1
					} else if (sb-p-1)/rest >= 1 {
						need = minInt(lim-1, (sb-p+rest)/(rest+1))
					}
					if many {
						return minInt(lim-1, maxInt(need, s.N(2)))
					}
					return maxInt(need, s.N(lim))
				})
				widest = maxInt(widest, w)
				p += w
			}
			return append(starts, end)
		}
		t.colStarts = explicit(sbC, maxW, miC, 64)
		t.cols = len(t.colStarts) - 1
		t.colsLog2 = log2ceil(1, t.cols)
		area := sbR * sbC
		if minTiles > 0 {
			area >>= uint(minTiles + 1)
		}
		t.rowStarts = explicit(sbR, maxInt(area/widest, 1), miR, 64)
		t.rows = len(t.rowStarts) - 1
		t.rowsLog2 = log2ceil(1, t.rows)
	}
	if t.cols > 64 || t.rows > 64 {
		t.illegal = true
	}
	if t.colsLog2 > 0 || t.rowsLog2 > 0 {
		t.ctxTile = o.val(t.colsLog2+t.rowsLog2, func() int { return s.N(t.cols * t.rows) })
		t.sizeBytes = o.f(2) + 1
		if t.ctxTile >= t.cols*t.rows {
			t.illegal = true
		}
	}
	return
}
