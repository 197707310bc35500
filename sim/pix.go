package main

// The samples of intra blocks: prediction from the neighbours (7.11.2, 7.11.5)
// plus the residual (7.12.3, 7.13). Frames have at most 8x8 samples.

// picture is what the planes must hold before the loop filters.
type picture struct {
	s       [3][8][8]int
	done    [3][2][2]bool // decoded 4x4 blocks
	vague   bool          // its samples are not specified, or not modelled
	coded   bool          // a residual was added somewhere
	weighed bool          // some of it scaled by a quantizer matrix
	edges   int           // directions that were predicted from filtered or upsampled edges
}

const edgeAt = 16 // index of the sample at 0 in an edge; -1 is the corner

type edge [64]int

func absInt(v int) int {
	if v < 0 {
		return -v
	}
	return v
}

func clipPx(v, bd int) int { return clampInt(0, 1<<uint(bd)-1, v) }

func rnd(v, n int) int {
	if n == 0 {
		return v
	}
	return (v + 1<<uint(n-1)) >> uint(n)
}

var (
	smooth4 = []int{255, 149, 85, 64}
	smooth8 = []int{255, 197, 146, 105, 73, 50, 37, 32}
	slopes  = map[int]int{3: 1023, 6: 547, 9: 372, 14: 273, 17: 215, 20: 178, 23: 151, 26: 132, 29: 116, 32: 102,
		36: 90, 39: 80, 42: 71, 45: 64, 48: 57, 51: 51, 54: 45, 58: 40, 61: 35, 64: 31, 67: 27, 70: 23, 73: 19,
		76: 15, 81: 11, 84: 7, 87: 3}
	dirAngle = []int{90, 180, 45, 135, 113, 157, 203, 67}
	edgeTaps = [3][5]int{{0, 4, 8, 4, 0}, {0, 5, 6, 5, 0}, {2, 4, 4, 4, 2}}
	// seven neighbours (corner, four above, two left) of eight samples
	filterTaps = [5][8][7]int{
		{{-6, 10, 0, 0, 0, 12, 0}, {-5, 2, 10, 0, 0, 9, 0}, {-3, 1, 1, 10, 0, 7, 0}, {-3, 1, 1, 2, 10, 5, 0},
			{-4, 6, 0, 0, 0, 2, 12}, {-3, 2, 6, 0, 0, 2, 9}, {-3, 2, 2, 6, 0, 2, 7}, {-3, 1, 2, 2, 6, 3, 5}},
		{{-10, 16, 0, 0, 0, 10, 0}, {-6, 0, 16, 0, 0, 6, 0}, {-4, 0, 0, 16, 0, 4, 0}, {-2, 0, 0, 0, 16, 2, 0},
			{-10, 16, 0, 0, 0, 0, 10}, {-6, 0, 16, 0, 0, 0, 6}, {-4, 0, 0, 16, 0, 0, 4}, {-2, 0, 0, 0, 16, 0, 2}},
		{{-8, 8, 0, 0, 0, 16, 0}, {-8, 0, 8, 0, 0, 16, 0}, {-8, 0, 0, 8, 0, 16, 0}, {-8, 0, 0, 0, 8, 16, 0},
			{-4, 4, 0, 0, 0, 0, 16}, {-4, 0, 4, 0, 0, 0, 16}, {-4, 0, 0, 4, 0, 0, 16}, {-4, 0, 0, 0, 4, 0, 16}},
		{{-2, 8, 0, 0, 0, 10, 0}, {-1, 3, 8, 0, 0, 6, 0}, {-1, 2, 3, 8, 0, 4, 0}, {0, 1, 2, 3, 8, 2, 0},
			{-1, 4, 0, 0, 0, 3, 10}, {-1, 3, 4, 0, 0, 4, 6}, {-1, 2, 3, 4, 0, 4, 4}, {-1, 2, 2, 3, 4, 3, 3}},
		{{-12, 14, 0, 0, 0, 14, 0}, {-10, 0, 14, 0, 0, 12, 0}, {-9, 0, 0, 14, 0, 11, 0}, {-8, 0, 0, 0, 14, 10, 0},
			{-10, 12, 0, 0, 0, 0, 14}, {-9, 1, 12, 0, 0, 0, 12}, {-8, 0, 0, 12, 0, 1, 11}, {-7, 0, 0, 1, 12, 1, 9}},
	}
)

// smoothMode says whether a neighbour's mode makes edges smooth.
func smoothMode(m int) bool { return m >= 9 && m <= 11 }

// smoothEdges is the filter type of a block at (r, c).
func (e *blockEnc) smoothEdges(p, r, c int) bool {
	is := func(k *cell) bool {
		if k == nil || !k.done {
			return false
		}
		if p > 0 {
			return k.hasUV && smoothMode(k.uvMode)
		}
		return smoothMode(k.yMode)
	}
	if p == 0 {
		return is(e.at(r-1, c)) || is(e.at(r, c-1))
	}
	// the blocks that hold the chroma samples above and to the left
	y, x := r, c
	if e.ssy == 1 {
		y = r &^ 1
	}
	if e.ssx == 1 {
		x = c &^ 1
	}
	return is(e.at(y-1, x+e.ssx)) || is(e.at(y+e.ssy, x-1))
}

// predict fills a transform block of a plane.
func (e *blockEnc) predict(p, y4, x4, tx int, k *cell, r, c int) {
	pic := &e.b.pic
	bd := e.h.bitDepth
	w, h := txWide[tx], txHigh[tx]
	y0, x0 := 4*y4, 4*x4
	maxX, maxY := 7, 7
	if p > 0 {
		maxX, maxY = 8>>uint(e.ssx)-1, 8>>uint(e.ssy)-1
	}
	px := &pic.s[p]
	haveA, haveL := y4 > 0, x4 > 0
	isDone := func(y, x int) bool { return y >= 0 && x >= 0 && y < 2 && x < 2 && pic.done[p][y][x] }
	var a, l edge
	ra := w
	if isDone(y4-1, x4+w/4) {
		ra = 2 * w
	}
	lb := h
	if isDone(y4+h/4, x4-1) {
		lb = 2 * h
	}
	mid := 1 << uint(bd-1)
	for i := 0; i < w+h; i++ {
		switch {
		case haveA:
			a[edgeAt+i] = px[y0-1][minInt(minInt(maxX, x0+ra-1), x0+i)]
		case haveL:
			a[edgeAt+i] = px[y0][x0-1]
		default:
			a[edgeAt+i] = mid - 1
		}
		switch {
		case haveL:
			l[edgeAt+i] = px[minInt(minInt(maxY, y0+lb-1), y0+i)][x0-1]
		case haveA:
			l[edgeAt+i] = px[y0-1][x0]
		default:
			l[edgeAt+i] = mid + 1
		}
	}
	switch {
	case haveA && haveL:
		a[edgeAt-1] = px[y0-1][x0-1]
	case haveA:
		a[edgeAt-1] = px[y0-1][x0]
	case haveL:
		a[edgeAt-1] = px[y0][x0-1]
	default:
		a[edgeAt-1] = mid
	}
	l[edgeAt-1] = a[edgeAt-1]

	mode, delta := k.yMode, e.p.angle
	cfl := false
	if p > 0 {
		mode, delta = k.uvMode, e.b.angleUV
		if mode == 13 {
			mode, cfl = 0, true
		}
	}
	put := func(y, x, v int) { px[y0+y][x0+x] = v }
	each := func(f func(y, x int) int) {
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				put(y, x, f(y, x))
			}
		}
	}
	above, left := a[edgeAt:], l[edgeAt:]
	wx, wy := smooth4, smooth4
	if w == 8 {
		wx = smooth8
	}
	if h == 8 {
		wy = smooth8
	}
	switch {
	case p == 0 && e.b.filter == 1:
		e.filterIntra(p, y0, x0, w, h, &a, &l)
	case mode >= 1 && mode <= 8:
		e.direction(p, y0, x0, w, h, dirAngle[mode-1]+3*delta, haveA, haveL, minInt(w, maxX-x0+1), minInt(h, maxY-y0+1), e.smoothEdges(p, r, c), &a, &l)
	case mode == 9:
		each(func(y, x int) int {
			return rnd(wy[y]*above[x]+(256-wy[y])*left[h-1]+wx[x]*left[y]+(256-wx[x])*above[w-1], 9)
		})
	case mode == 10:
		each(func(y, x int) int { return rnd(wy[y]*above[x]+(256-wy[y])*left[h-1], 8) })
	case mode == 11:
		each(func(y, x int) int { return rnd(wx[x]*left[y]+(256-wx[x])*above[w-1], 8) })
	case mode == 12:
		tl := a[edgeAt-1]
		each(func(y, x int) int {
			base := above[x] + left[y] - tl
			dl, da, dt := absInt(base-left[y]), absInt(base-above[x]), absInt(base-tl)
			if dl <= da && dl <= dt {
				return left[y]
			}
			if da <= dt {
				return above[x]
			}
			return tl
		})
	default: // DC
		sum, n := 0, 0
		if haveA {
			for x := 0; x < w; x++ {
				sum += above[x]
			}
			n += w
		}
		if haveL {
			for y := 0; y < h; y++ {
				sum += left[y]
			}
			n += h
		}
		v := mid
		if n > 0 {
			v = (sum + n/2) / n
		}
		each(func(y, x int) int { return v })
	}
	if cfl {
		alpha := e.b.cflU
		if p == 2 {
			alpha = e.b.cflV
		}
		var luma [8][8]int
		sum := 0
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				t := 0
				for dy := 0; dy <= e.ssy; dy++ {
					for dx := 0; dx <= e.ssx; dx++ {
						t += pic.s[0][(y0+y)<<uint(e.ssy)+dy][(x0+x)<<uint(e.ssx)+dx]
					}
				}
				luma[y][x] = t << uint(3-e.ssx-e.ssy)
				sum += luma[y][x]
			}
		}
		n := w * h
		avg := (sum + n/2) / n
		each(func(y, x int) int {
			v := alpha * (luma[y][x] - avg)
			if v < 0 {
				v = -rnd(-v, 6)
			} else {
				v = rnd(v, 6)
			}
			return clipPx(px[y0+y][x0+x]+v, bd)
		})
	}
	for y := 0; y < h/4; y++ {
		for x := 0; x < w/4; x++ {
			pic.done[p][y4+y][x4+x] = true
		}
	}
}

// filterIntra predicts 4x2 samples at a time from seven neighbours.
func (e *blockEnc) filterIntra(p, y0, x0, w, h int, a, l *edge) {
	px := &e.b.pic.s[p]
	at := func(y, x int) int {
		switch {
		case y < 0:
			return a[edgeAt+x]
		case x < 0:
			return l[edgeAt+y]
		}
		return px[y0+y][x0+x]
	}
	for y := 0; y < h; y += 2 {
		for x := 0; x < w; x += 4 {
			n := [7]int{at(y-1, x-1), at(y-1, x), at(y-1, x+1), at(y-1, x+2), at(y-1, x+3), at(y, x-1), at(y+1, x-1)}
			for i := 0; i < 8; i++ {
				sum := 0
				for j, t := range filterTaps[e.b.filterMode][i] {
					sum += t * n[j]
				}
				if sum < 0 {
					sum = -rnd(-sum, 4)
				} else {
					sum = rnd(sum, 4)
				}
				px[y0+y+i/4][x0+x+i%4] = clipPx(sum, e.h.bitDepth)
			}
		}
	}
}

func edgeStrength(size int, smooth bool, delta int) int {
	d := absInt(delta)
	pick := func(at ...int) int { // the number of thresholds reached
		n := 0
		for _, t := range at {
			if d >= t {
				n++
			}
		}
		return n
	}
	const never = 1000
	if smooth {
		switch {
		case size <= 8:
			return pick(40, 64)
		case size <= 16:
			return pick(20, 48)
		case size <= 24:
			return 3 * pick(4)
		}
		return 3
	}
	switch {
	case size <= 12:
		if size <= 8 {
			return pick(56)
		}
		return pick(40)
	case size <= 16:
		return pick(40)
	case size <= 24:
		return pick(8, 16, 32)
	}
	return 1 + pick(4, 32)
}

func (e *blockEnc) direction(p, y0, x0, w, h, angle int, haveA, haveL bool, inW, inH int, smooth bool, a, l *edge) {
	bd := e.h.bitDepth
	upA, upL := uint(0), uint(0)
	if e.h.edge == 1 && angle != 90 && angle != 180 {
		nw, nh := 0, 0 // samples past the block's own
		if angle < 90 {
			nw = h
		}
		if angle > 180 {
			nh = w
		}
		filter := func(b *edge, n, strength int) {
			if strength == 0 {
				return
			}
			e.b.pic.edges++
			old := *b
			for i := 0; i < n; i++ { // the corner stays
				sum := 0
				for j, t := range edgeTaps[strength-1] {
					sum += t * old[edgeAt+clampInt(-1, n-1, i-2+j)]
				}
				b[edgeAt+i] = (sum + 8) >> 4
			}
		}
		if haveA {
			filter(a, inW+nw, edgeStrength(w+h, smooth, angle-90))
		}
		if haveL {
			filter(l, inH+nh, edgeStrength(w+h, smooth, angle-180))
		}
		double := func(b *edge, n, delta int) uint {
			if d := absInt(delta); d == 0 || d >= 40 || smooth && w+h > 8 || w+h > 16 {
				return 0
			}
			e.b.pic.edges++
			old := *b
			at := func(i int) int { return old[edgeAt+clampInt(-1, n-1, i)] }
			for i := 0; i < n; i++ {
				b[edgeAt+2*i-1] = clipPx(rnd(9*(at(i-1)+at(i))-at(i-2)-at(i+1), 4), bd)
				b[edgeAt+2*i] = at(i)
			}
			b[edgeAt-2] = at(-1)
			return 1
		}
		upA = double(a, w+nw, angle-90)
		upL = double(l, h+nh, angle-180)
	}
	mix := func(b *edge, pos int, up uint) int {
		// pos is in units of 1/64 sample of the original edge
		base := pos >> (6 - up)
		f := pos << up >> 1 & 31
		return rnd(b[edgeAt+base]*(32-f)+b[edgeAt+base+1]*f, 5)
	}
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			v := 0
			switch {
			case angle == 90:
				v = a[edgeAt+x]
			case angle == 180:
				v = l[edgeAt+y]
			case angle < 90:
				pos := (y+1)*slopes[angle] + x<<6
				last := (w + h - 1) << upA
				if pos>>(6-upA) < last {
					v = mix(a, pos, upA)
				} else {
					v = a[edgeAt+last]
				}
			case angle > 180:
				v = mix(l, (x+1)*slopes[270-angle]+y<<6, upL)
			default:
				pos := x<<6 - (y+1)*slopes[180-angle]
				if pos>>(6-upA) >= -(1 << upA) {
					v = mix(a, pos, upA)
				} else {
					v = mix(l, y<<6-(x+1)*slopes[angle-90], upL)
				}
			}
			e.b.pic.s[p][y0+y][x0+x] = v
		}
	}
}

// uvTxType is the transform type that goes with a chroma mode.
var uvTxType = []int{0, 1, 2, 0, 3, 1, 2, 2, 1, 3, 1, 2, 3, 0}

// weight is an element of a quantizer matrix.
func weight(level, chroma, w, h, y, x int) int {
	q := qms[level][chroma]
	if w < h || w == h && y < x { // symmetric, or the transpose of the wide one
		y, x = x, y
	}
	switch {
	case w != h:
		return q[2][8*y+x]
	case w == 4:
		return q[0][y*(y+1)/2+x]
	}
	return q[1][y*(y+1)/2+x]
}

// residue adds what the coefficients of b.quant stand for.
func (e *blockEnc) residue(p, y4, x4, tx int, k *cell, lossless bool, typ int) {
	u, pic, bd := e.u, &e.b.pic, e.h.bitDepth
	w, h := txWide[tx], txHigh[tx]
	if p > 0 {
		typ = uvTxType[k.uvMode]
	}
	if lossless {
		typ = 0
	}
	q := u.baseQ
	if u.dqPresent == 1 {
		q = e.b.qidx
	}
	if u.segOn == 1 && u.segEnabled[k.seg][0] == 1 {
		q = clampInt(0, 255, q+u.segData[k.seg][0])
	}
	dcD, acD := u.dq[0], 0
	switch p {
	case 1:
		dcD, acD = u.dq[1], u.dq[2]
	case 2:
		dcD, acD = u.dq[3], u.dq[4]
	}
	row := (bd - 8) / 2
	weighed := u.qm[p] < 15 && !lossless && typ < 9
	if weighed {
		pic.weighed = true
	}
	pic.coded = true
	var m [8][8]int
	lim := 1 << uint(7+bd)
	for i := 0; i < w*h; i++ {
		step := acSteps[row][clampInt(0, 255, q+acD)]
		if i == 0 {
			step = dcSteps[row][clampInt(0, 255, q+dcD)]
		}
		if weighed {
			step = rnd(step*weight(u.qm[p], b2i(p > 0), w, h, i/w, i%w), 5)
		}
		v := e.b.quant[i] * step
		if v < 0 {
			v = -(-v & 0xffffff)
		} else {
			v &= 0xffffff
		}
		m[i/w][i%w] = clampInt(-lim, lim-1, v)
	}
	// types by name of the column and the row transform
	kind := [][2]byte{{'d', 'd'}, {'a', 'd'}, {'d', 'a'}, {'a', 'a'}, 9: {'i', 'i'}, 10: {'d', 'i'}, 11: {'i', 'd'}}[typ]
	one := func(v []int, kind byte, r uint, shift uint) {
		switch {
		case lossless:
			wht4(v, shift)
		case kind == 'i' && len(v) == 4:
			for i := range v {
				v[i] = rnd(v[i]*5793, 12)
			}
		case kind == 'i':
			for i := range v {
				v[i] *= 2
			}
		case kind == 'd' && len(v) == 4:
			pic.dct4(v, r)
		case kind == 'd':
			pic.dct8(v, r)
		case len(v) == 4:
			adst4(v)
		default:
			pic.adst8(v, r)
		}
	}
	colBits := uint(maxInt(bd+6, 16))
	rowShift, colShift := 0, 4
	if w == 8 && h == 8 {
		rowShift = 1
	}
	if lossless {
		rowShift, colShift = 0, 0
	}
	for y := 0; y < h; y++ {
		v := m[y][:w]
		if w != h {
			for i := range v {
				v[i] = rnd(v[i]*2896, 12)
			}
		}
		one(v, kind[1], uint(bd+8), 2)
		for i := range v {
			v[i] = rnd(v[i], rowShift)
			c := clampInt(-1<<(colBits-1), 1<<(colBits-1)-1, v[i])
			if c != v[i] && lossless {
				pic.vague = true // no conforming stream gets here
			}
			v[i] = c
		}
	}
	for x := 0; x < w; x++ {
		v := make([]int, h)
		for y := range v {
			v[y] = m[y][x]
		}
		one(v, kind[0], colBits, 0)
		for y := range v {
			s := &pic.s[p][4*y4+y][4*x4+x]
			*s = clipPx(*s+rnd(v[y], colShift), bd)
		}
	}
}

// cospi[i] is 4096 cos(i pi / 128).
var cospi = []int{4096, 4095, 4091, 4085, 4076, 4065, 4052, 4036, 4017, 3996, 3973, 3948, 3920, 3889, 3857, 3822,
	3784, 3745, 3703, 3659, 3612, 3564, 3513, 3461, 3406, 3349, 3290, 3229, 3166, 3102, 3035, 2967,
	2896, 2824, 2751, 2675, 2598, 2520, 2440, 2359, 2276, 2191, 2106, 2019, 1931, 1842, 1751, 1660,
	1567, 1474, 1380, 1285, 1189, 1092, 995, 897, 799, 700, 601, 501, 401, 301, 201, 101, 0}

// turn is round((a x + b y) / 4096) with cosines, negative if the index is.
func turn(i, x, j, y int) int {
	c := func(k int) int {
		if k < 0 {
			return -cospi[-k]
		}
		return cospi[k]
	}
	return rnd(c(i)*x+c(j)*y, 12)
}

// in notes a value that no conforming stream leads to.
func (p *picture) in(v int, r uint) int {
	if v < -1<<(r-1) || v > 1<<(r-1)-1 {
		p.vague = true
	}
	return v
}

func (p *picture) dct4(v []int, r uint) {
	a, b := turn(32, v[0], 32, v[2]), turn(32, v[0], -32, v[2])
	c, d := turn(48, v[1], -16, v[3]), turn(16, v[1], 48, v[3])
	v[0], v[1], v[2], v[3] = p.in(a+d, r), p.in(b+c, r), p.in(b-c, r), p.in(a-d, r)
}

func (p *picture) dct8(v []int, r uint) {
	even := []int{v[0], v[2], v[4], v[6]}
	p.dct4(even, r)
	a, b := turn(56, v[1], -8, v[7]), turn(24, v[5], -40, v[3])
	c, d := turn(40, v[5], 24, v[3]), turn(8, v[1], 56, v[7])
	a, b, c, d = p.in(a+b, r), p.in(a-b, r), p.in(d-c, r), p.in(c+d, r)
	b, c = turn(-32, b, 32, c), turn(32, b, 32, c)
	odd := []int{d, c, b, a}
	for i := 0; i < 4; i++ {
		v[i], v[7-i] = p.in(even[i]+odd[i], r), p.in(even[i]-odd[i], r)
	}
}

func adst4(v []int) {
	const s1, s2, s3, s4 = 1321, 2482, 3344, 3803
	a := s1*v[0] + s4*v[2] + s2*v[3]
	b := s2*v[0] - s1*v[2] - s4*v[3]
	c := s3 * (v[0] - v[2] + v[3])
	d := s3 * v[1]
	v[0], v[1], v[2], v[3] = rnd(a+d, 12), rnd(b+d, 12), rnd(c, 12), rnd(a+b-d, 12)
}

func (p *picture) adst8(v []int, r uint) {
	x := []int{v[7], v[0], v[5], v[2], v[3], v[4], v[1], v[6]}
	for i, c := range []int{4, 20, 36, 52} {
		x[2*i], x[2*i+1] = turn(c, x[2*i], 64-c, x[2*i+1]), turn(64-c, x[2*i], -c, x[2*i+1])
	}
	add := func(i, j int) { x[i], x[j] = p.in(x[i]+x[j], r), p.in(x[i]-x[j], r) }
	for i := 0; i < 4; i++ {
		add(i, i+4)
	}
	x[4], x[5] = turn(16, x[4], 48, x[5]), turn(48, x[4], -16, x[5])
	x[6], x[7] = turn(-48, x[6], 16, x[7]), turn(16, x[6], 48, x[7])
	for _, i := range []int{0, 1, 4, 5} {
		add(i, i+2)
	}
	for _, i := range []int{2, 6} {
		x[i], x[i+1] = turn(32, x[i], 32, x[i+1]), turn(32, x[i], -32, x[i+1])
	}
	copy(v, []int{x[0], -x[4], x[6], -x[2], x[3], -x[7], x[5], -x[1]})
}

func wht4(v []int, shift uint) {
	a, c, d, b := v[0]>>shift, v[1]>>shift, v[2]>>shift, v[3]>>shift
	a += c
	d -= b
	m := (a - d) >> 1
	b = m - b
	c = m - c
	v[0], v[1], v[2], v[3] = a-b, b, c, d+c
}
