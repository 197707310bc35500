package main

// An arithmetic encoder for AV1's symbol decoder (section 8.2), written for
// this simulator: the code value is kept as an explicit list of bits and a
// 15 bit window at its end.

type racEnc struct {
	bits  []byte // settled bits, one per byte
	low   int    // 15 bit window
	rng   int
	shift int // bits consumed by a decoder beyond the first 15
}

func newRac() *racEnc { return &racEnc{rng: 1 << 15} }

func (e *racEnc) carry() {
	for e.low >= 1<<15 {
		e.low -= 1 << 15
		for i := len(e.bits) - 1; ; i-- {
			if e.bits[i] == 0 {
				e.bits[i] = 1
				break
			}
			e.bits[i] = 0
		}
	}
}

// symbol codes s with the 32768-scaled cumulative probabilities in cdf (whose
// last element is the adaptation counter).
func (e *racEnc) symbol(cdf []int, s int) {
	n := len(cdf) - 1
	at := func(i int) int { // lower end of symbol i in the inverted range
		return (e.rng>>8)*((1<<15-cdf[i])>>6)>>1 + 4*(n-i-1)
	}
	hi := e.rng
	if s > 0 {
		hi = at(s - 1)
	}
	lo := at(s)
	e.low += e.rng - hi
	e.rng = hi - lo
	e.carry()
	for e.rng < 1<<15 {
		e.rng <<= 1
		e.low <<= 1
		e.bits = append(e.bits, byte(e.low>>15))
		e.low &= 1<<15 - 1
		e.shift++
	}
}

func (e *racEnc) literal(v, n int) {
	for i := n - 1; i >= 0; i-- {
		e.symbol([]int{1 << 14, 1 << 15, 0}, v>>uint(i)&1)
	}
}

// ns codes v in [0, n) as NS( n ).
func (e *racEnc) ns(v, n int) {
	w := bitLen(n)
	m := 1<<uint(w) - n
	if v < m {
		e.literal(v, w-1)
	} else {
		e.literal((v+m)>>1, w-1)
		e.literal((v+m)&1, 1)
	}
}

// finish returns the coded bytes. tight leaves out every byte whose bits are
// all zero at the end; otherwise the result decodes alike whatever follows it.
func (e *racEnc) finish(tight bool) []byte {
	x := e.low
	if tight {
		for k := uint(15); ; k-- {
			y := (e.low + 1<<k - 1) >> k << k
			if y < e.low+e.rng {
				x = y
				break
			}
		}
	}
	save := append([]byte(nil), e.bits...)
	t := racEnc{bits: save, low: x}
	t.carry()
	all := t.bits
	for i := 14; i >= 0; i-- {
		all = append(all, byte(t.low>>uint(i)&1))
	}
	n := len(all)
	if tight {
		for n > 0 && all[n-1] == 0 {
			n--
		}
		n = maxInt(n, e.shift+1)
	}
	for len(all)%8 != 0 {
		all = append(all, 0)
	}
	bytes := make([]byte, (n+7)/8)
	for i := range bytes {
		for j := 0; j < 8; j++ {
			if 8*i+j < len(all) {
				bytes[i] |= all[8*i+j] << uint(7-j)
			}
		}
	}
	if len(bytes) == 0 {
		bytes = []byte{0}
	}
	return bytes
}

// adapt is the probability adaptation of section 8.3.2... of the AV1
// specification for symbol s.
func adapt(cdf []int, s int) {
	n := len(cdf) - 1
	c := cdf[n]
	rate := 3
	if c > 15 {
		rate++
	}
	if c > 31 {
		rate++
	}
	switch {
	case n >= 4:
		rate += 2
	case n >= 2:
		rate++
	}
	for i := 0; i < n-1; i++ {
		if i >= s {
			cdf[i] += (1<<15 - cdf[i]) >> uint(rate)
		} else {
			cdf[i] -= cdf[i] >> uint(rate)
		}
	}
	if c < 32 {
		cdf[n] = c + 1
	}
}
