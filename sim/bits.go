package main

// bitw writes bits, most significant first.
type bitw struct {
	b []byte
	n int
}

func (w *bitw) put(v uint64, n int) {
	for i := n - 1; i >= 0; i-- {
		if w.n%8 == 0 {
			w.b = append(w.b, 0)
		}
		if v>>uint(i)&1 == 1 {
			w.b[w.n/8] |= 0x80 >> uint(w.n%8)
		}
		w.n++
	}
}

// endOfData is what the model's reader stops with when bits are missing.
type endOfData struct{}

// bitr is the model's own reader, written from section 4.10 of the AV1
// specification: it works on an explicit bit array.
type bitr struct {
	b   []byte
	pos int
}

func (r *bitr) bit() int {
	if r.pos < 0 || r.pos >= 8*len(r.b) {
		panic(endOfData{})
	}
	by := r.b[r.pos>>3]
	k := 7 - r.pos&7
	r.pos++
	return int(by>>uint(k)) & 1
}
func (r *bitr) f(n int) int {
	v := 0
	for ; n > 0; n-- {
		v = v<<1 | r.bit()
	}
	return v
}
func (r *bitr) uvlc() int {
	z := 0
	for r.bit() == 0 {
		z++
	}
	if z >= 32 {
		return 1<<32 - 1
	}
	return r.f(z) + 1<<uint(z) - 1
}
func (r *bitr) leb128() (v, n int) {
	for n < 8 {
		by := r.f(8)
		v += (by & 127) << uint(7*n)
		n++
		if by < 128 {
			break
		}
	}
	return
}
func (r *bitr) su(n int) int {
	v := r.f(n)
	if v >= 1<<uint(n-1) {
		v -= 1 << uint(n)
	}
	return v
}
func bitLen(n int) int {
	w := 0
	for n > 0 {
		w++
		n >>= 1
	}
	return w
}
func (r *bitr) ns(n int) int {
	w := bitLen(n)
	m := 1<<uint(w) - n
	v := r.f(w - 1)
	if v < m {
		return v
	}
	return 2*v - m + r.bit()
}
func (r *bitr) le(n int) int {
	v := 0
	for i := 0; i < n; i++ {
		v |= r.f(8) << uint(8*i)
	}
	return v
}

func leb128bytes(v int, pad int) []byte {
	var o []byte
	for {
		c := byte(v & 127)
		v >>= 7
		if v != 0 || pad > 0 {
			o = append(o, c|128)
			if v == 0 {
				pad--
			}
		} else {
			return append(o, c)
		}
		if len(o) == 7 && v == 0 {
			return append(o, 0)
		}
	}
}
