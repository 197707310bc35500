package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/m4tthewde/gov1/internal/bitstream"
)

// C01: one to three readers, possibly over the same bytes, whose data arrives
// piece by piece; every read is compared with a reader written for this
// simulator from the descriptors' definitions.

type rdr struct {
	b    *bitstream.BitStream
	all  []byte // what will ever arrive
	have int    // bytes delivered
	pos  int    // model position
	fail int
	far  bool
}

func (x *rdr) deliver(n int) {
	x.have = minInt(len(x.all), x.have+n)
	x.b.Data = append(append([]byte(nil), x.b.Data...), x.all[len(x.b.Data):x.have]...)
}

// someBytes draws bytes with long runs of zeros and ones in them.
func someBytes(s *Src, max int) []byte {
	n := s.N(max + 1)
	b := make([]byte, n)
	for i := 0; i < n; {
		k := 1 + s.N(9)
		kind := s.N(6)
		for ; k > 0 && i < n; k, i = k-1, i+1 {
			switch kind {
			case 0:
				b[i] = 0
			case 1:
				b[i] = 255
			case 2:
				b[i] = byte(128 | s.N(128)) // leb128 goes on
			case 3:
				b[i] = 1 << uint(s.N(8))
			default:
				b[i] = byte(s.N(256))
			}
		}
	}
	return b
}

// manyBytes makes n bytes from few choices.
func manyBytes(s *Src, n int) []byte {
	b := make([]byte, n)
	switch kind := s.N(4); kind {
	case 0:
	case 1:
		for i := range b {
			b[i] = 255
		}
	default:
		x := uint64(s.N(1 << 30))
		for i := range b {
			if i%8 == 0 {
				x = splitmix(x)
			}
			b[i] = byte(x >> uint(i%8*8))
		}
	}
	return b
}

func runC01(s *Src, r *runInfo) *violation {
	var rs []*rdr
	for n := 1 + s.N(3); n > 0; n-- {
		x := &rdr{}
		if len(rs) > 0 && s.Bool(1, 4) {
			x.all = rs[0].all
		} else {
			x.all = someBytes(s, 64)
			if s.Bool(1, 40) {
				// far into a long stream
				x.all = manyBytes(s, 1<<16+s.N(1<<16))
				x.far = true
			}
		}
		b := bitstream.NewBitStream(nil)
		x.b = &b
		x.deliver(s.N(len(x.all) + 1))
		if x.far {
			x.pos = 8 * s.N(x.have+1)
			x.b.Position = x.pos
		}
		rs = append(rs, x)
	}
	steps := 1 + s.N(60)
	for k := 0; k < steps; k++ {
		x := rs[s.N(len(rs))]
		if s.Bool(1, 8) && x.have < len(x.all) {
			x.deliver(1 + s.N(len(x.all)-x.have))
			r.add("fault: data arrived late", 1)
		}
		if v := x.step(s, r, k); v != nil {
			return v
		}
	}
	return nil
}

// step does one read.
func (x *rdr) step(s *Src, r *runInfo, k int) *violation {
	m := &bitr{b: x.all[:x.have], pos: x.pos}
	var name string
	var want, got int
	var model, real func()
	read := func(f func() int, g func() int) {
		model = func() { want = f() }
		real = func() { got = g() }
	}
	leb, wantLeb := false, 0
	switch op := s.N(10); op {
	case 0, 1:
		n := s.N(34)
		if s.Bool(1, 10) {
			n = s.N(63)
		}
		name = "f(" + itoa(n) + ")"
		read(func() int { return m.f(n) }, func() int { return x.b.F(n) })
	case 2:
		name = "uvlc()"
		read(m.uvlc, x.b.Uvlc)
	case 3:
		name = "leb128()"
		leb = true
		read(func() int { v, n := m.leb128(); wantLeb = n; return v }, x.b.Leb128)
	case 4:
		n := 1 + s.N(32)
		name = "su(" + itoa(n) + ")"
		read(func() int { return m.su(n) }, func() int { return x.b.Su(n) })
	case 5:
		n := 1 + s.N(40)
		if s.Bool(1, 2) {
			n = 1 + s.N(1<<uint(s.N(31)))
		}
		name = "ns(" + itoa(n) + ")"
		read(func() int { return m.ns(n) }, func() int { return x.b.Ns(n) })
	case 6:
		n := s.N(8)
		name = "le(" + itoa(n) + ")"
		read(func() int { return m.le(n) }, func() int { return x.b.Le(n) })
	case 7:
		name = "byte_alignment()"
		read(func() int {
			for m.pos%8 != 0 {
				m.bit()
			}
			return 0
		}, func() int { x.b.ByteAlignment(); return 0 })
	case 8:
		n := 1 + s.N(40)
		if s.Bool(1, 10) {
			n = 1 + s.N(400)
		}
		name = "trailing_bits(" + itoa(n) + ")"
		read(func() int { m.f(1); m.skip(n - 1); return 0 }, func() int { x.b.TrailingBits(n); return 0 })
	case 9:
		if x.pos <= 8*x.have {
			want := x.pos < 8*x.have
			if got := x.b.MoreDataInBistream(); got != want {
				return violatef("at bit %d of %d, the end-of-data test says more data: %v", x.pos, 8*x.have, got)
			}
			r.compared++
		}
		if x.pos%8 == 0 && s.Bool(1, 3) { // a unit is skipped by its size
			n := s.N(6)
			if x.pos/8+n <= x.have {
				x.pos += 8 * n
				x.b.Position += 8 * n
				r.logf("skip %d bytes", n)
			}
		}
		return nil
	}
	before := append([]byte(nil), x.b.Data...)
	ended := modelParse(model)
	_, end, msg := limited(1e6+int64(1000*x.have), real)
	r.logf("%s at bit %d of %d -> %d (%s)", name, x.pos, 8*x.have, want, end)
	if !bytes.Equal(before, x.b.Data) {
		return violatef("%s changed the delivered bytes", name)
	}
	r.compared++
	r.state(uint64(len(name)), uint64(name[0])<<8|uint64(name[len(name)-2]), uint64(x.pos%8), uint64(m.pos-x.pos), uint64(b2i(ended)))
	op := strings.SplitN(name, "(", 2)[0]
	if ended {
		r.add("fault: data ended inside "+op, 1)
		r.weighty = true
		if end == endOK {
			return violatef("%s at bit %d of %d needs bits that were not delivered and gave %d", name, x.pos, 8*x.have, got)
		}
		if end.hung() {
			return violatef("%s at bit %d of %d, where data ends, does not end", name, x.pos, 8*x.have)
		}
		// a decoder would stop here; the simulation tries again later, with
		// more data or with another read
		x.b.Position = x.pos
		x.fail++
		return nil
	}
	if end != endOK {
		return violatef("%s at bit %d of %d ended in a failure: %s", name, x.pos, 8*x.have, short(msg))
	}
	if got != want {
		return violatef("%s at bit %d gave %d, expected %d (%s)", name, x.pos, got, want, bitsAt(x.all, x.pos, m.pos))
	}
	if x.b.Position != m.pos {
		return violatef("%s at bit %d left the position at %d, expected %d", name, x.pos, x.b.Position, m.pos)
	}
	if leb && x.b.Leb128Bytes != wantLeb {
		return violatef("leb128() at bit %d reported %d bytes, expected %d", x.pos, x.b.Leb128Bytes, wantLeb)
	}
	r.add("read: "+op, 1)
	r.see(uint64(got), uint64(m.pos))
	if m.pos > x.pos+8 {
		r.weighty = true
	}
	x.pos = m.pos
	return nil
}

func (r *bitr) skip(n int) {
	for ; n > 0; n-- {
		r.bit()
	}
}

func bitsAt(b []byte, from, to int) string {
	var o strings.Builder
	for i := from; i < to && i < from+80; i++ {
		fmt.Fprint(&o, b[i/8]>>uint(7-i%8)&1)
	}
	return o.String()
}

func init() {
	register(&property{id: "C01", run: runC01,
		rule:    "a run is up to 60 reads by one to three readers whose bytes arrive in pieces; non-trivial if a read spans more than a byte or data ends inside a read; distinct by all values read",
		measure: "descriptor with its parameter, bit alignment, length and whether data ended in it",
		real:    []string{"bitstream"}, stub: []string{"the delivery of bytes"}})
}
