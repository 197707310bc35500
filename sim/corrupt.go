package main

// Bit faults on the way to the decoder: the model parses the damaged header
// itself, so the decoder can be held to what the bits now say.

// damage changes bits of a header.
func damage(s *Src, b []byte, bits int) []byte {
	b = append([]byte(nil), b...)
	if bits > 8*len(b) {
		bits = 8 * len(b)
	}
	switch s.N(6) {
	case 0, 1, 2:
		for k := 1 + s.N(3); k > 0 && bits > 0; k-- {
			i := s.N(bits)
			b[i/8] ^= 0x80 >> uint(i%8)
		}
	case 3: // a burst
		if len(b) > 0 {
			for i, k := s.N(len(b)), s.N(4); k >= 0 && i < len(b); i, k = i+1, k-1 {
				b[i] = byte(s.N(256))
			}
		}
	case 4: // the end is lost
		b = b[:s.N(len(b)+1)]
	case 5: // the rest is something else
		at := 0
		if bits > 0 {
			at = s.N(bits) / 8
		}
		b = append([]byte(nil), b[:at]...)
		for k := s.N(60); k > 0; k-- {
			b = append(b, byte(s.Bits(8)))
		}
	}
	return b
}

// modelParse runs a model parser and reports whether the data sufficed.
func modelParse(f func()) (ended bool) {
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(endOfData); !ok {
				panic(x)
			}
			ended = true
		}
	}()
	f()
	return false
}

// damagedTU is a last temporal unit whose last unit is a damaged header.
func (h *hist) damagedTU(kind int) *tempUnit {
	s := h.s
	t := &tempUnit{}
	m := h.m
	var l []*unit
	l = append(l, h.dress(h.anyLayer(&unit{typ: obuTD})))
	m.seen = false
	for i := range m.slots {
		m.slots[i].fresh = false
	}
	m.frameCdfs = cdfSet{}
	for k := 0; k < 2 && s.Bool(h.cfg.noise[0], h.cfg.noise[1]); k++ {
		l = append(l, h.noiseUnit())
	}
	u := &unit{typ: kind}
	was := m.snapshot()
	switch kind {
	case obuSeq:
		h.anyLayer(u)
		o := &io{gen: true, s: s}
		seqSyntax(o, &h.cfg.seq)
		u.payload = damage(s, withTrailing(&o.w, h.extraZero()), o.w.n)
		pi := &io{r: &bitr{b: u.payload}, s: s}
		var sh *seqHdr
		if modelParse(func() { sh = seqSyntax(pi, &h.cfg.seq) }) {
			u.want, u.why = mustFail, "bits that never arrived"
		} else {
			u.want = mayFail
			u.sh = sh
			m.sh = sh
			m.opIdc = sh.idc[0]
		}
	default:
		h.layer(u, true)
		o := &io{gen: true, s: s}
		c := m.snapshot()
		fc := h.cfg.frame
		fc.types = h.frameTypes()
		frameSyntax(o, &fc, c, u.tid, u.sid)
		u.payload = damage(s, withTrailing(&o.w, h.extraZero()), o.w.n)
		pi := &io{r: &bitr{b: u.payload}, s: s}
		c = m.snapshot()
		var fh *frameHdr
		if modelParse(func() { fh = frameSyntax(pi, &fc, c, u.tid, u.sid) }) {
			u.want, u.why = mustFail, "bits that never arrived"
		} else {
			u.fh = fh
			switch {
			case fh.vague:
				u.want = mayFail
			case fh.unsupported != "":
				u.want, u.why = mustFail, fh.unsupported
			default:
				u.want = mayFail
				u.inForce = m.sh
				t.lastFh = fh
			}
			h.m = c
			h.m.seen = true
			m = c
		}
	}
	u.damaged = true
	u.before = was
	h.run.add("fault: damaged "+obuNameOf(kind), 1)
	l = append(l, h.dress(u))
	t.frames = [][]*unit{l}
	t.pack(s)
	t.after = m.snapshot()
	t.end, t.why = u.want, u.why
	h.tus = append(h.tus, t)
	h.over = true
	return t
}
