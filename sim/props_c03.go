package main

// Framing (C03) and layers (C04): what a decoder makes of a stream compared
// with what it makes of a plainer stream that must decode alike.

// plainer rewrites temporal units: f returns what to send for a unit, or nil.
func plainer(tus []*tempUnit, f func(*unit) *unit) (out [][]byte, kept [][]int) {
	for _, t := range tus {
		c := &tempUnit{frames: [][]*unit{nil}}
		var k []int
		for i, u := range t.list() {
			if p := f(u); p != nil {
				c.frames[0] = append(c.frames[0], p)
				k = append(k, i)
			}
		}
		c.pack(replaySrc(nil))
		out = append(out, c.bytes)
		kept = append(kept, k)
	}
	return
}

func uninterpreted(t int) bool {
	switch t {
	case obuSeq, obuTD, obuFrameHdr, obuTileGroup, obuFrame, obuRedundant:
		return false
	}
	return true
}

// plainUnit is the unit in the simplest framing.
func plainUnit(u *unit) *unit {
	c := *u
	c.hasSize, c.res1, c.sizePad, c.lenPad = true, 0, 0, 0
	return &c
}

// outcome of decoding temporal units one by one
type decodeLog struct {
	digests [][]uint64
	ses     *session
	failed  int // temporal unit in which it failed, or -1
}

func decodeAll(parts [][]byte, without string) *decodeLog {
	l := &decodeLog{ses: newSession(), failed: -1}
	for i, p := range parts {
		l.ses.clear()
		l.ses.feed(p)
		l.digests = append(l.digests, unitDigests(l.ses.units(), without))
		if l.ses.end != endOK {
			l.failed = i
			break
		}
	}
	l.ses.clear()
	return l
}

func runC03(s *Src, r *runInfo) *violation {
	cfg := cleanHist()
	cfg.maxTU = 6
	cfg.noise = [2]int{1, 2}
	if s.Bool(1, 40) {
		cfg.crowd = [2]int{1, 3}
	}
	switch s.N(3) {
	case 0:
		cfg.seq.tiny = true
		cfg.mix = [2]int{1, 2}
		cfg.split = true
	case 1:
		cfg.seq.layered = 1
	}
	h := newHist(s, cfg, r)
	ses := newSession()
	n := 1 + s.N(cfg.maxTU)
	var tus []*tempUnit
	var parts [][]byte
	var digests [][]uint64
	var fs []finding
	for i := 0; i < n && !h.over; i++ {
		t := h.next()
		r.logf("temporal unit %d: %s", i, t)
		tus = append(tus, t)
		parts = append(parts, t.bytes)
		ses.clear()
		ses.feed(t.bytes)
		fs = h.check(ses, t, nil)
		digests = append(digests, unitDigests(ses.units(), noFraming))
		for _, u := range t.list() {
			if uninterpreted(u.typ) && !u.drop {
				r.weighty = true
			}
			r.state(uint64(u.typ), uint64(b2i(u.ext)<<3|b2i(u.hasSize)<<2|u.res1<<1|b2i(u.drop)), uint64(len(u.payload)), uint64(u.sizePad<<4|u.lenPad))
			r.see(uint64(u.typ), uint64(len(u.payload)))
		}
		if len(fs) > 0 || ses.end != endOK {
			break
		}
	}
	ses.clear()
	if v := judge(r, fs, []string{"units"}); v != nil {
		v.msg = "in temporal unit " + itoa(len(tus)-1) + ", " + v.msg
		return v
	}
	// the same stream with nothing to skip and the simplest framing
	plain, kept := plainer(tus, func(u *unit) *unit {
		if uninterpreted(u.typ) {
			return nil
		}
		return plainUnit(u)
	})
	p := decodeAll(plain, noFraming)
	if len(fs) > 0 || ses.end != endOK {
		if p.failed < 0 && (ses.end != endOK || worse(fs, p, tus)) {
			return violatef("in temporal unit %d, %s; the same stream without the skipped units and in the simplest framing is decoded as it should be", len(tus)-1, first(fs, ses))
		}
		return nil
	}
	if p.failed >= 0 {
		r.add("run ended without a verdict", 1)
		if strict {
			return violatef("plain failed: %s", p.ses.msg)
		}
		return nil
	}
	for i := range digests {
		if len(p.digests[i]) != len(kept[i]) {
			return violatef("in temporal unit %d, %d units were reported for the simplest framing, %d were sent", i, len(p.digests[i]), len(kept[i]))
		}
		for j, k := range kept[i] {
			r.compared++
			if digests[i][k] != p.digests[i][j] {
				return violatef("in temporal unit %d, unit %d (%s) is decoded differently without the skipped units and in the simplest framing", i, k, obuNameOf(tus[i].list()[k].typ))
			}
		}
	}
	r.compared++
	if stateDigest(ses.st) != stateDigest(p.ses.st) {
		return violatef("skipped units or framing changed the decoder's state:%s", stateDiff(ses.st, p.ses.st))
	}
	return nil
}

func first(fs []finding, ses *session) string {
	if len(fs) > 0 {
		return fs[0].msg
	}
	return "decoding failed: " + short(ses.msg)
}

// worse: the plain stream decodes to what the model says, this one does not.
func worse(fs []finding, p *decodeLog, tus []*tempUnit) bool {
	if len(fs) == 0 {
		return false
	}
	r := newRunInfo()
	h := &hist{cfg: &histCfg{}, m: &decModel{}, run: r, s: replaySrc(nil)}
	ses := newSession()
	for _, t := range tus {
		c := copyPlain(t)
		ses.clear()
		ses.feed(c.bytes)
		if fs := h.check(ses, c, nil); len(fs) > 0 || ses.end != endOK {
			ses.clear()
			return false
		}
	}
	ses.clear()
	return true
}

// copyPlain is the temporal unit in the simplest framing, with the model's
// view of it.
func copyPlain(t *tempUnit) *tempUnit {
	c := *t
	c.frames = [][]*unit{nil}
	for _, u := range t.list() {
		if !uninterpreted(u.typ) {
			c.frames[0] = append(c.frames[0], plainUnit(u))
		}
	}
	c.pack(replaySrc(nil))
	return &c
}

func runC04(s *Src, r *runInfo) *violation {
	cfg := cleanHist()
	cfg.maxTU = 6
	cfg.seq.layered = 2
	cfg.seq.noModel = true
	cfg.outside = [2]int{2, 3}
	cfg.newSeq = [2]int{1, 3}
	switch s.N(4) {
	case 0:
		cfg.seq.layered = 0
	case 1:
		cfg.seq.tiny = true
		cfg.mix = [2]int{1, 2}
		cfg.split = true
	case 2:
		cfg.lossy = [2]int{1, 1}
		cfg.frame.oddities = true
		return histRun(s, r, cfg, "op", "drop")
	}
	h := newHist(s, cfg, r)
	ses := newSession()
	n := 1 + s.N(cfg.maxTU)
	var tus []*tempUnit
	var digests [][]uint64
	var fs []finding
	for i := 0; i < n && !h.over; i++ {
		t := h.next()
		r.logf("temporal unit %d: %s", i, t)
		tus = append(tus, t)
		ses.clear()
		ses.feed(t.bytes)
		fs = h.check(ses, t, nil)
		digests = append(digests, unitDigests(ses.units(), noLayers))
		for _, u := range t.list() {
			r.weighty = r.weighty || u.drop || t.after.opIdc != 0 && u.ext
			r.state(uint64(u.typ), uint64(b2i(u.ext)<<8|u.tid<<4|u.sid), uint64(t.after.opIdc))
		}
		r.see(uint64(t.after.opIdc), uint64(len(t.bytes)))
		if len(fs) > 0 || ses.end != endOK {
			break
		}
	}
	ses.clear()
	if v := judge(r, fs, []string{"op", "drop"}); v != nil {
		v.msg = "in temporal unit " + itoa(len(tus)-1) + ", " + v.msg
		return v
	}
	// the same stream as a stream of one layer
	flat, kept := plainer(tus, func(u *unit) *unit {
		if u.drop {
			return nil
		}
		c := *u
		c.ext = false
		if u.typ == obuSeq && u.sh != nil {
			c.payload = withoutLayers(u)
		}
		return &c
	})
	p := decodeAll(flat, noLayers)
	if len(fs) > 0 || ses.end != endOK {
		return c04Attribute(h, tus, digests, p, kept, fs, ses)
	}
	if p.failed >= 0 {
		r.add("run ended without a verdict", 1)
		if strict {
			return violatef("flat failed: %s", p.ses.msg)
		}
		return nil
	}
	if v := c04Compare(r, tus, digests, p, kept); v != nil {
		return v
	}
	r.compared++
	if stateDigest(ses.st, "OperatingPointIdc") != stateDigest(p.ses.st, "OperatingPointIdc") {
		return violatef("units outside the operating point changed the decoder's state:%s", stateDiff(ses.st, p.ses.st, "OperatingPointIdc"))
	}
	return nil
}

func c04Compare(r *runInfo, tus []*tempUnit, digests [][]uint64, p *decodeLog, kept [][]int) *violation {
	for i := range digests {
		if i >= len(p.digests) || len(p.digests[i]) != len(kept[i]) {
			return nil
		}
		l := tus[i].list()
		for j, k := range kept[i] {
			if k >= len(digests[i]) {
				return violatef("in temporal unit %d, unit %d (%s) is decoded when all layers are one, not otherwise", i, k, obuNameOf(l[k].typ))
			}
			if t := l[k].typ; t != obuFrame && t != obuFrameHdr && t != obuTileGroup {
				continue // the layers themselves differ
			}
			r.compared++
			if digests[i][k] != p.digests[i][j] {
				return violatef("in temporal unit %d, unit %d (%s), inside the operating point, is decoded differently when all layers are one and the dropped units are left out", i, k, obuNameOf(l[k].typ))
			}
		}
	}
	return nil
}

// c04Attribute decides whether a finding comes from the layers.
func c04Attribute(h *hist, tus []*tempUnit, digests [][]uint64, p *decodeLog, kept [][]int, fs []finding, ses *session) *violation {
	if p.failed >= 0 {
		return nil
	}
	if ses.end != endOK {
		return violatef("in temporal unit %d, %s; the same stream with all layers made one is decoded", len(tus)-1, first(fs, ses))
	}
	if v := c04Compare(h.run, tus, digests, p, kept); v != nil {
		return v
	}
	// what is left behind differs from what is left without the dropped units
	if len(digests) == len(tus) && stateDigest(ses.st, "OperatingPointIdc") != stateDigest(p.ses.st, "OperatingPointIdc") {
		return violatef("units outside the operating point changed the decoder's state:%s", stateDiff(ses.st, p.ses.st, "OperatingPointIdc"))
	}
	return nil
}

// withoutLayers is the sequence header with all operating point masks zero.
func withoutLayers(u *unit) []byte {
	b := append([]byte(nil), u.payload...)
	for _, at := range u.sh.idcAt {
		for i := at; i < at+12; i++ {
			b[i/8] &^= 0x80 >> uint(i%8)
		}
	}
	return b
}

func init() {
	stub := []string{"encoder and transport (generator)", "memory size (limit on allocations)", "logger (no-op)"}
	register(&property{id: "C03", run: runC03,
		rule:    "a run generates a stream with units to be skipped put in and every framing choice, and the same stream in the simplest framing; non-trivial if a unit is skipped by its size; distinct by unit types and sizes",
		measure: "unit type, header flags, payload size, size field padding",
		real:    realTiles, stub: stub})
	register(&property{id: "C04", run: runC04,
		rule:    "a run generates a layered stream with units outside the operating point, and the same stream made one layer; non-trivial if a unit is dropped or is kept because of its layer ids; distinct by operating points and sizes",
		measure: "unit type, layer ids, operating point mask",
		real:    realTiles, stub: stub})
}
