package main

import (
	"fmt"

	"github.com/m4tthewde/gov1/internal/header"
	"github.com/m4tthewde/gov1/internal/zzverif/simrt"
)

// C12: whatever arrives, the work is bounded by what arrived and by the sizes
// of the pictures declared in it.

// The bounds: scheduler points (statements executed) and slice elements
// requested, per unit, per byte and per sample of the declared pictures. They
// are some twenty times what the decoder needs on any stream seen.
const (
	stepsPerUnit   = 1500000
	stepsPerByte   = 8000
	stepsPerSample = 100
	allocPerUnit   = 1000000
	allocPerByte   = 4000
	allocPerSample = 100
)

// workload measures the work of one delivery.
type workload struct {
	ses   *session
	bytes int64
	peak  int64 // largest picture area seen in the decoder's state
	steps int64
	alloc int64
	fits  bool // the heap was full, but of what the bound allows for
}

func (w *workload) look() {
	a := int64(w.ses.st.MiRows) * int64(w.ses.st.MiCols) * 16
	if a > w.peak {
		w.peak = a
	}
}

// bounds computes what the work may come to; n is the number of units the
// decoder finished or works on.
func (w *workload) bounds() (steps, alloc int64) {
	us := *w.ses.obus
	area := w.peak
	for i := range us {
		if t := int(us[i].Header.Type); t == header.OBU_FRAME || t == header.OBU_FRAME_HEADER {
			u := &us[i].UncompressedHeader
			area += int64(u.UpscaledWidth+8) * int64(u.FrameHeight+8)
		}
	}
	n := int64(len(us)) + 2
	if n > w.bytes+2 {
		n = w.bytes + 2
	}
	return n*stepsPerUnit + w.bytes*stepsPerByte + area*stepsPerSample,
		n*allocPerUnit + w.bytes*allocPerByte + area*allocPerSample
}

// measured delivers data and lets the decoder work while its bounds hold.
func (ses *session) measured(data []byte, w *workload) {
	const tick = 1 << 15
	w.ses, w.bytes = ses, int64(len(data))
	w.peak, w.steps = 0, 0
	ses.b.Data = append(append([]byte(nil), ses.b.Data...), data...)
	oldN, oldSlow := simrt.N, simrt.Slow
	simrt.Alloc = 0
	w.look()
	k := 0
	simrt.Slow = func() {
		w.look()
		w.steps += tick
		if s, _ := w.bounds(); w.steps > s {
			simrt.N = 1 << 40
			panic(stepsOver{})
		}
		if k++; k%8 == 0 {
			if n := liveHeap(); n > heapMax {
				simrt.N = 1 << 40
				_, a := w.bounds()
				w.fits = n/8 <= uint64(a)
				panic(simrt.OOM{Want: int64(n >> 3), Had: simrt.Alloc})
			}
		}
		simrt.N = tick
	}
	simrt.N = tick
	simrt.AllocHook = w.look
	ses.end, ses.msg = guard(ses.p.VerifRun)
	simrt.AllocHook = nil
	w.look()
	if simrt.N < 1<<39 {
		w.steps += tick - simrt.N
	}
	w.alloc = simrt.Alloc
	totalSteps += w.steps
	simrt.N, simrt.Slow = oldN, oldSlow
}

// mutate damages a stream anywhere, its framing included.
func mutate(s *Src, b, other []byte, r *runInfo) []byte {
	b = append([]byte(nil), b...)
	at := func() int { return s.N(len(b) + 1) }
	for k := 1 + s.N(4); k > 0; k-- {
		if len(b) == 0 {
			b = append(b, byte(s.N(256)))
		}
		switch s.N(9) {
		case 0:
			b = damage(s, b, 8*len(b))
			r.add("fault: bits damaged", 1)
		case 1:
			b[s.N(len(b))] = byte(s.Bits(8))
			r.add("fault: byte damaged", 1)
		case 2: // a piece is lost
			i := at()
			j := minInt(len(b), i+s.N(12))
			b = append(b[:i:i], b[j:]...)
			r.add("fault: piece lost", 1)
		case 3: // a piece is repeated
			i := at()
			j := minInt(len(b), i+s.N(40))
			b = append(append(append([]byte(nil), b[:j]...), b[i:j]...), b[j:]...)
			r.add("fault: piece repeated", 1)
		case 4: // foreign bytes
			i := at()
			b = append(append(append([]byte(nil), b[:i]...), someBytes(s, 12)...), b[i:]...)
			r.add("fault: foreign bytes put in", 1)
		case 5: // spliced with another stream
			i := at()
			j := s.N(len(other) + 1)
			b = append(append([]byte(nil), b[:i]...), other[j:]...)
			r.add("fault: streams spliced", 1)
		case 6:
			b = b[:at()]
			r.add("fault: delivery stopped", 1)
		case 7: // a length or count of up to 32 bits somewhere
			i := at()
			b = append(append(append([]byte(nil), b[:i]...), leb128bytes(s.Bits(32), 0)...), b[minInt(len(b), i+1):]...)
			r.add("fault: length replaced", 1)
		case 8: // a stretch of zeros or ones
			i := at()
			v := byte(255 * s.N(2))
			for j := i; j < len(b) && j < i+24; j++ {
				b[j] = v
			}
			r.add("fault: stretch of equal bits", 1)
		}
		if len(b) > 1<<14 {
			b = b[:1<<14]
		}
	}
	return b
}

func runC12(s *Src, r *runInfo) *violation {
	stream := func() (out [][]byte) {
		cfg := stdHist()
		cfg.maxTU = 4
		switch s.N(4) {
		case 0, 1:
			cfg.seq.tiny = true
			cfg.frame.decodable = true
			cfg.split = true
			cfg.blocks = s.Bool(1, 2)
			cfg.cuts = s.Bool(1, 2)
			cfg.frame.segments = cfg.blocks
		case 2:
			cfg.frame.maxMi = 1 << 14
			cfg.frame.manyTiles = true
		}
		h := newHist(s, cfg, newRunInfo())
		for i, n := 0, 1+s.N(cfg.maxTU); i < n && !h.over; i++ {
			t := h.next()
			if h.m.seen && !h.over && s.Bool(1, 2) {
				// arbitrary tiles for whatever frame it is
				b := someBytes(s, 60)
				u := h.dress(&unit{typ: obuTileGroup, payload: b})
				t.frames = append(t.frames, []*unit{u})
				if s.Bool(1, 2) {
					t.frames[len(t.frames)-1] = append(t.frames[len(t.frames)-1], h.noiseUnit())
				}
				t.pack(s)
				r.add("fault: arbitrary tile content", 1)
			}
			if s.Bool(1, 6) { // damage behind intact framing
				l := t.list()
				u := l[s.N(len(l))]
				u.payload = damage(s, u.payload, 8*len(u.payload))
				t.pack(s)
				r.add("fault: unit damaged inside intact framing", 1)
			}
			out = append(out, t.bytes)
		}
		return
	}
	chunks := stream()
	switch s.N(8) {
	case 0:
	case 1: // nothing but noise
		chunks = [][]byte{someBytes(s, 200)}
		r.add("fault: arbitrary bytes", 1)
	case 2, 3: // the last delivery is damaged
		k := len(chunks) - 1
		chunks[k] = mutate(s, chunks[k], chunks[0], r)
	default:
		var other []byte
		for _, c := range stream() {
			other = append(other, c...)
		}
		var all []byte
		for _, c := range chunks {
			all = append(all, c...)
		}
		chunks = [][]byte{mutate(s, all, other, r)}
	}
	ses := newSession()
	for i, c := range chunks {
		var w workload
		ses.clear()
		ses.measured(c, &w)
		units := len(*ses.obus)
		steps, alloc := w.bounds()
		r.compared += 2
		r.logf("delivery %d, %d bytes: %d units, %d steps (bound %d), %d elements (bound %d), largest picture %d samples -> %s %s", i, len(c), units, w.steps, steps, w.alloc, alloc, w.peak, ses.end, short(ses.msg))
		if calibrate != nil {
			calibrate(&w, units)
		}
		if ses.end == endBlocked {
			return violatef("delivery %d of %d bytes: no end, %s", i, len(c), ses.msg)
		}
		if ses.end == endSteps {
			return violatef("delivery %d of %d bytes: no end after %d steps, with %d units decoded and pictures of up to %d samples declared", i, len(c), w.steps, units, w.peak)
		}
		if w.alloc > alloc || ses.end == endOOM && !w.fits && w.peak < 1<<18 {
			return violatef("delivery %d of %d bytes: %d elements of memory requested (%s), with %d units decoded and pictures of up to %d samples declared", i, len(c), w.alloc, short(ses.msg), units, w.peak)
		}
		r.add("ended: "+ses.end.String(), 1)
		r.see(uint64(units), uint64(w.steps), uint64(w.alloc))
		r.state(uint64(bitLen(int(w.steps))), uint64(bitLen(int(w.alloc))), uint64(bitLen(len(c))), uint64(units), uint64(ses.end), uint64(bitLen(int(w.peak))))
		if ses.end != endOK {
			break
		}
	}
	r.weighty = ses.end != endOK || len(chunks) > 1
	ses.clear()
	return nil
}

var calibrate func(w *workload, units int)

func calibrateC12(seed uint64, n int) {
	var su, ss, sb, au, as float64
	calibrate = func(w *workload, units int) {
		area := float64(w.peak + 64)
		k := float64(units + 1)
		p := func(name string, m *float64, v float64) {
			if v > *m {
				*m = v
				fmt.Printf("%s: %.1f (steps %d alloc %d units %d bytes %d peak %d)\n", name, v, w.steps, w.alloc, units, w.bytes, w.peak)
			}
		}
		if w.peak <= 64 {
			p("steps per unit", &su, float64(w.steps)/k)
			p("alloc per unit", &au, float64(w.alloc)/k)
			if w.bytes > 4*int64(k)*8 {
				p("steps per byte", &sb, float64(w.steps)/float64(w.bytes))
			}
		}
		if w.peak > 4096 {
			p("steps per sample", &ss, float64(w.steps)/area/k)
			p("alloc per sample", &as, float64(w.alloc)/area/k)
		}
	}
	for i := 0; i < n; i++ {
		oneRun(properties["C12"], newSrc(seedOf(seed, "C12", uint64(i))), newRunInfo())
	}
}

func init() {
	register(&property{id: "C12", run: runC12,
		rule:    "a run generates streams, damages them anywhere (or replaces them by noise, or puts arbitrary bytes into their tiles) and measures the decoder's statements and allocations per delivery; non-trivial if the decode failed or several deliveries were decoded; distinct by the work done",
		measure: "magnitudes of work, memory, bytes and picture area, units decoded, way of ending",
		real:    append([]string{"tilegroup (all of it that arbitrary tiles reach)"}, realTiles...),
		stub:    []string{"encoder and transport (generator)", "memory size (limit on allocations)", "clock (statements executed)", "logger (no-op)"}})
}
