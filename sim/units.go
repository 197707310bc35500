package main

import (
	"fmt"
	"strconv"
	"strings"
)

// Open bitstream units and the length-delimited (Annex B) transport.

const (
	obuSeq       = 1
	obuTD        = 2
	obuFrameHdr  = 3
	obuTileGroup = 4
	obuMeta      = 5
	obuFrame     = 6
	obuRedundant = 7
	obuTileList  = 8
	obuPadding   = 15
)

var obuName = map[int]string{1: "sequence header", 2: "temporal delimiter", 3: "frame header", 4: "tile group", 5: "metadata", 6: "frame", 7: "redundant frame header", 8: "tile list", 15: "padding"}

func obuNameOf(t int) string {
	if n, ok := obuName[t]; ok {
		return n
	}
	return "reserved"
}

type unit struct {
	typ            int
	ext            bool
	tid, sid, res3 int
	res1           int
	hasSize        bool
	payload        []byte
	sizePad        int // redundant bytes in obu_size
	lenPad         int // redundant bytes in obu_length

	// what the model says about it
	damaged bool
	blind   bool // what a decoder does from here on is not predicted
	drop    bool
	sh      *seqHdr
	fh      *frameHdr
	before  *decModel // what was known before it, if it may fail
	inForce *seqHdr   // the sequence header it is to be understood with
	tiles   *tilePlan
	want    outcome
	why     string
	off     int // where it starts in its temporal unit
	end     int
}

type outcome int

const (
	mustWork outcome = iota
	mustFail
	mayFail
)

func (u *unit) body() []byte {
	b := u.typ<<3 | b2i(u.ext)<<2 | b2i(u.hasSize)<<1 | u.res1
	o := []byte{byte(b)}
	if u.ext {
		o = append(o, byte(u.tid<<5|u.sid<<3|u.res3))
	}
	if u.hasSize {
		o = append(o, leb128bytes(len(u.payload), u.sizePad)...)
	}
	return append(o, u.payload...)
}

type tempUnit struct {
	frames [][]*unit // frame units
	bytes  []byte
	starts []int // unit starts, in decoding order
	ends   []int
	pads   []int
	after  *decModel
	stand  bool // a stand-in completes its last frame
	lastFh *frameHdr
	end    outcome
	why    string
}

func (t *tempUnit) list() (l []*unit) {
	for _, f := range t.frames {
		l = append(l, f...)
	}
	return
}

// pack computes the bytes of the temporal unit.
func (t *tempUnit) pack(s *Src) {
	var fus [][]byte
	total := 0
	for _, f := range t.frames {
		var fb []byte
		for _, u := range f {
			b := u.body()
			fb = append(fb, leb128bytes(len(b), u.lenPad)...)
			u.off = len(fb)
			fb = append(fb, b...)
			u.end = len(fb)
		}
		pad := 0
		if s.Bool(1, 24) {
			pad = s.N(4)
		}
		h := leb128bytes(len(fb), pad)
		for _, u := range f {
			u.off += total + len(h)
			u.end += total + len(h)
		}
		fus = append(fus, h, fb)
		total += len(h) + len(fb)
	}
	pad := 0
	if s.Bool(1, 24) {
		pad = s.N(4)
	}
	h := leb128bytes(total, pad)
	t.bytes = append([]byte(nil), h...)
	for _, b := range fus {
		t.bytes = append(t.bytes, b...)
	}
	for _, u := range t.list() {
		u.off += len(h)
		u.end += len(h)
	}
}

// withTrailing ends header bits with trailing_bits( ) plus extra zero bytes.
func withTrailing(w *bitw, extra int) []byte {
	w.put(1, 1)
	for w.n%8 != 0 {
		w.put(0, 1)
	}
	return append(append([]byte(nil), w.b...), make([]byte, extra)...)
}

func itoa(n int) string { return strconv.Itoa(n) }

func (u *unit) String() string {
	o := obuNameOf(u.typ)
	if u.ext {
		o += fmt.Sprintf(" (layer %d/%d)", u.tid, u.sid)
	}
	if u.drop {
		o += " outside the operating point"
	}
	if u.fh != nil {
		f := u.fh
		o += fmt.Sprintf(" [%s %dx%d show %d refresh %#x hint %d id %d", []string{"key", "inter", "intra-only", "switch"}[f.typ], f.upW, f.fh, f.show, f.refresh, f.hint, f.id)
		if u.why != "" {
			o += "; " + u.why
		}
		o += "]"
	}
	if u.tiles != nil && u.typ != obuFrameHdr {
		o += " [" + u.tiles.String() + "]"
	}
	return o + " " + itoa(len(u.payload)) + "B"
}

func (t *tempUnit) String() string {
	var fs []string
	for _, f := range t.frames {
		var us []string
		for _, u := range f {
			us = append(us, u.String())
		}
		fs = append(fs, strings.Join(us, ", "))
	}
	return strings.Join(fs, " | ")
}
