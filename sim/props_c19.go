package main

import (
	"strings"
)

// C19: what the transport may lose or repeat without a trace. A temporal unit
// whose frames are kept in no slot can get lost, and one whose frames are all
// intra frames can come twice.

// spare says whether a temporal unit leaves nothing that a later one uses.
func spare(t *tempUnit) bool {
	frames := 0
	for _, u := range t.list() {
		if u.drop {
			continue
		}
		if u.typ == obuSeq {
			return false
		}
		if u.fh != nil {
			frames++
			if u.fh.refresh != 0 {
				return false
			}
		}
	}
	return frames > 0
}

// allIntra says whether a temporal unit holds intra frames alone, all of them
// under the sequence header that is in force after it.
func allIntra(t *tempUnit) bool {
	frames := 0
	for i, u := range t.list() {
		if !u.drop && u.typ == obuSeq && i > 1 {
			return false
		}
		if !u.drop && u.fh != nil {
			frames++
			if !u.fh.intra {
				return false
			}
		}
	}
	return frames > 0
}

func runC19(s *Src, r *runInfo) *violation {
	cfg := cleanHist()
	cfg.maxTU = 10
	switch s.N(3) {
	case 0:
		cfg = blockHist(s)
		if s.Bool(1, 2) {
			cfg.mix = [2]int{2, 3}
		}
	case 1:
		cfg.seq.tiny = true
		cfg.mix = [2]int{1, 2}
		cfg.script = [2]int{3, 4}
		cfg.frame.wrappable = true
		cfg.wide = 2
	}
	cfg.frame.unkept = true
	cfg.newSeq = [2]int{1, 12}
	h := newHist(s, cfg, r)
	full, thin := newSession(), newOwnSession()
	n := 2 + s.N(cfg.maxTU)
	lost := 0
	for i := 0; i < n && !h.over; i++ {
		t := h.next()
		if t.end != mustWork {
			break
		}
		full.clear()
		thin.clear()
		if i > 0 && spare(t) && !s.Bool(1, 4) {
			r.logf("temporal unit %d, lost for one decoder: %s", i, t)
			full.feed(t.bytes)
			if full.end != endOK {
				r.add("run ended without a verdict", 1)
				return nil
			}
			if cfg.script[1] > 0 {
				if _, ok := h.script(full, t); !ok {
					return nil
				}
			}
			lost++
			r.add("fault: temporal unit lost", 1)
			if s.Bool(1, 4) {
				paint(s, full)
			}
			continue
		}
		again := allIntra(t) && s.Bool(1, 6)
		r.logf("temporal unit %d: %s", i, t)
		thin.feed(t.bytes)
		full.feed(t.bytes)
		if again && full.end == endOK {
			full.clear()
			full.feed(t.bytes)
			lost++
			r.add("fault: temporal unit repeated", 1)
			r.logf("... which one decoder receives twice")
		}
		if lost == 0 {
			if full.end != endOK {
				r.add("run ended without a verdict", 1)
				return nil
			}
			continue
		}
		if d := h.sameAsFresh(full, thin, t, i, "RefValid"); d != "" {
			what := "after frames that no slot keeps"
			if again {
				what = "received twice"
			}
			return violatef("temporal unit %d %s: %s", i, what, strings.ReplaceAll(d, "{it}", "a decoder that did not receive that"))
		}
		r.state(uint64(i), uint64(lost), uint64(len(t.list())), uint64(b2i(again)))
		r.see(lightDigest(thin.units()))
		if thin.end != endOK {
			r.add("run ended without a verdict", 1)
			if strict {
				return violatef("failure: %s", thin.msg)
			}
			return nil
		}
		r.weighty = true
	}
	full.clear()
	thin.clear()
	return nil
}

func init() {
	register(&property{id: "C19", run: runC19,
		rule:    "a run gives two decoders the same stream, but one of them misses temporal units whose frames no slot keeps or receives intra temporal units once that the other receives twice; non-trivial if a temporal unit was compared after such a difference; distinct by everything the decoders reported",
		measure: "position, differences so far, units, repetition",
		real:    realTiles, stub: []string{"encoder and transport (generator)", "content of some tiles and samples of frames that one decoder misses (script)", "logger (no-op)"}})
}
