package main

import (
	"os"
	"strings"
)

// histRun simulates one encoder, a transport and one decoder, and compares
// every temporal unit with the model. Only findings of the wanted aspects
// decide; anything else ends the run without a verdict.
func histRun(s *Src, r *runInfo, cfg *histCfg, want ...string) *violation {
	slots := false
	for _, w := range want {
		slots = slots || w == "slots"
	}
	n := 1 + s.N(cfg.maxTU)
	if s.Bool(1, 40) {
		n = 20 + s.N(60)
		r.add("long history", 1)
	}
	ses := newSession()
	var past uint64
	k := 0
	// step delivers a temporal unit; false ends the run
	step := func(h *hist, t *tempUnit) (bool, *violation) {
		var before *slotDigests
		if slots {
			before = digestSlots(ses.st)
		}
		if r.tracing {
			r.logf("temporal unit %d: %s", k, t)
		}
		ses.clear()
		ses.feed(t.bytes)
		fs := h.check(ses, t, before)
		if v := judge(r, fs, want); v != nil {
			v.msg = "in temporal unit " + itoa(k) + ", " + v.msg
			return false, v
		}
		if len(fs) > 0 {
			return false, nil
		}
		for _, u := range t.list() {
			past = mix(past, uint64(u.typ)<<8|uint64(b2i(u.drop))<<7|uint64(u.want))
			if u.drop || u.damaged || u.want != mustWork || (u.typ == obuFrame || u.typ == obuFrameHdr) && k > 0 || u.typ == obuSeq && k > 0 {
				r.weighty = true
			}
		}
		if t.lastFh != nil {
			f := t.lastFh
			past = mix(past, uint64(f.typ)<<16|uint64(f.show)<<12|uint64(f.refresh)|uint64(f.bits)<<32)
		}
		r.state(past)
		r.see(lightDigest(ses.units()))
		ses.clear()
		k++
		return ses.end == endOK, nil
	}
	if cfg.lossy[1] > 0 && s.Bool(cfg.lossy[0], cfg.lossy[1]) {
		// the encoder first, then the transport, then the decoder
		enc := newHist(s, cfg, newRunInfo())
		var sent []*tempUnit
		for i := 0; i < n && !enc.over; i++ {
			t := enc.next()
			t.stand = cfg.inject[1] > 0 && enc.inject(nil, t)
			sent = append(sent, t)
		}
		dec := newHist(s, cfg, r)
		rcv := &receiver{h: dec}
		for _, t := range faulty(s, sent, r) {
			rcv.expect(t)
			ok, v := step(dec, t)
			if v != nil || !ok || dec.over {
				return v
			}
			if t.stand && dec.m.seen && t.lastFh != nil && !t.lastFh.illegal && t.lastFh.unsupported == "" {
				dec.complete(ses, t.lastFh)
				rcv.last = nil
			}
		}
		return nil
	}
	h := newHist(s, cfg, r)
	for i := 0; i < n && !h.over; i++ {
		t := h.next()
		ok, v := step(h, t)
		if v != nil || !ok {
			return v
		}
		if cfg.script[1] > 0 {
			fs, ok := h.script(ses, t)
			if v := judge(r, fs, want); v != nil {
				v.msg = "after temporal unit " + itoa(i) + ", " + v.msg
				return v
			}
			if !ok {
				return nil
			}
		}
		if cfg.parts[1] > 0 && s.Bool(cfg.parts[0], cfg.parts[1]) && !h.someTiles(ses, t) {
			r.add("run ended without a verdict (tiles)", 1)
			return nil
		}
		if cfg.inject[1] > 0 {
			h.inject(ses, t)
		}
	}
	if h.over || len(cfg.damage) == 0 || h.m.sh == nil || !s.Bool(1, 2) {
		return nil
	}
	kind := cfg.damage[s.N(len(cfg.damage))]
	if h.m.needKey && kind != obuSeq {
		return nil
	}
	_, v := step(h, h.damagedTU(kind))
	return v
}

// strict makes every finding a violation, to debug the model.
var strict = os.Getenv("VERIF_STRICT") != ""

// judge turns findings into a verdict.
func judge(r *runInfo, fs []finding, want []string) *violation {
	for _, f := range fs {
		for _, w := range want {
			for _, a := range strings.Fields(f.aspect) {
				if a == w {
					return violatef("%s", f.msg)
				}
			}
		}
	}
	if strict && len(fs) > 0 {
		return violatef("other (%s): %s", fs[0].aspect, fs[0].msg)
	}
	for _, f := range fs {
		r.add("run ended without a verdict ("+f.aspect+")", 1)
		if r.tracing {
			r.logf("other: %s", f.msg)
		}
	}
	return nil
}
