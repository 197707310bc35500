package main

import "fmt"

// C10 and C11: decoders that share nothing but the process.

// makeJob generates the work of one decoder.
func makeJob(s *Src, r *runInfo, kind int) *job {
	j := &job{Limit: memLimit}
	cfg := cleanHist()
	if kind < 0 {
		kind = s.N(8)
	}
	switch {
	case kind < 5: // frames decoded to the end
		cfg.seq.tiny = true
		cfg.frame.decodable = true
		cfg.split = true
		cfg.maxTU = 3
		cfg.lost = [2]int{1, 8}
		cfg.blocks = s.Bool(1, 2)
		cfg.frame.segments = cfg.blocks
	case kind == 5:
		cfg.seq.tiny = true
		cfg.mix = [2]int{1, 2}
		cfg.maxTU = 3
	case kind == 6: // headers
		cfg.frame.oddities = true
		cfg.maxTU = 4
	case kind == 7: // headers of frames too large to decode, with content
		cfg.maxTU = 3
		cfg.lost = [2]int{1, 1}
	}
	h := newHist(s, cfg, newRunInfo())
	for i, n := 0, 1+s.N(cfg.maxTU); i < n && !h.over; i++ {
		j.Chunks = append(j.Chunks, h.next().bytes)
		op := 0
		if s.Bool(1, 6) {
			op = 1 + s.N(16)
		}
		j.Ops = append(j.Ops, op)
	}
	if s.Bool(1, 4) { // damaged on the way
		c := s.N(len(j.Chunks))
		j.Chunks[c] = damage(s, j.Chunks[c], 8*len(j.Chunks[c]))
		r.add("fault: damaged stream", 1)
	}
	if kind == 7 && s.Bool(1, 2) { // the tile decoder meets a frame it cannot do
		n := 1 + s.N(40)
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(s.N(256))
		}
		u := &unit{typ: obuTileGroup, payload: b}
		g := &tempUnit{frames: [][]*unit{{u}}}
		g.pack(s)
		j.Chunks = append(j.Chunks, g.bytes)
	}
	if s.Bool(1, 4) { // all in one piece
		var all []byte
		for _, c := range j.Chunks {
			all = append(all, c...)
		}
		j.Chunks, j.Ops = [][]byte{all}, nil
		if len(all) > 0 {
			j.Ops = []int{0}
		}
	}
	return j
}

func nJobs(s *Src, r *runInfo, n int) (jobs []*job, ref []*jobResult) {
	kind := -1
	if s.Bool(1, 2) { // similar streams
		kind = 4 + s.N(4)
	}
	for i := 0; i < n; i++ {
		switch {
		case i > 0 && s.Bool(1, 4):
			jobs = append(jobs, jobs[s.N(i)]) // the same stream again
		case i > 0 && s.Bool(1, 6): // the same but for some damage
			j := *jobs[s.N(i)]
			j.Chunks = append([][]byte(nil), j.Chunks...)
			c := s.N(len(j.Chunks))
			j.Chunks[c] = damage(s, j.Chunks[c], 8*len(j.Chunks[c]))
			jobs = append(jobs, &j)
			r.add("fault: damaged stream", 1)
		default:
			jobs = append(jobs, makeJob(s, r, kind))
		}
		ref = append(ref, solo(jobs[i]))
		if ref[i].End == int(endCrash) {
			r.add("decoder cannot run even alone: "+ref[i].Msg, 1)
			return nil, nil
		}
		r.see(ref[i].State, uint64(ref[i].End))
		for _, u := range ref[i].Units {
			r.see(u)
		}
		if len(ref[i].Hot) > 0 {
			r.add("decodes that change variables of the process", 1)
		}
		r.add("decode alone in a process of its own: "+ending(ref[i].End).String(), 1)
	}
	return
}

// youngProcess starts most executions as in a process that has decoded
// nothing yet.
func youngProcess(s *Src, r *runInfo) {
	if s.Bool(3, 4) {
		freshGlobals(true)
		r.add("executions in a process that has decoded nothing before", 1)
	}
}

func runC10(s *Src, r *runInfo) *violation {
	jobs, ref := nJobs(s, r, 2+s.N(3))
	if jobs == nil {
		return nil
	}
	for k := 2 + s.N(7); k > 0; k-- {
		youngProcess(s, r)
		var as []*actor
		for i, j := range jobs {
			as = append(as, &actor{job: j, name: "decoder " + itoa(i), after: -1, cold: ref[i].Cold, hot: ref[i].Hot})
			if s.Bool(1, 6) {
				as[i].after = s.N(i + 1)
			}
		}
		n := play(s, r, as)
		r.add("switches between decoders", n)
		r.add("interleaved executions", 1)
		r.weighty = r.weighty || n > int64(len(as))
		for i, a := range as {
			r.compared++
			if d := a.res.diff(ref[i]); d != "" {
				return violatef("decoder %d of %d, interleaved with the others: %s", i, len(as), d)
			}
		}
	}
	return nil
}

func runC11(s *Src, r *runInfo) *violation {
	jobs, ref := nJobs(s, r, 2+s.N(3))
	if jobs == nil {
		return nil
	}
	for k := 2 + s.N(7); k > 0; k-- {
		youngProcess(s, r)
		if s.Bool(1, 8) { // one decode after another, each abandoned
			for n := 8 + s.N(40); n > 0; n-- {
				v := s.N(len(jobs))
				l := ref[v].Cold
				if len(ref[v].Hot) > 0 && s.Bool(1, 2) {
					l = ref[v].Hot
				}
				at := 1 + int64(s.N(int(ref[v].Steps)+1))
				if len(l) > 0 && s.Bool(1, 2) {
					at = l[s.N(len(l))] + int64(s.N(3)/2)
				}
				play(s, newRunInfo(), []*actor{{job: jobs[v], name: "decoder " + itoa(v), after: -1, killAt: at}})
				r.logf("decoder %d killed at step %d", v, at)
				r.add("fault: decode killed", 1)
			}
			r.add("executions after many abandoned decodes", 1)
		}
		var as []*actor
		gone := map[int]string{}
		for i, j := range jobs {
			as = append(as, &actor{job: j, name: "decoder " + itoa(i), after: -1, cold: ref[i].Cold, hot: ref[i].Hot})
		}
		// the victims
		for n := 1 + s.N(2); n > 0; n-- {
			v := s.N(len(as) - 1)
			a := as[v]
			if gone[v] != "" {
				continue
			}
			at := 1 + int64(s.N(int(ref[v].Steps)+1))
			if c := ref[v].Cold; len(c) > 0 && s.Bool(1, 2) { // at a statement it never ran before
				at = c[s.N(len(c))] + int64(s.N(3)/2)
				r.add("fault placed at a statement run for the first time", 1)
				if h := ref[v].Hot; len(h) > 0 {
					at = h[s.N(len(h))] + int64(s.N(3)/2)
				}
			}
			switch s.N(4) {
			case 0:
				a.stall = at
				gone[v] = fmt.Sprintf("stopped at step %d and never resumed", at)
				r.add("fault: decode stopped for ever", 1)
			case 1:
				c := *a.job
				c.Limit = int64(s.N(1 << uint(4+s.N(16))))
				a.job = &c
				gone[v] = fmt.Sprintf("given a memory of %d elements", c.Limit)
				r.add("fault: memory exhausted", 1)
			default:
				a.killAt = at
				gone[v] = fmt.Sprintf("killed at step %d", at)
				r.add("fault: decode killed", 1)
			}
			a.name += " (" + gone[v] + ")"
			// started afterwards, or already in progress
			for i := v + 1; i < len(as); i++ {
				if s.Bool(1, 2) {
					as[i].after = v
				}
			}
		}
		n := play(s, r, as)
		r.add("switches between decoders", n)
		r.weighty = true
		for i, a := range as {
			if gone[i] != "" {
				r.state(1, uint64(a.steps), ref[i].State)
				continue
			}
			r.compared++
			if d := a.res.diff(ref[i]); d != "" {
				when := "in progress"
				if a.after >= 0 {
					when = "started after decoder " + itoa(a.after) + " was abandoned"
				}
				return violatef("decoder %d of %d, %s while others are abandoned: %s", i, len(as), when, d)
			}
		}
	}
	return nil
}

func init() {
	stub := []string{"encoder and transport (generator)", "goroutine scheduling (one baton, handed on at statement boundaries)", "memory size (limit on allocations)", "logger (no-op)"}
	register(&property{id: "C10", run: runC10,
		rule:    "a run generates two to four streams, decodes each alone in a fresh process, then all of them interleaved statement by statement in one process, up to eight times; non-trivial if the decoders took turns; distinct by all results and the interleavings",
		measure: "prefixes of the interleavings (who runs up to which step)",
		real:    realTiles, stub: stub})
	register(&property{id: "C11", run: runC11,
		rule:    "as C10, with one or two decoders killed at a statement, stopped for ever or out of memory at an allocation; the others are compared with decoding alone in a fresh process; every run with an abandoned decode is non-trivial",
		measure: "prefixes of the interleavings, with the steps at which decodes were abandoned",
		real:    realTiles, stub: stub})
}
