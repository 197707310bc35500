package main

func stdHist() *histCfg {
	return &histCfg{
		seq:     seqCfg{small: true},
		frame:   frameCfg{types: []int{0, 1, 2, 3}, maxMi: 4096, oddities: true},
		maxTU:   8,
		newSeq:  [2]int{1, 4},
		noise:   [2]int{1, 6},
		outside: [2]int{1, 4},
		lost:    [2]int{1, 4},
	}
}

// Sequence headers as sent, and in force until the next one.
func runC05(s *Src, r *runInfo) *violation {
	cfg := stdHist()
	cfg.damage = []int{obuSeq}
	switch s.N(4) {
	case 0: // many sequence headers, of any kind, nothing else
		cfg.noFrames = true
		cfg.seq.small = false
		cfg.newSeq = [2]int{3, 4}
	case 1: // frames decoded to the end in between
		cfg.seq.tiny = true
		cfg.mix = [2]int{2, 3}
		cfg.newSeq = [2]int{1, 2}
		cfg.split = true
	case 2:
		cfg.newSeq = [2]int{1, 2}
		cfg.inject = [2]int{1, 2}
	}
	cfg.lossy = [2]int{1, 4}
	return histRun(s, r, cfg, "seq")
}

// wrapped makes frames of any type that gov1 completes, given their tile.
func (cfg *histCfg) wrapped(s *Src) {
	cfg.seq.tiny = false
	cfg.seq.upTo8 = true
	cfg.frame.decodable = false
	cfg.frame.wrappable = true
	if s.Bool(2, 3) {
		cfg.frame.types = []int{keyFrame, interFrame, interFrame, interFrame, interFrame, interFrame, intraOnlyFrame, switchFrame}
	}
	cfg.frame.oddities = s.Bool(1, 4)
	cfg.newSeq = [2]int{1, 10}
	cfg.script = [2]int{7, 8}
	cfg.wide = 1
	cfg.inject = [2]int{1, 2}
}

// Frame headers as sent, given the history.
func runC06(s *Src, r *runInfo) *violation {
	cfg := stdHist()
	cfg.damage = []int{obuFrameHdr}
	cfg.inject = [2]int{2, 3}
	switch s.N(5) {
	case 0:
		cfg.seq.tiny = true
		cfg.mix = [2]int{2, 3}
		cfg.split = true
		cfg.inject = [2]int{1, 3}
	case 3:
		cfg.wrapped(s)
		cfg.maxTU = 12
	case 1:
		cfg.maxTU = 14
		cfg.newSeq = [2]int{1, 10}
		cfg.frame.types = []int{keyFrame, interFrame, interFrame, interFrame, interFrame, interFrame, intraOnlyFrame, switchFrame}
		cfg.frame.oddities = false
		cfg.noise = [2]int{1, 20}
	case 2:
		cfg.frame.maxMi = 1 << 16
		cfg.frame.manyTiles = s.Bool(1, 2)
		cfg.maxTU = 5
		if cfg.frame.manyTiles {
			cfg.noLayers = true
			cfg.parts = [2]int{1, 2}
		}
	}
	cfg.lossy = [2]int{1, 4}
	return histRun(s, r, cfg, "frame")
}

// Reference slots change as the refresh flags say.
func runC13(s *Src, r *runInfo) *violation {
	cfg := stdHist()
	cfg.seq.tiny = true
	cfg.frame.decodable = true
	cfg.split = true
	cfg.maxTU = 10
	switch s.N(5) {
	case 0:
		cfg.frame.oddities = false
		cfg.newSeq = [2]int{1, 12}
		cfg.lost = [2]int{1, 8}
	case 1:
		cfg.mix = [2]int{1, 2}
		cfg.frame.decodable = false
		cfg.inject = [2]int{1, 2}
	case 2, 3:
		cfg.wrapped(s)
	case 4:
		cfg.blocks = s.Bool(3, 4)
		cfg.frame.segments = cfg.blocks
	}
	cfg.damage = []int{obuFrameHdr, obuSeq}
	cfg.lossy = [2]int{1, 4}
	return histRun(s, r, cfg, "slots")
}

var realAll = []string{"bitstream", "header", "sequenceheader", "uncompressedheader", "tileinfo", "obu", "parser", "state"}
var realTiles = append(append([]string(nil), realAll...), "tilegroup (intra blocks of frames up to 8x8)", "symbol", "literal")

func init() {
	const rule = "a run generates a coded video sequence and its transport from one seed; non-trivial if a header arrives after the first temporal unit, or a unit is dropped, damaged or unsupported; distinct by everything the decoder reported"
	const measure = "distinct histories of unit types, frame types, refresh flags and header lengths"
	stub := []string{"encoder and transport (generator)", "memory size (limit on allocations)", "logger (no-op)"}
	register(&property{id: "C05", run: runC05, rule: rule, measure: measure, real: realTiles, stub: stub})
	register(&property{id: "C06", run: runC06, rule: rule, measure: measure, real: realTiles, stub: append(stub, "tile decoding of frames gov1 cannot decode (reference update written by the simulator)")})
	register(&property{id: "C13", run: runC13, rule: rule, measure: measure, real: realTiles, stub: append(stub, "tile decoding of frames gov1 cannot decode, in some runs (reference update written by the simulator)")})
}
