package main

func blockHist(s *Src) *histCfg {
	cfg := cleanHist()
	cfg.seq.tiny = true
	cfg.seq.color = s.Bool(2, 3)
	cfg.frame.decodable = true
	cfg.frame.segments = true
	cfg.blocks = true
	cfg.split = true
	cfg.lost = [2]int{1, 16}
	cfg.noise = [2]int{1, 16}
	cfg.outside = [2]int{1, 16}
	cfg.maxTU = 8
	if s.Bool(1, 2) {
		cfg.habits = habits{s.N(5), s.N(14), s.N(3), s.N(3), false}
	}
	return cfg
}

func runC16(s *Src, r *runInfo) *violation {
	if s.Bool(1, 32) {
		return tileRun(s, r, nil, "quant")
	}
	cfg := blockHist(s)
	switch s.N(6) {
	case 0:
		cfg.mix = [2]int{2, 3}
	case 1:
		cfg.lossy = [2]int{1, 1}
	case 2, 3:
		cfg.frame.types = []int{keyFrame, intraOnlyFrame, interFrame, interFrame, switchFrame}
	default:
		cfg.frame.types = []int{keyFrame, intraOnlyFrame}
	}
	return histRun(s, r, cfg, "tile", "block")
}

func runC20(s *Src, r *runInfo) *violation {
	cfg := blockHist(s)
	cfg.frame.plainLoop = true
	cfg.frame.segments = cfg.frame.segments || s.Bool(1, 4)
	cfg.habits.small = s.Bool(3, 4)
	switch s.N(4) {
	case 0:
		cfg.lossy = [2]int{1, 1}
	case 1:
		cfg.frame.types = []int{keyFrame, intraOnlyFrame, interFrame, interFrame, switchFrame}
	default:
		cfg.frame.types = []int{keyFrame, intraOnlyFrame}
	}
	return histRun(s, r, cfg, "pixel")
}

func init() {
	register(&property{id: "C20", run: runC20,
		rule:    "a run codes frames of one block, split at will and predicted in every intra mode, with residuals, over a transport that loses tiles or whole units, and compares every sample of each with an independent reconstruction; non-trivial if the samples of a frame were compared; distinct by everything the decoder reported",
		measure: "histories of headers",
		real:    append([]string{"symbol", "literal", "tilegroup: intra prediction, dequantization, inverse transforms, reconstruction, output; loop filters run only where they leave the samples alone"}, realAll...),
		stub:    []string{"encoder and transport (generator)", "logger (no-op)"}})
	register(&property{id: "C16", run: runC16,
		rule:    "a run codes frames of one split block, segments and coefficients included, over a transport that loses tiles or whole units, and compares every block with the encoder's; non-trivial if a tile was compared; distinct by everything the decoder reported",
		measure: "histories of headers",
		real:    append([]string{"symbol", "literal", "tilegroup: tiles, partitions, intra blocks, transform sizes and types, coefficients; prediction runs and is not judged"}, realAll...),
		stub:    []string{"encoder and transport (generator)", "logger (no-op)"}})
}
