package main

func runC08(s *Src, r *runInfo) *violation {
	if s.Bool(1, 6) {
		cfg := cleanHist()
		cfg.seq.tiny = true
		cfg.frame.decodable = true
		cfg.split = true
		cfg.lost = [2]int{1, 8}
		return histRun(s, r, cfg, "tile")
	}
	return tileRun(s, r, nil, "entropy")
}

func init() {
	register(&property{id: "C08", run: runC08,
		rule:    "a run codes the tiles of up to four frames with an independent arithmetic coder (or takes arbitrary bytes and an independent decoder) and has gov1 read them in lockstep; non-trivial if a frame has several tile groups; distinct by frame layouts and states of the coder",
		measure: "alphabet size, symbol, adaptation counter, first probability",
		real:    append([]string{"symbol", "literal", "tilegroup: tile group syntax, initSymbol, exitSymbol, frameEndUpdateCdf"}, realAll...),
		stub:    []string{"decodeTile (scripted reads), in five runs of six", "encoder and transport (generator)", "logger (no-op)"}})
}
