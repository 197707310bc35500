package main

import (
	"time"
)

func evidence(p *property, tier string, seed uint64, w int, t *workerResult, distinct, states int, missing []string, d time.Duration, faults, probes map[string]int64) map[string]any {
	per := func(n int64) int64 {
		if d <= 0 {
			return 0
		}
		return int64(float64(n) / d.Hours())
	}
	cov := map[string]any{
		"evaluations":                  t.Runs,
		"distinct_nontrivial":          distinct,
		"rule":                         p.rule,
		"samples":                      t.Samples,
		"seeds_per_hour":               per(t.Runs),
		"distinct_states":              states,
		"distinct_states_measure":      p.measure,
		"worker_processes":             w,
		"simulated_time_steps":         t.Steps,
		"simulated_steps_per_hour":     per(t.Steps),
		"comparisons_with_the_model":   t.Compared,
		"faults_injected":              faults,
		"reached":                      probes,
		"components_running_real_code": p.real,
		"components_simulated":         p.stub,
		"repeated_runs":                t.Repeats,
		"repeated_runs_that_differed":  t.Unstable,
		"fields_not_found":             missing,
	}
	return map[string]any{
		"property":   p.id,
		"tier":       tier,
		"seed":       seed,
		"level":      "exploration",
		"coverage":   cov,
		"wall_s":     d.Seconds(),
		"violations": 0,
	}
}
