package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"time"
)

func sumMaps(dst map[string]int64, src map[string]int64, prefix string) {
	for k, v := range src {
		dst[prefix+k] += v
	}
}

// report prints the verdict, writes the evidence file and returns the exit code.
func (c *checkRun) report(ld *Loader, res []*entryResult, wall time.Duration) int {
	replayDir := filepath.Join(verifDir, "replays", c.id)
	os.RemoveAll(replayDir)
	code := 0
	violations := 0
	knownSeen := map[string]bool{}
	for _, r := range res {
		for i, v := range r.confirmed {
			if k := c.isKnown(v); k != nil {
				if !knownSeen[k.What] {
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.id, k.What)
					knownSeen[k.What] = true
				}
				continue
			}
			os.MkdirAll(replayDir, 0o755)
			p := filepath.Join(replayDir, fmt.Sprintf("%s-%d.json", r.name, i))
			t := nativeTrace{Entry: v.Entry, Values: v.Values, Msg: v.Msg, Sched: v.Sched, Note: v.Replayed}
			j, _ := json.MarshalIndent([]nativeTrace{t}, "", " ")
			os.WriteFile(p, j, 0o644)
			violations++
			code = 1
			fmt.Printf("counterexample: %s\n  in %s; %s\n  %s\n", v.Msg, v.Entry, v.Replayed, showValues(v.Values))
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.id, p)
		}
	}
	type entryCov struct {
		Entry        string                `json:"entry"`
		Paths        int64                 `json:"paths"`
		Completed    int64                 `json:"paths_completed"`
		Infeasible   int64                 `json:"paths_infeasible"`
		Unexplored   int                   `json:"prefixes_left_unexplored"`
		TimedOut     bool                  `json:"time_budget_reached"`
		Decisions    int64                 `json:"decisions"`
		Instructions int64                 `json:"instructions_executed"`
		Queries      int64                 `json:"solver_queries"`
		Sat          int64                 `json:"sat"`
		Unsat        int64                 `json:"unsat"`
		Unknown      int64                 `json:"unknown"`
		SolverS      float64               `json:"solver_s"`
		WallS        float64               `json:"wall_s"`
		Asserts      map[string]assertStat `json:"assertions"`
		Reached      map[string]int64      `json:"reached,omitempty"`
		Unsupported  map[string]int64      `json:"paths_cut_unsupported,omitempty"`
		Limits       map[string]int64      `json:"paths_cut_by_limits,omitempty"`
		Bounds       map[string]int64      `json:"bounds_met,omitempty"`
		Internal     map[string]int64      `json:"engine_errors,omitempty"`
		TracesOK     int                   `json:"traces_validated_natively"`
		TracesBad    []string              `json:"trace_mismatches,omitempty"`
		Rejected     []string              `json:"unconfirmed_candidates,omitempty"`
		Goroutines   int                   `json:"max_goroutines"`
	}
	var ents []entryCov
	var states, trans, queries, sat, unsat, unk, checked int64
	var solver float64
	traces := 0
	exhaustive := true
	reached := map[string]bool{}
	var samples []any
	for _, r := range res {
		ex := r.ex
		e := entryCov{Entry: r.name, Paths: ex.Paths, Completed: ex.Done, Infeasible: ex.Infeas, Unexplored: ex.Left, TimedOut: ex.Timeout,
			Decisions: ex.Decisions, Instructions: ex.Steps, Queries: ex.Queries, Sat: ex.Sat, Unsat: ex.Unsat, Unknown: ex.Unknown,
			SolverS: ex.SolverTime.Seconds(), WallS: r.wall.Seconds(), Asserts: map[string]assertStat{}, Reached: ex.Reached,
			Unsupported: ex.Unsup, Limits: ex.Limits, Bounds: ex.Bounds, Internal: ex.Internal, TracesOK: r.traceOK, TracesBad: r.traceBad, Rejected: r.rejected, Goroutines: ex.Goroutines}
		for k, a := range ex.Asserts {
			e.Asserts[k] = *a
			checked += a.Checked
		}
		ents = append(ents, e)
		states += ex.Paths
		trans += ex.Decisions
		queries += ex.Queries
		sat += ex.Sat
		unsat += ex.Unsat
		unk += ex.Unknown
		solver += ex.SolverTime.Seconds()
		traces += r.traceOK
		if ex.Left > 0 || ex.Timeout || len(ex.Unsup)+len(ex.Limits)+len(ex.Internal) > 0 || ex.Unknown > 0 {
			exhaustive = false
		}
		for k := range ex.Reached {
			reached[k] = true
		}
		for i, t := range ex.Traces {
			if i >= 2 || len(samples) >= 12 {
				break
			}
			obs := t.Obs
			if len(obs) > 6 {
				obs = obs[:6]
			}
			var o []string
			for _, s := range obs {
				o = append(o, trunc(s))
			}
			samples = append(samples, map[string]any{"entry": r.name, "inputs": showValues(t.Values), "predicted_and_reproduced": o})
		}
	}
	if len(samples) == 0 {
		for _, r := range res {
			for k, v := range r.ex.Reached {
				samples = append(samples, fmt.Sprintf("%s reached %q on %d symbolic paths", r.name, k, v))
			}
		}
		if len(samples) == 0 {
			samples = append(samples, "no completed symbolic path")
		}
	}
	var missing []string
	for _, q := range c.spec.Require {
		if !reached[q] {
			missing = append(missing, q)
		}
	}
	ld.fmu.Lock()
	var fns []string
	for f := range ld.funcs {
		fns = append(fns, f)
	}
	ld.fmu.Unlock()
	sort.Strings(fns)
	cov := map[string]any{
		"states":                        states,
		"transitions":                   trans,
		"traces_validated_against_impl": traces,
		"samples":                       samples,
		"exhaustive":                    exhaustive,
		"assertion_instances_decided":   checked,
		"solver_queries":                queries,
		"solver_sat":                    sat,
		"solver_unsat":                  unsat,
		"solver_unknown":                unk,
		"solver_time_s":                 solver,
		"functions_encoded":             fns,
		"stated_bounds":                 c.spec.Bounds,
		"entries":                       ents,
		"vacuity_points_not_reached":    missing,
		"solver":                        "z3-new (Z3 5.3.2)",
		"rule":                          "states = symbolic paths of the harness over the real code (each a set of inputs/schedules described by its path condition); transitions = recorded symbolic decisions (branches, concretisations, scheduling choices)",
		"known_findings_still_observed": len(knownSeen),
	}
	ev := map[string]any{
		"property": c.id, "tier": c.tier, "seed": c.seed, "level": "model_checking",
		"coverage": cov, "assumptions": append([]string{}, c.spec.Assumptions...),
		"wall_s": wall.Seconds(), "violations": violations,
	}
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	j, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verifDir, "evidence", c.id+".json"), j, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s: %d symbolic paths, %d assertion instances, %d queries (%d unsat, %d sat, %d unknown), %.1fs solver, %d traces reproduced natively, exhaustive within bounds: %v, %.1fs\n",
		c.id, states, checked, queries, unsat, sat, unk, solver, traces, exhaustive, wall.Seconds())
	if len(missing) > 0 {
		fmt.Printf("note: points not reached in this run: %v\n", missing)
	}
	return code
}
