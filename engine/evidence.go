package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

type evidence struct {
	o        *options
	notes    map[string]int
	harn     []map[string]interface{}
	states   int64
	trans    int64
	asserts  int64
	queries  int
	unknown  int
	solver   time.Duration
	paths    int
	valid    int
	mismatch int
	samples  []interface{}
	enc      map[string]int
	stubs    map[string]int
	viols    []string
	knowns   []string
	reduced  []string
}

func newEvidence(o *options) *evidence {
	return &evidence{o: o, notes: map[string]int{}, enc: map[string]int{}, stubs: map[string]int{}}
}

func (e *evidence) note(s string) { e.notes[s]++ }

func (e *evidence) add(h *Harness, r *Result) {
	e.states += r.Decs + int64(r.Paths)
	e.trans += r.Blocks
	e.asserts += r.Asserts
	e.queries += r.Queries
	e.unknown += r.Unknowns
	e.solver += r.SolverT
	e.paths += r.Paths
	for k, v := range r.Encoded {
		e.enc[k] += v
	}
	for k, v := range r.Stubs {
		e.stubs[k] += v
	}
	complete := r.Left == 0 && r.Kinds["limit"] == 0 && r.Kinds["unsupported"] == 0 && r.Kinds["timeout"] == 0 && r.Unknowns == 0
	m := map[string]interface{}{
		"harness": h.Name, "bound": h.Bound, "paths": r.Paths, "outcomes": r.Kinds, "unexplored": r.Left, "assertions": r.Asserts,
		"instructions": r.Steps, "queries": r.Queries, "unknown": r.Unknowns, "solver_s": r.SolverT.Seconds(), "wall_s": r.Wall.Seconds(),
		"reached": keys(r.Reached), "exhaustive_within_bound": complete,
	}
	if len(r.Msgs) > 0 {
		m["cut_paths"] = r.Msgs
	}
	if len(r.Notes) > 0 {
		m["notes"] = r.Notes
	}
	if !complete {
		e.reduced = append(e.reduced, h.Name)
	}
	e.harn = append(e.harn, m)
}

// validate replays witnesses of completed paths natively and compares the observed values.
func (e *evidence) validate(nat *Native, h *Harness, deep bool, viol func(*Witness, natRes), o *options) {
	witMu.Lock()
	ws := wits[h.Name]
	witMu.Unlock()
	for i, w := range ws {
		f := filepath.Join(nat.dir, fmt.Sprintf("w-%s-%d.json", h.Name, i))
		b, _ := json.Marshal(w.Vec)
		os.WriteFile(f, b, 0o644)
		r := nat.run(h.Name, f, deep, 0, "", 20*time.Second)
		if r.failed() && h.Opts["sched"] == "" {
			r2 := nat.run(h.Name, f, deep, 0, "", 20*time.Second)
			if r2.failed() {
				viol(w, r2)
			}
			e.mismatch++
			continue
		}
		ok := r.exit == 0 && len(r.obs) == len(w.Obs)
		if ok {
			for k := range r.obs {
				if r.obs[k] != w.Obs[k] {
					ok = false
				}
			}
		}
		if ok {
			e.valid++
			if len(e.samples) < 6 {
				e.samples = append(e.samples, map[string]interface{}{"harness": h.Name, "inputs": w.Vec, "observed": w.Obs})
			}
		} else if h.Opts["sched"] == "" {
			e.mismatch++
			e.note("witness of " + h.Name + " differs natively")
			if o.verbose {
				fmt.Printf("  MISMATCH %s exit %d native %v predicted %v vec %s\n", h.Name, r.exit, r.obs, w.Obs, trunc(string(b), 400))
			}
		}
	}
}

func (e *evidence) viol(f *finding)  { e.viols = append(e.viols, f.v.Key) }
func (e *evidence) known(f *finding) { e.knowns = append(e.knowns, f.v.Key) }

func (e *evidence) line() string {
	return fmt.Sprintf("%d paths, %d assertions, %d solver queries, %.1f s solver, %d witnesses validated, reduced bound: %d", e.paths, e.asserts, e.queries, e.solver.Seconds(), e.valid, len(e.reduced))
}

func (e *evidence) write(o *options, rc int, wall time.Duration) {
	if o.prop == "" {
		return
	}
	var enc []string
	for k := range e.enc {
		enc = append(enc, k)
	}
	sort.Strings(enc)
	var stubs []string
	for k := range e.stubs {
		if !strings.HasPrefix(k, svPath) {
			stubs = append(stubs, k)
		}
	}
	sort.Strings(stubs)
	if len(e.samples) == 0 {
		e.samples = append(e.samples, map[string]interface{}{"note": "no witness replayed on this run"})
	}
	m := map[string]interface{}{
		"property": o.prop, "tier": o.tier, "seed": o.seed, "level": "model_checking", "wall_s": wall.Seconds(),
		"coverage": map[string]interface{}{
			"states": e.states, "transitions": e.trans, "traces_validated_against_impl": e.valid, "samples": e.samples,
			"paths": e.paths, "assertions_checked": e.asserts, "solver_queries": e.queries, "solver_unknown": e.unknown, "solver_s": e.solver.Seconds(),
			"functions_encoded": enc, "stubbed_functions": stubs, "harnesses": e.harn, "witness_mismatches": e.mismatch,
			"reduced_bound": e.reduced, "notes": e.notes, "violations": e.viols, "known_findings": e.knowns,
			"meaning": "states = symbolic branching points and paths; transitions = SSA basic blocks executed symbolically",
		},
	}
	b, _ := json.MarshalIndent(m, "", " ")
	os.MkdirAll(filepath.Join(o.verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(o.verif, "evidence", o.prop+".json"), b, 0o644)
}

// extraOverlay returns generated overlay files for harness packages that need access to unexported parts.
func extraOverlay(o *options, pkg string) (map[string][]byte, error) {
	g := shims[pkg]
	if g == nil {
		return nil, nil
	}
	return g(o.repo)
}

var shims = map[string]func(repo string) (map[string][]byte, error){}
