package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

type options struct {
	verif, repo string
	prop, only  string
	tier        string
	seed        int
	workers     int
	budget      int
	nonative    bool
	first       bool
	verbose     bool
}

func main() {
	debug.SetMaxStack(4 << 30)
	debug.SetGCPercent(200)
	var o options
	flag.StringVar(&o.verif, "verif", "/verif", "")
	flag.StringVar(&o.repo, "repo", "/repo", "")
	flag.StringVar(&o.prop, "prop", "", "property to check")
	flag.StringVar(&o.only, "only", "", "only harnesses whose name contains this")
	flag.StringVar(&o.tier, "tier", "", "quick or thorough")
	flag.IntVar(&o.workers, "workers", 0, "")
	flag.IntVar(&o.budget, "budget", 0, "seconds per property")
	flag.BoolVar(&o.nonative, "nonative", false, "skip native replay")
	flag.BoolVar(&o.first, "first", false, "stop at the first candidate (implies -nonative)")
	flag.BoolVar(&o.verbose, "v", false, "")
	flag.Parse()
	if o.tier == "" {
		o.tier = os.Getenv("VERIF_TIER")
	}
	if o.tier != "thorough" {
		o.tier = "quick"
	}
	o.seed, _ = strconv.Atoi(os.Getenv("VERIF_SEED"))
	if o.workers == 0 {
		o.workers = runtime.NumCPU()
		if o.workers > 8 {
			o.workers = 8
		}
	}
	if o.budget == 0 {
		o.budget = 240
		if o.tier == "thorough" {
			o.budget = 1800
		}
	}
	os.Exit(check(&o))
}

type known struct {
	prop, key, desc string
}

func loadKnown(verif string) []known {
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.txt"))
	if err != nil {
		return nil
	}
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		f := strings.SplitN(l[len("known: "):], " ", 3)
		if len(f) < 2 {
			continue
		}
		k := known{prop: strings.TrimPrefix(f[0], "property="), key: strings.TrimPrefix(f[1], "key=")}
		if len(f) > 2 {
			k.desc = f[2]
		}
		out = append(out, k)
	}
	return out
}

func optInt(h *Harness, k string, def int) int {
	if v, ok := h.Opts[k]; ok {
		if n, err := strconv.Atoi(v); err == nil {
			return n
		}
	}
	return def
}

type finding struct {
	v      *Violation
	repro  bool
	how    string
	replay string
}

func check(o *options) int {
	t0 := time.Now()
	dirs, err := os.ReadDir(filepath.Join(o.verif, "harness"))
	if err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	byPkg := map[string][]*Harness{}
	all := map[string][]*Harness{}
	var pkgs []string
	for _, d := range dirs {
		if !d.IsDir() || d.Name() == "sv" {
			continue
		}
		hs, err := parseHarness(o.verif, d.Name())
		if err != nil {
			fmt.Println("ERROR", err)
			return 2
		}
		all[d.Name()] = hs
		for _, h := range hs {
			if o.prop != "" && h.Prop != o.prop {
				continue
			}
			if o.only != "" && !strings.Contains(h.Name, o.only) {
				continue
			}
			if h.Opts["tier"] == "thorough" && o.tier != "thorough" {
				continue
			}
			if len(byPkg[d.Name()]) == 0 {
				pkgs = append(pkgs, d.Name())
			}
			byPkg[d.Name()] = append(byPkg[d.Name()], h)
		}
	}
	if len(pkgs) == 0 {
		fmt.Println("ERROR no harness for", o.prop)
		return 2
	}
	kn := loadKnown(o.verif)
	deep := o.tier == "thorough"
	ev := newEvidence(o)
	var finds []*finding
	rdir := filepath.Join(o.verif, "evidence", "replay", o.prop)
	if o.prop == "" {
		rdir = filepath.Join(o.verif, "evidence", "replay", "dev")
	}
	os.RemoveAll(rdir)
	os.MkdirAll(rdir, 0o755)
	vacuous := 0
	for _, pkg := range pkgs {
		extra, err := extraOverlay(o, pkg)
		if err != nil {
			fmt.Println("NOTE overlay:", err)
		}
		type natp struct{ n *Native }
		natc := make(chan *Native, 1)
		if !o.nonative && !o.first {
			go func() { natc <- buildNative(o.verif, o.repo, pkg, all[pkg], extra, false, nil) }()
		}
		tl := time.Now()
		P, err := Load(o.verif, o.repo, pkg, extra)
		if err != nil {
			fmt.Println("ERROR load failed:", err)
			if !o.nonative && !o.first {
				(<-natc).cleanup()
			}
			return 2
		}
		if o.verbose {
			fmt.Printf("loaded %s in %.1fs\n", pkg, time.Since(tl).Seconds())
		}
		var results []*Result
		hp := P.pkgs[modPath+"/internal/zzverif/"+pkg]
		for _, h := range byPkg[pkg] {
			h.Fn = hp.Func(h.Func)
			cfg := &RunCfg{Harness: h.Name, MaxDec: optInt(h, "dec", 4000), MaxSteps: optInt(h, "steps", 3000000), MaxConc: optInt(h, "conc", 300), MaxCmp: optInt(h, "cmp", 80),
				MaxDepth: optInt(h, "depth", 400), MaxG: optInt(h, "g", 12), MaxPreempt: optInt(h, "preempt", 2), MaxSpin: 50, MaxMapOrder: optInt(h, "maporder", 3),
				QueryMs: optInt(h, "query", 10000), MaxPaths: optInt(h, "paths", 200000), Workers: o.workers, Deep: deep}
			tb := optInt(h, "time", 60)
			if deep {
				tb = optInt(h, "dtime", 600)
				cfg.MaxPreempt = optInt(h, "dpreempt", cfg.MaxPreempt)
			}
			left := time.Duration(o.budget)*time.Second - time.Since(t0)
			if d := time.Duration(tb) * time.Second; d < left {
				left = d
			}
			cfg.Deadline = time.Now().Add(left)
			cfg.First = o.first
			r := Explore(P, h, cfg)
			if o.first && len(r.Viols) > 0 {
				fmt.Println("CANDIDATE", r.Viols[0].Key)
				return 1
			}
			results = append(results, r)
			if o.verbose {
				printResult(r)
			}
			// vacuity
			if len(r.Viols) == 0 && len(r.Reached) == 0 {
				vacuous++
				ev.note("vacuous: " + h.Name + " reached no witness")
				fmt.Println("NOTE vacuous harness", h.Name)
			}
		}
		var nat *Native
		if !o.nonative && !o.first {
			nat = <-natc
			if nat.err != nil {
				fmt.Println("NOTE", nat.err)
				ev.note("native build failed")
			}
		}
		jits := map[bool]*Native{}
		confirmed := map[string]int{}
		confirmT := 0.0
		for i, r := range results {
			h := byPkg[pkg][i]
			ev.add(h, r)
			for vi, v := range r.Viols {
				f := &finding{v: v}
				f.replay = filepath.Join(rdir, fmt.Sprintf("%s-%d.json", h.Name, vi))
				writeReplay(f, pkg, h, o)
				finds = append(finds, f)
				if nat != nil && nat.err == nil {
					confirm(func(race bool) *Native {
						if jits[race] == nil {
							jits[race] = buildNative(o.verif, o.repo, pkg, all[pkg], extra, race, P)
							if jits[race].err != nil {
								fmt.Println("NOTE", jits[race].err)
							}
						}
						return jits[race]
					}, nat, h, f, deep, confirmed, &confirmT)
				}
				if o.verbose || os.Getenv("SV_SHOW") != "" {
					fmt.Printf("  candidate %s [%s] %s at %s: %s; reproduced=%v %s\n", v.Key, v.Kind, v.Label, v.Where, v.Detail, f.repro, f.how)
				}
				writeReplay(f, pkg, h, o)
			}
			if nat != nil && nat.err == nil {
				ev.validate(nat, h, deep, func(w *Witness, res natRes) {
					v := &Violation{Kind: "native", Label: res.label, Key: h.Name + "/native:" + res.label, Vec: w.Vec, Harness: h.Name, Detail: res.summary()}
					f := &finding{v: v, repro: true, how: res.summary()}
					f.replay = filepath.Join(rdir, fmt.Sprintf("%s-native.json", h.Name))
					finds = append(finds, f)
					writeReplay(f, pkg, h, o)
				}, o)
			}
		}
		nat.cleanup()
		jits[false].cleanup()
		jits[true].cleanup()
	}
	// verdict
	rc := 0
	printed := map[string]bool{}
	for _, f := range finds {
		if !f.repro {
			ev.note("not reproduced natively, not reported: " + f.v.Key)
			if o.verbose {
				fmt.Println("NOTE not reproduced:", f.v.Key, f.v.Detail)
			}
			continue
		}
		if k := matchKnown(kn, o.prop, f.v.Key); k != nil {
			if !printed[k.key] {
				printed[k.key] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", o.prop, k.desc, k.key)
			}
			ev.known(f)
			continue
		}
		rc = 1
		if !printed[f.v.Key] {
			printed[f.v.Key] = true
			fmt.Printf("%s: %s at %s\n  %s\n", f.v.Key, f.v.Detail, f.v.Where, f.how)
			fmt.Printf("VIOLATION property=%s replay=%s\n", o.prop, f.replay)
		}
		ev.viol(f)
	}
	_ = vacuous
	ev.write(o, rc, time.Since(t0))
	if rc == 0 {
		fmt.Printf("property %s held on everything explored (%s)\n", o.prop, ev.line())
	}
	return rc
}

func matchKnown(kn []known, prop, key string) *known {
	for i := range kn {
		if kn[i].prop == prop && kn[i].key == key {
			return &kn[i]
		}
	}
	return nil
}

// confirm replays a candidate natively.
func confirm(jit func(race bool) *Native, nat *Native, h *Harness, f *finding, deep bool, confirmed map[string]int, spent *float64) {
	if confirmed[f.v.Key] > 0 && (f.v.Threads > 1 || h.Opts["tries"] != "") {
		f.how = "another schedule with the same key was reproduced"
		return
	}
	t0 := time.Now()
	defer func() {
		*spent += time.Since(t0).Seconds()
		if f.repro {
			confirmed[f.v.Key]++
		}
	}()
	if f.v.Kind != "race" {
		n := 1
		if h.Opts["tries"] != "" {
			n = optInt(h, "tries", 1)
		}
		for i := 0; i < n; i++ {
			r := nat.run(h.Name, f.replay, deep, i, "", 20*time.Second)
			f.how = r.summary()
			if r.failed() {
				f.repro = true
				return
			}
		}
	}
	if f.v.Kind == "hang" || f.v.Threads < 2 && f.v.Kind != "race" && f.v.Kind != "deadlock" {
		return
	}
	j := jit(f.v.Kind == "race")
	if j.err != nil {
		return
	}
	hints := j.hints(f.v.Sched)
	for i := 1; i < 200 && time.Since(t0) < 25*time.Second && *spent < 240; i++ {
		r := j.run(h.Name, f.replay, deep, i, hints, 10*time.Second)
		f.how = r.summary()
		if r.failed() {
			f.repro = true
			return
		}
	}
}

func writeReplay(f *finding, pkg string, h *Harness, o *options) {
	m := map[string]interface{}{
		"property": o.prop, "harness": h.Name, "package": pkg, "key": f.v.Key, "kind": f.v.Kind, "label": f.v.Label, "where": f.v.Where,
		"detail": f.v.Detail, "vals": f.v.Vec.Vals, "bytes": f.v.Vec.Bytes, "reproduced": f.repro, "how": f.how, "schedule": f.v.Sched,
	}
	b, _ := json.MarshalIndent(m, "", " ")
	os.WriteFile(f.replay, b, 0o644)
}

func printResult(r *Result) {
	fmt.Printf("%-28s paths %d %v left %d asserts %d steps %d decs %d queries %d unk %d solver %.1fs wall %.1fs reached %v\n", r.Harness, r.Paths, r.Kinds, r.Left, r.Asserts, r.Steps, r.Decs, r.Queries, r.Unknowns, r.SolverT.Seconds(), r.Wall.Seconds(), keys(r.Reached))
	for k, v := range r.Msgs {
		fmt.Printf("    %s x%d\n", k, v)
	}
	for k, v := range r.Notes {
		fmt.Printf("    note %s x%d\n", k, v)
	}
}

func keys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
