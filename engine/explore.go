package main

import (
	"fmt"
	"os"
	"runtime"
	"sort"
	"sync"
	"time"
)

var (
	dbg     = os.Getenv("SV_DEBUG") != ""
	profOn  = os.Getenv("SV_PROF") != ""
	profMu  sync.Mutex
	profCnt = map[string]int{}
)

// prof counts where paths fork.
func (in *Interp) prof() {
	if !profOn {
		return
	}
	s := "schedule"
	if in.cur != nil && in.cur.top != nil {
		f := in.cur.top
		s = in.where(f)
		if f.caller != nil {
			s += " < " + in.where(f.caller)
			if f.caller.caller != nil {
				s += " < " + in.where(f.caller.caller)
			}
		}
	}
	if os.Getenv("SV_PROF") == "stack" {
		var pc [8]uintptr
		fs := runtime.CallersFrames(pc[:runtime.Callers(3, pc[:])])
		for {
			f, more := fs.Next()
			s += " | " + f.Function
			if !more {
				break
			}
		}
	}
	profMu.Lock()
	profCnt[s]++
	profMu.Unlock()
}

func profDump() {
	var ks []string
	for k := range profCnt {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return profCnt[ks[i]] > profCnt[ks[j]] })
	for i, k := range ks {
		if i < 25 {
			fmt.Fprintln(os.Stderr, profCnt[k], k)
		}
	}
	profCnt = map[string]int{}
}

// BytesVal is a byte string input: length and the non-zero bytes.
type BytesVal struct {
	Len uint64            `json:"len"`
	Set map[string]uint64 `json:"set,omitempty"`
}

// Vector is one concrete assignment of the inputs of a harness.
type Vector struct {
	Vals  map[string]uint64    `json:"vals"`
	Bytes map[string]*BytesVal `json:"bytes"`
}

// RunCfg bounds one harness run.
type RunCfg struct {
	First       bool // stop at the first violation
	Harness     string
	MaxDec      int
	MaxSteps    int
	MaxConc     int
	MaxCmp      int
	MaxDepth    int
	MaxG        int
	MaxPreempt  int
	MaxSpin     int
	MaxMapOrder int
	QueryMs     int
	MaxPaths    int
	Workers     int
	Deadline    time.Time
	Deep        bool

	mu    sync.Mutex
	notes map[string]int
}

func (c *RunCfg) note(s string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.notes == nil {
		c.notes = map[string]int{}
	}
	c.notes[s]++
}

// Witness is a completed path with a model and the values it predicts.
type Witness struct {
	Vec *Vector
	Obs []ObsVal
	Dec int
}

type ObsVal struct {
	Name string `json:"n"`
	Val  string `json:"v"`
}

// Result of one harness.
type Result struct {
	Harness  string
	Paths    int
	Kinds    map[string]int
	Msgs     map[string]int
	Viols    []*Violation
	Reached  map[string]bool
	Asserts  int64
	Steps    int64
	Blocks   int64
	Decs     int64
	Queries  int
	Unknowns int
	SolverT  time.Duration
	Wall     time.Duration
	Encoded  map[string]int
	Stubs    map[string]int
	Notes    map[string]int
	Wits     []*Witness
	Left     int
}

type explorer struct {
	mu     sync.Mutex
	cond   *sync.Cond
	work   [][]Dec
	active int
	stop   bool
	paths  int
	res    *Result
	vseen  map[string]int
	cfg    *RunCfg
	nwit   int
}

// Explore runs harness function fn over all paths within the bounds.
func Explore(P *Program, h *Harness, cfg *RunCfg) *Result {
	t0 := time.Now()
	ex := &explorer{work: [][]Dec{nil}, cfg: cfg, vseen: map[string]int{}}
	ex.cond = sync.NewCond(&ex.mu)
	ex.res = &Result{Harness: cfg.Harness, Kinds: map[string]int{}, Msgs: map[string]int{}, Reached: map[string]bool{}, Encoded: map[string]int{}, Stubs: map[string]int{}}
	var wg sync.WaitGroup
	for w := 0; w < cfg.Workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var in *Interp
			for {
				ex.mu.Lock()
				for len(ex.work) == 0 && ex.active > 0 && !ex.stop {
					ex.cond.Wait()
				}
				if ex.stop || len(ex.work) == 0 {
					ex.mu.Unlock()
					ex.cond.Broadcast()
					break
				}
				pre := ex.work[len(ex.work)-1]
				ex.work = ex.work[:len(ex.work)-1]
				ex.active++
				ex.paths++
				if ex.paths >= cfg.MaxPaths {
					ex.stop = true
					cfg.note(fmt.Sprintf("path limit %d reached", cfg.MaxPaths))
				}
				ex.mu.Unlock()
				if in == nil {
					in = newInterp(P, cfg)
				} else if in.ts.n > 400000 {
					// drop the term store to bound memory
					old := in
					in = newInterp(P, cfg)
					in.carry(old)
				}
				res := in.runPath(h, pre)
				ex.finish(in, res)
			}
			if in != nil {
				ex.mu.Lock()
				ex.res.Queries += in.sol.Queries
				ex.res.Unknowns += in.sol.Unknowns
				ex.res.SolverT += in.sol.Time
				for k, v := range in.encoded {
					ex.res.Encoded[k] += v
				}
				for k, v := range in.stubs {
					ex.res.Stubs[k] += v
				}
				ex.mu.Unlock()
				in.sol.close()
			}
		}()
	}
	wg.Wait()
	r := ex.res
	r.Paths = ex.paths
	r.Left = len(ex.work)
	r.Wall = time.Since(t0)
	r.Notes = cfg.notes
	profDump()
	sort.Slice(r.Viols, func(i, j int) bool { return r.Viols[i].Key < r.Viols[j].Key })
	return r
}

func (in *Interp) carry(old *Interp) {
	in.encoded, in.stubs = old.encoded, old.stubs
	in.sol.Queries += old.sol.Queries
	in.sol.Unknowns += old.sol.Unknowns
	in.sol.Time += old.sol.Time
	old.sol.close()
}

func (ex *explorer) finish(in *Interp, res pathRes) {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	defer ex.cond.Broadcast()
	ex.active--
	r := ex.res
	r.Kinds[res.kind]++
	if res.msg != "" && res.kind != "violation" {
		r.Msgs[res.kind+": "+res.msg]++
	}
	if res.kind == "timeout" {
		ex.stop = true
	}
	ex.work = append(ex.work, in.alts...)
	in.alts = nil
	r.Asserts += int64(in.asserts)
	r.Steps += int64(in.steps)
	r.Blocks += int64(in.blocks)
	r.Decs += int64(len(in.trail) - len(in.prefix))
	for k := range in.reached {
		r.Reached[k] = true
	}
	for _, v := range in.viols {
		if ex.vseen[v.Key] < 4 {
			r.Viols = append(r.Viols, v)
		}
		ex.vseen[v.Key]++
	}
	in.viols = nil
	if len(ex.vseen) > 40 || ex.cfg.First && len(ex.vseen) > 0 {
		ex.stop = true
	}
	if time.Now().After(ex.cfg.Deadline) {
		if len(ex.work) > 0 || ex.active > 0 {
			ex.cfg.note("time budget reached")
		}
		ex.stop = true
	}
}

// runPath executes one path.
func (in *Interp) runPath(h *Harness, pre []Dec) pathRes {
	in.pc = nil
	in.pcHash = 0x1234567
	in.model = nil
	in.prefix = pre
	in.pos = 0
	in.trail = nil
	in.alts = nil
	in.glob = map[*ssaGlobal]*Cell{}
	in.ginit = map[*ssaPackage]bool{}
	in.addrs = map[int]interface{}{}
	in.naddr = 0
	in.nd = nil
	in.ndn = map[string]int{}
	in.obs = nil
	in.reached = map[string]bool{}
	in.steps, in.blocks = 0, 0
	in.allocs, in.allocL = in.z64, nil
	in.facts = map[int]int8{}
	in.tol = 0
	in.viols = nil
	in.asserts = 0
	in.side = map[interface{}]interface{}{}
	in.killed = false
	in.gs = nil
	in.preempt = 0
	in.maxPre = in.cfg.MaxPreempt
	in.spins = 0
	in.fresh = 0
	in.events = nil
	in.nowT = 0
	in.timers = nil
	in.races = false
	in.vc = nil
	in.gdone = make(chan pathRes, 1)
	if len(in.icache) > 200000 {
		in.icache = map[[2]uint64]int8{}
	}
	g := in.newG("main")
	in.cur = g
	in.startG(g, func() {
		in.initRepo(h)
		in.callSSA(nil, h.Fn, nil, nil)
	})
	g.resume <- struct{}{}
	res := <-in.gdone
	if res.kind == "done" && in.pos < len(in.prefix) {
		res = pathRes{"unsupported", "replay diverged"}
	}
	if res.kind == "done" {
		// validate the path and keep a witness
		if len(in.alts) >= 0 && in.wantWit() {
			if ok := in.tryModel(); ok {
				in.addWit()
			}
		}
	}
	// stop the other goroutines
	in.killed = true
	for _, x := range in.gs {
		if !x.done {
			select {
			case x.resume <- struct{}{}:
			case <-x.exited:
			}
		}
		<-x.exited
	}
	in.cur = nil
	return res
}

var witMu sync.Mutex
var witCount = map[string]int{}
var wits = map[string][]*Witness{}

const maxWit = 12

func (in *Interp) wantWit() bool {
	if len(in.obs) == 0 && len(in.reached) == 0 {
		return false
	}
	witMu.Lock()
	defer witMu.Unlock()
	witCount[in.cfg.Harness]++
	n := witCount[in.cfg.Harness]
	// the first few, then sparser and sparser
	return n <= 4 || (n&(n-1)) == 0
}

func (in *Interp) tryModel() (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			ok = false
		}
	}()
	return in.ensureModel()
}

func (in *Interp) addWit() {
	defer func() { recover() }()
	w := &Witness{Dec: len(in.trail)}
	m := in.model
	for _, o := range in.obs {
		if o.t != nil {
			w.Obs = append(w.Obs, ObsVal{o.name, fmt.Sprint(m.eval(o.t))})
			continue
		}
		n := m.eval(o.b.len)
		if n > 512 {
			n = 512
		}
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(m.eval(in.bRead(o.b.bo.node, in.ts.AddK(o.b.off, uint64(i)))))
		}
		w.Obs = append(w.Obs, ObsVal{o.name, fmt.Sprintf("%x", b)})
	}
	w.Vec = in.vector(m)
	witMu.Lock()
	defer witMu.Unlock()
	if len(wits[in.cfg.Harness]) < maxWit {
		wits[in.cfg.Harness] = append(wits[in.cfg.Harness], w)
	}
}
