package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type Res int

const (
	Unsat Res = iota
	Sat
	Unknown
)

// Solver drives one z3 process. The assertion stack mirrors the path condition.
type Solver struct {
	ts      *TS
	cmd     *exec.Cmd
	in      *bufio.Writer
	out     *bufio.Reader
	arrs    map[string]bool
	nar     *narrower
	lia     *liaSolver
	cur     int // current timeout
	preferL bool
	LIAWins int
	Sliced  int // queries under part of the path condition
	supps   map[int]*supp
	symArr  map[string]bool // arrays read at symbolic indices
	stack   []*Term
	vstack  [][]*Term // variables first seen per level
	inScope map[int]bool
	visited []map[int]bool
	pend    strings.Builder

	Queries  int
	Unknowns int
	Time     time.Duration
	Timeout  int // ms per query
	dead     bool
	log      *os.File
}

func newSolver(ts *TS, timeoutMs int) *Solver {
	s := &Solver{ts: ts, Timeout: timeoutMs, supps: map[int]*supp{}, symArr: map[string]bool{}}
	s.start()
	return s
}

func (s *Solver) start() {
	bin := solverBin()
	cmd := exec.Command(bin, "-in", "-smt2")
	in, _ := cmd.StdinPipe()
	out, _ := cmd.StdoutPipe()
	cmd.Stderr = nil
	if err := cmd.Start(); err != nil {
		panic("cannot start z3: " + err.Error())
	}
	s.cmd = cmd
	var w io.Writer = in
	if lf := os.Getenv("SV_SMTLOG"); lf != "" && s.log == nil {
		s.log, _ = os.Create(fmt.Sprintf("%s.%d", lf, cmd.Process.Pid))
	}
	if s.log != nil {
		w = io.MultiWriter(in, s.log)
	}
	s.in = bufio.NewWriterSize(w, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.arrs = map[string]bool{}
	s.nar = &narrower{s.ts, map[[2]int]bool{}}
	s.stack = nil
	s.vstack = nil
	s.visited = nil
	s.inScope = map[int]bool{}
	for _, t := range s.ts.tab {
		t.emit = false
	}
	fmt.Fprintf(s.in, "(set-option :global-declarations true)\n")
	s.cur = -1
	s.dead = false
}

func solverBin() string {
	if bin := os.Getenv("SV_Z3"); bin != "" {
		return bin
	}
	if p, err := exec.LookPath("z3-new"); err == nil {
		return p
	}
	return "z3"
}

func (s *Solver) close() {
	if s.lia != nil {
		s.lia.close()
	}
	if s.cmd != nil {
		s.in.WriteString("(exit)\n")
		s.in.Flush()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) push(t *Term) {
	var b strings.Builder
	var nv []*Term
	t.emitDefs(&b, s.arrs, &nv, s.nar)
	s.in.WriteString(b.String())
	s.in.WriteString("(push 1)\n(assert ")
	s.in.WriteString(t.ref())
	s.in.WriteString(")\n")
	s.stack = append(s.stack, t)
	vis := map[int]bool{}
	var lv []*Term
	s.collect(t, vis, &lv)
	s.visited = append(s.visited, vis)
	s.vstack = append(s.vstack, lv)
}

func (s *Solver) collect(t *Term, vis map[int]bool, lv *[]*Term) {
	st := []*Term{t}
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if x.Op == OConst || s.inScope[x.ID] {
			continue
		}
		s.inScope[x.ID] = true
		vis[x.ID] = true
		if x.Op == OVar || x.Op == OSel {
			*lv = append(*lv, x)
		}
		st = append(st, x.A...)
	}
}

func (s *Solver) popTo(n int) {
	if len(s.stack) <= n {
		return
	}
	fmt.Fprintf(s.in, "(pop %d)\n", len(s.stack)-n)
	for i := n; i < len(s.stack); i++ {
		for id := range s.visited[i] {
			delete(s.inScope, id)
		}
	}
	s.stack = s.stack[:n]
	s.vstack = s.vstack[:n]
	s.visited = s.visited[:n]
}

// sync makes the stack equal to pc.
func (s *Solver) sync(pc []*Term) {
	n := 0
	for n < len(pc) && n < len(s.stack) && pc[n] == s.stack[n] {
		n++
	}
	s.popTo(n)
	for _, t := range pc[n:] {
		s.push(t)
	}
}

// Check decides pc ∧ extra. On Sat a model is returned. A short bit-vector attempt, linear integer
// arithmetic and a long bit-vector attempt are tried in turn.
func (s *Solver) Check(pc []*Term, extra *Term) (Res, *Model) {
	if extra == s.ts.False {
		return Unsat, nil
	}
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	s.Queries++
	short := 300
	if s.Timeout <= short || os.Getenv("SV_NOLIA") != "" {
		r, m := s.bv(pc, extra, s.Timeout)
		if r == Unknown {
			s.Unknowns++
		}
		return r, m
	}
	lia := func(tmo int) (Res, *Model) {
		if s.lia == nil {
			s.lia = newLIA(s.ts, s.Timeout)
		}
		r, m := s.lia.check(pc, extra)
		if r != Unknown {
			s.LIAWins++
		}
		return r, m
	}
	if s.preferL {
		if r, m := lia(s.Timeout); r != Unknown {
			return r, m
		}
		s.preferL = false
		r, m := s.bv(pc, extra, s.Timeout)
		if r == Unknown {
			s.Unknowns++
		}
		return r, m
	}
	if r, m := s.bv(pc, extra, short); r != Unknown {
		return r, m
	}
	if r, m := lia(s.Timeout); r != Unknown {
		s.preferL = true
		return r, m
	}
	r, m := s.bv(pc, extra, s.Timeout)
	if r == Unknown {
		s.Unknowns++
	}
	return r, m
}

func (s *Solver) bv(pc []*Term, extra *Term, tmo int) (Res, *Model) {
	s.sync(pc)
	n := len(s.stack)
	if extra != nil && extra != s.ts.True {
		s.push(extra)
	}
	if s.cur != tmo {
		fmt.Fprintf(s.in, "(set-option :timeout %d)\n", tmo)
		s.cur = tmo
	}
	s.in.WriteString("(check-sat)\n")
	s.in.Flush()
	line, err := s.readLine()
	if err != nil {
		s.restart()
		return Unknown, nil
	}
	var res Res
	var m *Model
	switch {
	case line == "sat":
		res = Sat
		m = s.getModel()
		if m == nil {
			s.restart()
			return Unknown, nil
		}
	case line == "unsat":
		res = Unsat
	default:
		if strings.HasPrefix(line, "(error") {
			fmt.Fprintln(os.Stderr, "solver:", line)
			s.restart()
			return Unknown, nil
		}
		res = Unknown
	}
	s.popTo(n)
	return res, m
}

func (s *Solver) restart() {
	s.cmd.Process.Kill()
	s.cmd.Wait()
	s.start()
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

func (s *Solver) getModel() *Model {
	m := newModel()
	var all []*Term
	for _, lv := range s.vstack {
		all = append(all, lv...)
	}
	if len(all) == 0 {
		return m
	}
	// query variables, selects and select indices
	var sb strings.Builder
	sb.WriteString("(get-value (")
	var ask []*Term
	for _, t := range all {
		if t.Op == OSel {
			if t.A[0].Op != OConst {
				ask = append(ask, t.A[0])
			}
		}
		ask = append(ask, t)
	}
	for _, t := range ask {
		sb.WriteString(t.ref())
		sb.WriteByte(' ')
	}
	sb.WriteString("))\n")
	s.in.WriteString(sb.String())
	s.in.Flush()
	vals, ok := s.readPairs(len(ask))
	if !ok {
		return nil
	}
	byID := map[int]uint64{}
	for i, t := range ask {
		byID[t.ID] = vals[i]
	}
	for _, t := range all {
		if t.Op == OVar {
			m.vars[t.ID] = byID[t.ID]
		} else {
			var idx uint64
			if t.A[0].Op == OConst {
				idx = t.A[0].K
			} else {
				idx = byID[t.A[0].ID]
			}
			tb := m.sels[t.Name]
			if tb == nil {
				tb = map[uint64]uint64{}
				m.sels[t.Name] = tb
			}
			tb[idx] = byID[t.ID]
		}
	}
	return m
}

// readPairs reads "((a v) (b v) ...)" and returns the values.
func (s *Solver) readPairs(n int) ([]uint64, bool) {
	depth := 0
	var buf strings.Builder
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			return nil, false
		}
		if c == '(' {
			depth++
		}
		if c == ')' {
			depth--
		}
		if depth > 0 || c == ')' {
			buf.WriteByte(c)
		}
		if depth == 0 && buf.Len() > 0 {
			break
		}
	}
	txt := buf.String()
	if strings.HasPrefix(txt, "(error") {
		fmt.Fprintln(os.Stderr, "solver:", txt)
		return nil, false
	}
	out := make([]uint64, 0, n)
	toks := strings.FieldsFunc(txt, func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' || r == '\t' })
	// tokens alternate term-name value
	if len(toks) != 2*n {
		// (_ bvN W) style or similar
		fmt.Fprintln(os.Stderr, "solver: unexpected get-value:", trunc(txt, 300))
		return nil, false
	}
	for i := 1; i < len(toks); i += 2 {
		v, ok := parseVal(toks[i])
		if !ok {
			return nil, false
		}
		out = append(out, v)
	}
	return out, true
}

func parseVal(x string) (uint64, bool) {
	switch {
	case x == "true":
		return 1, true
	case x == "false":
		return 0, true
	case strings.HasPrefix(x, "#x"):
		v, err := strconv.ParseUint(x[2:], 16, 64)
		return v, err == nil
	case strings.HasPrefix(x, "#b"):
		v, err := strconv.ParseUint(x[2:], 2, 64)
		return v, err == nil
	}
	return 0, false
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
