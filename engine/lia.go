package main

import (
	"bufio"
	"fmt"
	"io"
	"math/big"
	"math/bits"
	"os"
	"os/exec"
	"strconv"
	"strings"
)

// liaSolver decides queries as linear integer arithmetic. Machine arithmetic is translated exactly where
// the operations are linear; everything else becomes an unconstrained value of its range, so an unsat
// answer is sound, and a sat answer is used only if its model satisfies the bit-vector terms.
type liaSolver struct {
	ts      *TS
	cmd     *exec.Cmd
	in      *bufio.Writer
	out     *bufio.Reader
	timeout int
	defined map[int]bool
	sides   map[int]string // side constraints by term
	arrs    map[string]bool
	stack   []*Term
	visited [][]int
	inScope map[int]bool
	vars    [][]*Term
}

func newLIA(ts *TS, timeout int) *liaSolver {
	l := &liaSolver{ts: ts, timeout: timeout}
	l.start()
	return l
}

func (l *liaSolver) start() {
	bin := os.Getenv("SV_Z3LIA")
	if bin == "" {
		bin = solverBin()
	}
	cmd := exec.Command(bin, "-in", "-smt2")
	in, _ := cmd.StdinPipe()
	out, _ := cmd.StdoutPipe()
	if err := cmd.Start(); err != nil {
		panic("cannot start z3: " + err.Error())
	}
	l.cmd = cmd
	var w io.Writer = in
	if lf := os.Getenv("SV_LIALOG"); lf != "" {
		f, _ := os.Create(fmt.Sprintf("%s.%d", lf, cmd.Process.Pid))
		w = io.MultiWriter(in, f)
	}
	l.in = bufio.NewWriterSize(w, 1<<16)
	l.out = bufio.NewReaderSize(out, 1<<16)
	l.defined = map[int]bool{}
	l.sides = map[int]string{}
	l.arrs = map[string]bool{}
	l.inScope = map[int]bool{}
	l.stack, l.visited, l.vars = nil, nil, nil
	fmt.Fprintf(l.in, "(set-option :global-declarations true)\n(set-option :timeout %d)\n", l.timeout)
}

func (l *liaSolver) close() {
	if l.cmd != nil {
		l.cmd.Process.Kill()
		l.cmd.Wait()
		l.cmd = nil
	}
}

func pow2(k int) string {
	return new(big.Int).Lsh(big.NewInt(1), uint(k)).String()
}

func (l *liaSolver) r(t *Term) string {
	if t.Op == OConst {
		if t.W == 0 {
			return constStr(t.K, 0)
		}
		return strconv.FormatUint(t.K, 10)
	}
	return fmt.Sprintf("i%d", t.ID)
}

// signed is the signed value of t.
func (l *liaSolver) signed(t *Term) string {
	if t.Op == OConst {
		v := sx(t.K, t.W)
		if v < 0 {
			return "(- " + new(big.Int).Neg(big.NewInt(v)).String() + ")"
		}
		return strconv.FormatInt(v, 10)
	}
	if l.ts.nonneg(t) {
		return l.r(t)
	}
	if t.Op == OAdd {
		if s, lo, hi := l.sum(t, true); lo.Cmp(new(big.Int).Neg(half(t.W))) >= 0 && hi.Cmp(half(t.W)) < 0 {
			return s
		}
	}
	return fmt.Sprintf("(ite (>= %s %s) (- %s %s) %s)", l.r(t), half(t.W), l.r(t), pow2(t.W), l.r(t))
}

func half(w int) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(w-1)) }

func bigU(x uint64) *big.Int { return new(big.Int).SetUint64(x) }

// sum is the integer sum of a linear term with signed coefficients, and its range.
func (l *liaSolver) sum(t *Term, sg bool) (string, *big.Int, *big.Int) {
	var b strings.Builder
	k := sx(t.K, t.W)
	lo, hi := big.NewInt(k), big.NewInt(k)
	b.WriteString("(+ ")
	if k < 0 {
		b.WriteString("(- " + new(big.Int).Neg(big.NewInt(k)).String() + ")")
	} else {
		b.WriteString(strconv.FormatInt(k, 10))
	}
	for i, a := range t.A {
		c := big.NewInt(sx(t.C[i], t.W))
		x := l.r(a)
		al, ah := bigU(a.Lo), bigU(a.Hi)
		if sg && !l.ts.nonneg(a) {
			sl, sh := l.ts.srange(a)
			if bits.Len64(uint64(sh)) < a.W-1 {
				x = l.signed(a)
				al, ah = big.NewInt(sl), big.NewInt(sh)
			}
		}
		al, ah = new(big.Int).Mul(c, al), new(big.Int).Mul(c, ah)
		if c.Sign() < 0 {
			al, ah = ah, al
			b.WriteString(" (* (- " + new(big.Int).Neg(c).String() + ") " + x + ")")
		} else if c.Cmp(big.NewInt(1)) == 0 {
			b.WriteString(" " + x)
		} else {
			b.WriteString(" (* " + c.String() + " " + x + ")")
		}
		lo.Add(lo, al)
		hi.Add(hi, ah)
	}
	b.WriteByte(')')
	return b.String(), lo, hi
}

func (l *liaSolver) fresh(b *strings.Builder, x *Term) {
	fmt.Fprintf(b, "(declare-fun i%d () %s)\n", x.ID, map[bool]string{true: "Bool", false: "Int"}[x.W == 0])
	if x.W > 0 {
		l.sides[x.ID] = fmt.Sprintf("(assert (<= %d i%d %d))\n", x.Lo, x.ID, x.Hi)
	}
}

func (l *liaSolver) def(b *strings.Builder, x *Term) {
	srt := "Int"
	if x.W == 0 {
		srt = "Bool"
	}
	put := func(body string) { fmt.Fprintf(b, "(define-fun i%d () %s %s)\n", x.ID, srt, body) }
	a := func(i int) string { return l.r(x.A[i]) }
	nary := func(op string) {
		var s strings.Builder
		s.WriteString("(" + op)
		for _, y := range x.A {
			s.WriteString(" " + l.r(y))
		}
		s.WriteString(")")
		put(s.String())
	}
	switch x.Op {
	case OVar:
		l.fresh(b, x)
	case OSel:
		if !l.arrs[x.Name] {
			l.arrs[x.Name] = true
			fmt.Fprintf(b, "(declare-fun |%s| (Int) Int)\n", x.Name)
		}
		put(fmt.Sprintf("(|%s| %s)", x.Name, a(0)))
		l.sides[x.ID] = fmt.Sprintf("(assert (<= 0 i%d 255))\n", x.ID)
	case ONot:
		put("(not " + a(0) + ")")
	case OAnd:
		nary("and")
	case OOr:
		nary("or")
	case OEq:
		put("(= " + a(0) + " " + a(1) + ")")
	case OIte:
		nary("ite")
	case OUlt:
		put("(< " + a(0) + " " + a(1) + ")")
	case OUle:
		put("(<= " + a(0) + " " + a(1) + ")")
	case OSlt:
		put("(< " + l.signed(x.A[0]) + " " + l.signed(x.A[1]) + ")")
	case OSle:
		put("(<= " + l.signed(x.A[0]) + " " + l.signed(x.A[1]) + ")")
	case OAdd:
		s, lo, hi := l.sum(x, true)
		m := new(big.Int).Lsh(big.NewInt(1), uint(x.W))
		neg := new(big.Int).Neg(m)
		switch {
		case lo.Sign() >= 0 && hi.Cmp(m) < 0:
			put(s)
		case lo.Cmp(neg) >= 0 && hi.Cmp(m) < 0:
			fmt.Fprintf(b, "(define-fun s%d () Int %s)\n", x.ID, s)
			put(fmt.Sprintf("(ite (< s%d 0) (+ s%d %s) s%d)", x.ID, x.ID, m, x.ID))
		default:
			fmt.Fprintf(b, "(declare-fun q%d () Int)\n", x.ID)
			put(fmt.Sprintf("(+ %s (* %s q%d))", s, m, x.ID))
			l.sides[x.ID] = fmt.Sprintf("(assert (and (<= 0 i%d) (< i%d %s)))\n", x.ID, x.ID, m)
		}
	case OUDiv:
		if x.A[1].Op == OConst && x.A[1].K != 0 {
			put("(div " + a(0) + " " + a(1) + ")")
		} else {
			l.fresh(b, x)
		}
	case OURem:
		if x.A[1].Op == OConst && x.A[1].K != 0 {
			put("(mod " + a(0) + " " + a(1) + ")")
		} else {
			l.fresh(b, x)
		}
	case OSDiv, OSRem:
		if c := sx(x.A[1].K, x.W); x.A[1].Op == OConst && c > 0 {
			v := fmt.Sprintf("n%d", x.ID)
			fmt.Fprintf(b, "(define-fun %s () Int %s)\n", v, l.signed(x.A[0]))
			s := fmt.Sprintf("(ite (>= %s 0) (div %s %d) (- (div (- %s) %d)))", v, v, c, v, c)
			if x.Op == OSRem {
				s = fmt.Sprintf("(ite (>= %s 0) (mod %s %d) (- (mod (- %s) %d)))", v, v, c, v, c)
			}
			fmt.Fprintf(b, "(define-fun d%d () Int %s)\n", x.ID, s)
			put(fmt.Sprintf("(ite (< d%d 0) (+ d%d %s) d%d)", x.ID, x.ID, pow2(x.W), x.ID))
		} else {
			l.fresh(b, x)
		}
	case OConcat:
		sh := 0
		var ps []string
		for i := len(x.A) - 1; i >= 0; i-- {
			y := x.A[i]
			if y.Op != OConst || y.K != 0 {
				if sh == 0 {
					ps = append(ps, l.r(y))
				} else {
					ps = append(ps, "(* "+pow2(sh)+" "+l.r(y)+")")
				}
			}
			sh += y.W
		}
		if len(ps) == 0 {
			put("0")
		} else if len(ps) == 1 {
			put(ps[0])
		} else {
			put("(+ " + strings.Join(ps, " ") + ")")
		}
	case OExtract:
		s := a(0)
		if x.K > 0 {
			s = "(div " + s + " " + pow2(int(x.K)) + ")"
		}
		if bits.Len64(x.A[0].Hi) > int(x.K)+x.W {
			s = "(mod " + s + " " + pow2(x.W) + ")"
		}
		put(s)
	case OSExt:
		y := x.A[0]
		d := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(x.W)), new(big.Int).Lsh(big.NewInt(1), uint(y.W)))
		put(fmt.Sprintf("(ite (>= %s %s) (+ %s %s) %s)", a(0), half(y.W), a(0), d, a(0)))
	case OShl:
		if k := x.A[1]; k.Op == OConst && k.K < uint64(x.W) {
			s := "(* " + a(0) + " " + pow2(int(k.K)) + ")"
			if bits.Len64(x.A[0].Hi)+int(k.K) > x.W {
				s = "(mod " + s + " " + pow2(x.W) + ")"
			}
			put(s)
		} else {
			l.fresh(b, x)
		}
	case OLShr:
		if k := x.A[1]; k.Op == OConst && k.K < uint64(x.W) {
			put("(div " + a(0) + " " + pow2(int(k.K)) + ")")
		} else {
			l.fresh(b, x)
		}
	default:
		l.fresh(b, x)
	}
}

func (l *liaSolver) push(t *Term) {
	var b strings.Builder
	// definitions
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if f.t.Op == OConst || l.defined[f.t.ID] {
			st = st[:len(st)-1]
			continue
		}
		if f.i < len(f.t.A) {
			c := f.t.A[f.i]
			f.i++
			st = append(st, fr{c, 0})
			continue
		}
		x := f.t
		l.defined[x.ID] = true
		st = st[:len(st)-1]
		l.def(&b, x)
	}
	b.WriteString("(push 1)\n")
	// side constraints of terms that come into scope
	var vis []int
	var vs []*Term
	ws := []*Term{t}
	for len(ws) > 0 {
		x := ws[len(ws)-1]
		ws = ws[:len(ws)-1]
		if x.Op == OConst || l.inScope[x.ID] {
			continue
		}
		l.inScope[x.ID] = true
		vis = append(vis, x.ID)
		if s, ok := l.sides[x.ID]; ok {
			b.WriteString(s)
		}
		if x.Op == OVar || x.Op == OSel {
			vs = append(vs, x)
		}
		ws = append(ws, x.A...)
	}
	b.WriteString("(assert " + l.r(t) + ")\n")
	l.in.WriteString(b.String())
	l.stack = append(l.stack, t)
	l.visited = append(l.visited, vis)
	l.vars = append(l.vars, vs)
}

func (l *liaSolver) popTo(n int) {
	if len(l.stack) <= n {
		return
	}
	fmt.Fprintf(l.in, "(pop %d)\n", len(l.stack)-n)
	for i := n; i < len(l.stack); i++ {
		for _, id := range l.visited[i] {
			delete(l.inScope, id)
		}
	}
	l.stack = l.stack[:n]
	l.visited = l.visited[:n]
	l.vars = l.vars[:n]
}

func (l *liaSolver) line() (string, bool) {
	for {
		s, err := l.out.ReadString('\n')
		if err != nil {
			return "", false
		}
		if s = strings.TrimSpace(s); s != "" {
			return s, true
		}
	}
}

func (l *liaSolver) check(pc []*Term, extra *Term) (Res, *Model) {
	if l.cmd == nil {
		l.start()
	}
	n := 0
	for n < len(pc) && n < len(l.stack) && pc[n] == l.stack[n] {
		n++
	}
	l.popTo(n)
	for _, t := range pc[n:] {
		l.push(t)
	}
	base := len(l.stack)
	if extra != nil && extra != l.ts.True {
		l.push(extra)
	}
	l.in.WriteString("(check-sat)\n")
	l.in.Flush()
	s, ok := l.line()
	if !ok || strings.HasPrefix(s, "(error") {
		if ok {
			fmt.Fprintln(os.Stderr, "lia:", s)
		}
		l.close()
		return Unknown, nil
	}
	res := Unknown
	var m *Model
	switch s {
	case "unsat":
		res = Unsat
	case "sat":
		if m = l.model(); m == nil {
			l.close()
			return Unknown, nil
		}
		good := extra == nil || m.eval(extra) == 1
		for _, t := range pc {
			good = good && m.eval(t) == 1
		}
		if good {
			res = Sat
		} else {
			m = nil
		}
	}
	l.popTo(base)
	return res, m
}

func (l *liaSolver) model() *Model {
	m := newModel()
	var ask []*Term
	for _, vs := range l.vars {
		for _, t := range vs {
			if t.Op == OSel && t.A[0].Op != OConst {
				ask = append(ask, t.A[0])
			}
			ask = append(ask, t)
		}
	}
	if len(ask) == 0 {
		return m
	}
	l.in.WriteString("(get-value (")
	for _, t := range ask {
		l.in.WriteString(l.r(t) + " ")
	}
	l.in.WriteString("))\n")
	l.in.Flush()
	depth := 0
	var buf strings.Builder
	for {
		c, err := l.out.ReadByte()
		if err != nil {
			return nil
		}
		if c == '(' {
			depth++
		} else if c == ')' {
			depth--
		}
		if depth > 0 {
			buf.WriteByte(c)
		} else if buf.Len() > 0 {
			break
		}
	}
	if strings.HasPrefix(buf.String(), "(error") {
		return nil
	}
	toks := strings.FieldsFunc(buf.String(), func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' || r == '\t' })
	val := map[int]uint64{}
	i := 0
	for _, t := range ask {
		if i+1 >= len(toks) {
			return nil
		}
		i++
		switch v := toks[i]; v {
		case "true":
			val[t.ID] = 1
		case "false":
			val[t.ID] = 0
		case "-":
			return nil
		default:
			u, err := strconv.ParseUint(v, 10, 64)
			if err != nil {
				return nil
			}
			val[t.ID] = u
		}
		i++
	}
	for _, vs := range l.vars {
		for _, t := range vs {
			if t.Op == OVar {
				m.vars[t.ID] = val[t.ID]
				continue
			}
			idx := t.A[0].K
			if t.A[0].Op != OConst {
				idx = val[t.A[0].ID]
			}
			if m.sels[t.Name] == nil {
				m.sels[t.Name] = map[uint64]uint64{}
			}
			m.sels[t.Name][idx] = val[t.ID]
		}
	}
	return m
}
