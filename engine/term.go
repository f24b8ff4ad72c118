package main

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

// Op is a term constructor. Width 0 means Bool.
type Op uint8

const (
	OConst Op = iota
	OVar
	OSel // uninterpreted byte array read: name, arg idx (64 bit)
	ONot
	OAnd
	OOr
	OEq
	OIte
	OAdd // n-ary, canonical linear form: args are (coef*base) terms; K = constant
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OBAnd
	OBOr
	OBXor
	OShl
	OLShr
	OAShr
	OConcat
	OExtract // K = lo, W = width
	OSExt
	OUlt
	OUle
	OSlt
	OSle
	OFLt // float compare, args same width 32/64
	OFLe
	OFEq
	OFCvt // float->float conversion, W target
)

// Term is a hash-consed bit-vector (W>0) or boolean (W==0) term.
type Term struct {
	Op   Op
	W    int
	K    uint64
	Name string
	A    []*Term
	C    []uint64 // coefficients for OAdd
	ID   int
	Lo   uint64
	Hi   uint64
	emit bool
}

// TS is a term store.
type TS struct {
	tab   map[string]*Term
	n     int
	True  *Term
	False *Term
}

func newTS() *TS {
	s := &TS{tab: map[string]*Term{}}
	s.True = s.intern(&Term{Op: OConst, W: 0, K: 1})
	s.False = s.intern(&Term{Op: OConst, W: 0, K: 0})
	return s
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func sx(v uint64, w int) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := uint(64 - w)
	return int64(v<<sh) >> sh
}

func (s *TS) intern(t *Term) *Term {
	var b strings.Builder
	b.Grow(48)
	fmt.Fprintf(&b, "%d.%d.%x.%s", t.Op, t.W, t.K, t.Name)
	for i, a := range t.A {
		b.WriteByte(' ')
		writeInt(&b, a.ID)
		if t.C != nil {
			b.WriteByte('*')
			fmt.Fprintf(&b, "%x", t.C[i])
		}
	}
	k := b.String()
	if o, ok := s.tab[k]; ok {
		return o
	}
	s.n++
	t.ID = s.n
	s.interval(t)
	s.tab[k] = t
	return t
}

func writeInt(b *strings.Builder, n int) {
	var buf [20]byte
	i := len(buf)
	for {
		i--
		buf[i] = byte('0' + n%10)
		n /= 10
		if n == 0 {
			break
		}
	}
	b.Write(buf[i:])
}

func (s *TS) interval(t *Term) {
	if t.W == 0 {
		t.Lo, t.Hi = 0, 1
		if t.Op == OConst {
			t.Lo, t.Hi = t.K, t.K
		}
		return
	}
	m := mask(t.W)
	switch t.Op {
	case OConst:
		t.Lo, t.Hi = t.K, t.K
		return
	case OVar:
		if t.C != nil {
			t.Lo, t.Hi = t.C[0], t.C[1]
			return
		}
	case OIte:
		t.Lo, t.Hi = minu(t.A[1].Lo, t.A[2].Lo), maxu(t.A[1].Hi, t.A[2].Hi)
		return
	case OAdd:
		// treat coefficients as signed; compute exact range when it fits without wrapping
		var lo, hi, negLo, negHi uint64
		lo, hi = t.K, t.K
		ok := true
		kneg := sx(t.K, t.W) < 0 && t.W == 64
		if kneg {
			lo, hi = 0, 0
			negLo = -t.K
			negHi = -t.K
		}
		for i, a := range t.A {
			c := t.C[i]
			if sx(c, t.W) >= 0 {
				h, l := bits.Mul64(c, a.Hi)
				if h != 0 {
					ok = false
					break
				}
				nh, cy := bits.Add64(hi, l, 0)
				if cy != 0 || nh > m {
					ok = false
					break
				}
				hi = nh
				lo += c * a.Lo
			} else {
				c = uint64(-sx(c, t.W))
				h, l := bits.Mul64(c, a.Hi)
				if h != 0 {
					ok = false
					break
				}
				nh, cy := bits.Add64(negHi, l, 0)
				if cy != 0 {
					ok = false
					break
				}
				negHi = nh
				negLo += c * a.Lo
			}
		}
		if ok && negHi <= lo {
			t.Lo, t.Hi = lo-negHi, hi-negLo
			return
		}
	case OBAnd:
		t.Lo = 0
		t.Hi = minu(t.A[0].Hi, t.A[1].Hi)
		return
	case OBOr, OBXor:
		h := t.A[0].Hi | t.A[1].Hi
		n := bits.Len64(h)
		t.Lo, t.Hi = 0, mask(n)
		if n == 0 {
			t.Hi = 0
		}
		return
	case OLShr:
		if t.A[1].Op == OConst {
			t.Lo, t.Hi = t.A[0].Lo>>t.A[1].K, t.A[0].Hi>>t.A[1].K
			return
		}
		t.Lo, t.Hi = 0, t.A[0].Hi
		return
	case OUDiv:
		if t.A[1].Op == OConst && t.A[1].K != 0 {
			t.Lo, t.Hi = t.A[0].Lo/t.A[1].K, t.A[0].Hi/t.A[1].K
			return
		}
	case OURem:
		if t.A[1].Op == OConst && t.A[1].K != 0 {
			t.Lo, t.Hi = 0, minu(t.A[0].Hi, t.A[1].K-1)
			return
		}
	case OConcat:
		// first arg most significant
		var lo, hi uint64
		for _, a := range t.A {
			lo = lo<<uint(a.W) | a.Lo
			hi = hi<<uint(a.W) | a.Hi
		}
		t.Lo, t.Hi = lo, hi
		return
	case OExtract:
		a := t.A[0]
		if a.Hi>>t.K <= m {
			t.Lo, t.Hi = a.Lo>>t.K, a.Hi>>t.K
			return
		}
	}
	t.Lo, t.Hi = 0, m
}

func minu(a, b uint64) uint64 {
	if a < b {
		return a
	}
	return b
}
func maxu(a, b uint64) uint64 {
	if a > b {
		return a
	}
	return b
}

func (s *TS) Const(v uint64, w int) *Term {
	return s.intern(&Term{Op: OConst, W: w, K: v & mask(w)})
}
func (s *TS) Bool(b bool) *Term {
	if b {
		return s.True
	}
	return s.False
}
func (s *TS) Var(name string, w int) *Term {
	return s.intern(&Term{Op: OVar, W: w, Name: name})
}

// VarR makes a variable whose range is asserted by the caller.
func (s *TS) VarR(name string, w int, lo, hi uint64) *Term {
	return s.intern(&Term{Op: OVar, W: w, Name: fmt.Sprintf("%s[%d,%d]", name, lo, hi), C: []uint64{lo, hi}})
}

func (t *Term) IsConst() bool { return t.Op == OConst }

func (s *TS) Sel(arr string, idx *Term) *Term {
	return s.intern(&Term{Op: OSel, W: 8, Name: arr, A: []*Term{idx}})
}

func (s *TS) Not(a *Term) *Term {
	if a.Op == OConst {
		return s.Bool(a.K == 0)
	}
	if a.Op == ONot {
		return a.A[0]
	}
	switch a.Op {
	case OUlt:
		return s.Ule(a.A[1], a.A[0])
	case OUle:
		return s.Ult(a.A[1], a.A[0])
	case OSlt:
		return s.Sle(a.A[1], a.A[0])
	case OSle:
		return s.Slt(a.A[1], a.A[0])
	}
	return s.intern(&Term{Op: ONot, A: []*Term{a}})
}

func (s *TS) And(xs ...*Term) *Term { return s.nary(OAnd, xs) }
func (s *TS) Or(xs ...*Term) *Term  { return s.nary(OOr, xs) }

func (s *TS) nary(op Op, xs []*Term) *Term {
	unit, zero := s.True, s.False
	if op == OOr {
		unit, zero = zero, unit
	}
	set := map[int]*Term{}
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == unit {
			return true
		}
		if x == zero {
			return false
		}
		if x.Op == op {
			for _, a := range x.A {
				if !add(a) {
					return false
				}
			}
			return true
		}
		set[x.ID] = x
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return zero
		}
	}
	if len(set) == 0 {
		return unit
	}
	out := make([]*Term, 0, len(set))
	for _, x := range set {
		if x.Op == ONot {
			if _, ok := set[x.A[0].ID]; ok {
				return zero
			}
		}
		out = append(out, x)
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return s.intern(&Term{Op: op, A: out})
}

func (s *TS) Implies(a, b *Term) *Term { return s.Or(s.Not(a), b) }

func (s *TS) Eq(a, b *Term) *Term {
	if a == b {
		return s.True
	}
	if a.W != b.W {
		panic(fmt.Sprintf("Eq width mismatch %d %d", a.W, b.W))
	}
	if a.Op == OConst && b.Op == OConst {
		return s.Bool(a.K == b.K)
	}
	if a.W == 0 {
		if a.Op == OConst {
			a, b = b, a
		}
		if b.Op == OConst {
			if b.K == 1 {
				return a
			}
			return s.Not(a)
		}
	} else {
		if a.Hi < b.Lo || b.Hi < a.Lo {
			return s.False
		}
		// linear difference
		d := s.Sub(a, b)
		if d.Op == OConst {
			return s.Bool(d.K == 0)
		}
		if a.Op == OConst {
			a, b = b, a
		}
		if b.Op == OConst {
			switch a.Op {
			case OConcat:
				// split per piece
				sh := 0
				cs := make([]*Term, 0, len(a.A))
				for i := len(a.A) - 1; i >= 0; i-- {
					p := a.A[i]
					cs = append(cs, s.Eq(p, s.Const(b.K>>uint(sh), p.W)))
					sh += p.W
				}
				return s.And(cs...)
			case OIte:
				if a.A[1].Op == OConst && a.A[2].Op == OConst {
					return s.Ite(a.A[0], s.Eq(a.A[1], b), s.Eq(a.A[2], b))
				}
			case OAdd:
				// move constant over
				if a.K != 0 {
					aa := s.linMake(a.W, a.A, a.C, 0)
					return s.Eq(aa, s.Const(b.K-a.K, a.W))
				}
			case OSExt:
				in := a.A[0]
				if uint64(sx(b.K, in.W))&mask(a.W) != b.K {
					// not representable
					if uint64(sx(b.K&mask(in.W), in.W))&mask(a.W) != b.K {
						return s.False
					}
				}
				return s.Eq(in, s.Const(b.K, in.W))
			}
		}
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return s.intern(&Term{Op: OEq, A: []*Term{a, b}})
}

func (s *TS) Ite(c, a, b *Term) *Term {
	if c.Op == OConst {
		if c.K == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.W == 0 {
		if a == s.True && b == s.False {
			return c
		}
		if a == s.False && b == s.True {
			return s.Not(c)
		}
		if a == s.True {
			return s.Or(c, b)
		}
		if a == s.False {
			return s.And(s.Not(c), b)
		}
		if b == s.True {
			return s.Or(s.Not(c), a)
		}
		if b == s.False {
			return s.And(c, a)
		}
	}
	if c.Op == ONot {
		return s.Ite(c.A[0], b, a)
	}
	if a.Op == OIte && a.A[0] == c {
		a = a.A[1]
	}
	if b.Op == OIte && b.A[0] == c {
		b = b.A[2]
	}
	if a == b {
		return a
	}
	return s.intern(&Term{Op: OIte, W: a.W, A: []*Term{c, a, b}})
}

// ---- linear arithmetic normal form ----

func (s *TS) lin(t *Term, f uint64, acc map[*Term]uint64, k *uint64) {
	switch t.Op {
	case OConst:
		*k += f * t.K
	case OAdd:
		*k += f * t.K
		for i, a := range t.A {
			acc[a] += f * t.C[i]
		}
	default:
		acc[t] += f
	}
}

func (s *TS) linBuild(w int, acc map[*Term]uint64, k uint64) *Term {
	m := mask(w)
	bs := make([]*Term, 0, len(acc))
	for b, c := range acc {
		if c&m != 0 {
			bs = append(bs, b)
		}
	}
	sort.Slice(bs, func(i, j int) bool { return bs[i].ID < bs[j].ID })
	cs := make([]uint64, len(bs))
	for i, b := range bs {
		cs[i] = acc[b] & m
	}
	return s.linMake(w, bs, cs, k&m)
}

func (s *TS) linMake(w int, bs []*Term, cs []uint64, k uint64) *Term {
	if len(bs) == 0 {
		return s.Const(k, w)
	}
	if len(bs) == 1 && cs[0] == 1 && k == 0 {
		return bs[0]
	}
	return s.intern(&Term{Op: OAdd, W: w, A: bs, C: cs, K: k & mask(w)})
}

func (s *TS) Add(a, b *Term) *Term {
	if a.Op == OConst && b.Op == OConst {
		return s.Const(a.K+b.K, a.W)
	}
	acc := map[*Term]uint64{}
	var k uint64
	s.lin(a, 1, acc, &k)
	s.lin(b, 1, acc, &k)
	return s.linBuild(a.W, acc, k)
}
func (s *TS) Sub(a, b *Term) *Term {
	if a.Op == OConst && b.Op == OConst {
		return s.Const(a.K-b.K, a.W)
	}
	acc := map[*Term]uint64{}
	var k uint64
	s.lin(a, 1, acc, &k)
	s.lin(b, ^uint64(0), acc, &k)
	return s.linBuild(a.W, acc, k)
}
func (s *TS) AddK(a *Term, k uint64) *Term { return s.Add(a, s.Const(k, a.W)) }

func (s *TS) Mul(a, b *Term) *Term {
	if a.Op == OConst {
		a, b = b, a
	}
	if b.Op == OConst {
		acc := map[*Term]uint64{}
		var k uint64
		s.lin(a, b.K, acc, &k)
		return s.linBuild(a.W, acc, k)
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return s.intern(&Term{Op: OMul, W: a.W, A: []*Term{a, b}})
}

func (s *TS) UDiv(a, b *Term) *Term {
	if b.Op == OConst && b.K != 0 {
		if a.Op == OConst {
			return s.Const(a.K/b.K, a.W)
		}
		if b.K&(b.K-1) == 0 {
			return s.LShr(a, s.Const(uint64(bits.TrailingZeros64(b.K)), a.W))
		}
		if a.Hi < b.K {
			return s.Const(0, a.W)
		}
	}
	return s.intern(&Term{Op: OUDiv, W: a.W, A: []*Term{a, b}})
}
func (s *TS) URem(a, b *Term) *Term {
	if b.Op == OConst && b.K != 0 {
		if a.Op == OConst {
			return s.Const(a.K%b.K, a.W)
		}
		if b.K&(b.K-1) == 0 {
			return s.BAnd(a, s.Const(b.K-1, a.W))
		}
		if a.Hi < b.K {
			return a
		}
	}
	return s.intern(&Term{Op: OURem, W: a.W, A: []*Term{a, b}})
}
func (s *TS) nonneg(a *Term) bool { return a.Hi < uint64(1)<<uint(a.W-1) }
func (s *TS) SDiv(a, b *Term) *Term {
	if s.nonneg(a) && s.nonneg(b) {
		return s.UDiv(a, b)
	}
	if a.Op == OConst && b.Op == OConst && b.K != 0 {
		x, y := sx(a.K, a.W), sx(b.K, b.W)
		if y == -1 {
			return s.Const(uint64(-x), a.W)
		}
		return s.Const(uint64(x/y), a.W)
	}
	return s.intern(&Term{Op: OSDiv, W: a.W, A: []*Term{a, b}})
}
func (s *TS) SRem(a, b *Term) *Term {
	if s.nonneg(a) && s.nonneg(b) {
		return s.URem(a, b)
	}
	if a.Op == OConst && b.Op == OConst && b.K != 0 {
		x, y := sx(a.K, a.W), sx(b.K, b.W)
		if y == -1 {
			return s.Const(0, a.W)
		}
		return s.Const(uint64(x%y), a.W)
	}
	return s.intern(&Term{Op: OSRem, W: a.W, A: []*Term{a, b}})
}

// ---- bit pieces ----

type piece struct {
	base *Term // nil = constant
	lo   int   // low bit in base
	w    int
	k    uint64
}

// pieces decomposes t into pieces from least to most significant.
func (s *TS) pieces(t *Term) []piece {
	switch t.Op {
	case OConst:
		return []piece{{nil, 0, t.W, t.K}}
	case OConcat:
		var out []piece
		for i := len(t.A) - 1; i >= 0; i-- {
			out = append(out, s.pieces(t.A[i])...)
		}
		return out
	case OExtract:
		return []piece{{t.A[0], int(t.K), t.W, 0}}
	}
	// known-zero high bits
	n := bits.Len64(t.Hi)
	if n < t.W {
		if n == 0 {
			return []piece{{nil, 0, t.W, 0}}
		}
		return []piece{{t, 0, n, 0}, {nil, 0, t.W - n, 0}}
	}
	return []piece{{t, 0, t.W, 0}}
}

func splitAt(ps []piece, cuts map[int]bool) []piece {
	var out []piece
	pos := 0
	for _, p := range ps {
		st := 0
		for i := 1; i < p.w; i++ {
			if cuts[pos+i] {
				out = append(out, piece{p.base, p.lo + st, i - st, (p.k >> uint(st)) & mask(i-st)})
				st = i
			}
		}
		out = append(out, piece{p.base, p.lo + st, p.w - st, (p.k >> uint(st)) & mask(p.w-st)})
		pos += p.w
	}
	return out
}

func (s *TS) fromPieces(ps []piece, w int) *Term {
	// merge adjacent
	var m []piece
	for _, p := range ps {
		if p.w == 0 {
			continue
		}
		if len(m) > 0 {
			l := &m[len(m)-1]
			if p.base == nil && l.base == nil {
				l.k |= p.k << uint(l.w)
				l.w += p.w
				continue
			}
			if p.base != nil && p.base == l.base && l.lo+l.w == p.lo {
				l.w += p.w
				continue
			}
		}
		m = append(m, p)
	}
	var args []*Term
	for i := 0; i < len(m); i++ {
		p := m[i]
		if p.base == nil {
			args = append(args, s.Const(p.k, p.w))
			continue
		}
		// zero extension of a value whose high bits are known zero: absorb following zeros
		if p.lo == 0 && p.w < p.base.W && bits.Len64(p.base.Hi) <= p.w && i+1 < len(m) && m[i+1].base == nil && m[i+1].k&mask(minI(p.base.W-p.w, m[i+1].w)) == 0 {
			take := minI(p.base.W-p.w, m[i+1].w)
			m[i+1].w -= take
			m[i+1].k >>= uint(take)
			p.w += take
			if m[i+1].w == 0 {
				m = append(m[:i+1], m[i+2:]...)
			}
		}
		args = append(args, s.rawExtract(p.base, p.lo, p.w))
	}
	if len(args) == 1 {
		return args[0]
	}
	for i, j := 0, len(args)-1; i < j; i, j = i+1, j-1 {
		args[i], args[j] = args[j], args[i]
	}
	return s.intern(&Term{Op: OConcat, W: w, A: args})
}

func minI(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func (s *TS) rawExtract(t *Term, lo, w int) *Term {
	if lo == 0 && w == t.W {
		return t
	}
	if t.Op == OConst {
		return s.Const(t.K>>uint(lo), w)
	}
	return s.intern(&Term{Op: OExtract, W: w, K: uint64(lo), A: []*Term{t}})
}

func (s *TS) Extract(t *Term, lo, w int) *Term {
	if lo == 0 && w == t.W {
		return t
	}
	switch t.Op {
	case OConst:
		return s.Const(t.K>>uint(lo), w)
	case OExtract:
		return s.Extract(t.A[0], int(t.K)+lo, w)
	case OAdd:
		if lo == 0 {
			acc := map[*Term]uint64{}
			k := t.K
			for i, a := range t.A {
				var kk uint64
				s.lin(s.Extract(a, 0, w), t.C[i], acc, &kk)
				k += kk
			}
			return s.linBuild(w, acc, k)
		}
	case OIte:
		if t.A[1].Op == OConst || t.A[2].Op == OConst {
			return s.Ite(t.A[0], s.Extract(t.A[1], lo, w), s.Extract(t.A[2], lo, w))
		}
	case OBAnd, OBOr, OBXor:
		return s.bitop(t.Op, s.Extract(t.A[0], lo, w), s.Extract(t.A[1], lo, w))
	case OSExt:
		in := t.A[0]
		if lo+w <= in.W {
			return s.Extract(in, lo, w)
		}
		if lo == 0 {
			return s.SExt(in, w)
		}
	}
	if t.Op == OConcat || bits.Len64(t.Hi) < t.W {
		ps := s.pieces(t)
		var out []piece
		pos := 0
		for _, p := range ps {
			a, b := maxI(pos, lo), minI(pos+p.w, lo+w)
			if a < b {
				out = append(out, piece{p.base, p.lo + a - pos, b - a, (p.k >> uint(a-pos)) & mask(b-a)})
			}
			pos += p.w
		}
		if len(out) == 1 && out[0].base == t {
			return s.rawExtract(t, lo, w)
		}
		// re-extract through bases
		return s.concatPieces(out, w)
	}
	return s.rawExtract(t, lo, w)
}

func (s *TS) concatPieces(ps []piece, w int) *Term {
	return s.fromPieces(ps, w)
}

func maxI(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func (s *TS) ZExt(t *Term, w int) *Term {
	if w == t.W {
		return t
	}
	if w < t.W {
		return s.Extract(t, 0, w)
	}
	switch t.Op {
	case OConst:
		return s.Const(t.K, w)
	case OAdd:
		// no wrap: extend the sum
		if s.addNoWrap(t) {
			acc := map[*Term]uint64{}
			k := t.K
			for i, a := range t.A {
				var kk uint64
				s.lin(s.ZExt(a, w), t.C[i], acc, &kk)
				k += kk
			}
			return s.linBuild(w, acc, k)
		}
		// signed coefficients / constant but exact range known to be within [0,2^W)
		if lo, ok := s.addExact(t); ok {
			_ = lo
			acc := map[*Term]uint64{}
			k := uint64(sx(t.K, t.W))
			for i, a := range t.A {
				var kk uint64
				s.lin(s.ZExt(a, w), uint64(sx(t.C[i], t.W)), acc, &kk)
				k += kk
			}
			return s.linBuild(w, acc, k)
		}
	case OExtract:
		in := t.A[0]
		if t.K == 0 && in.W == w && bits.Len64(in.Hi) <= t.W {
			return in
		}
	case OIte:
		return s.Ite(t.A[0], s.ZExt(t.A[1], w), s.ZExt(t.A[2], w))
	}
	ps := append(append([]piece{}, s.pieces(t)...), piece{nil, 0, w - t.W, 0})
	return s.fromPieces(ps, w)
}

// addNoWrap: all coefficients small positive and the sum of maxima fits.
func (s *TS) addNoWrap(t *Term) bool {
	hi := t.K
	m := mask(t.W)
	for i, a := range t.A {
		h, l := bits.Mul64(t.C[i], a.Hi)
		if h != 0 {
			return false
		}
		var c uint64
		hi, c = bits.Add64(hi, l, 0)
		if c != 0 {
			return false
		}
	}
	return hi <= m
}

// addExact: signed-coefficient sum provably within [0, 2^(W-1)).
func (s *TS) addExact(t *Term) (int64, bool) {
	lo, hi := sx(t.K, t.W), sx(t.K, t.W)
	for i, a := range t.A {
		c := sx(t.C[i], t.W)
		if a.Hi > 1<<40 || c > 1<<16 || c < -(1<<16) {
			return 0, false
		}
		if c >= 0 {
			lo += c * int64(a.Lo)
			hi += c * int64(a.Hi)
		} else {
			lo += c * int64(a.Hi)
			hi += c * int64(a.Lo)
		}
	}
	if lo < 0 || uint64(hi) > mask(t.W) {
		return 0, false
	}
	return lo, true
}

func (s *TS) SExt(t *Term, w int) *Term {
	if w == t.W {
		return t
	}
	if w < t.W {
		return s.Extract(t, 0, w)
	}
	if t.Op == OConst {
		return s.Const(uint64(sx(t.K, t.W)), w)
	}
	if s.nonneg(t) {
		return s.ZExt(t, w)
	}
	if t.Op == OSExt {
		return s.SExt(t.A[0], w)
	}
	if t.Op == OIte && (t.A[1].IsConst() || t.A[2].IsConst()) {
		return s.Ite(t.A[0], s.SExt(t.A[1], w), s.SExt(t.A[2], w))
	}
	return s.intern(&Term{Op: OSExt, W: w, A: []*Term{t}})
}

func (s *TS) Shl(a, b *Term) *Term {
	if b.Op == OConst {
		if b.K >= uint64(a.W) {
			return s.Const(0, a.W)
		}
		if b.K == 0 {
			return a
		}
		if a.Op == OConst {
			return s.Const(a.K<<b.K, a.W)
		}
		if a.Op == OAdd || a.Op == OVar && false {
			return s.Mul(a, s.Const(uint64(1)<<b.K, a.W))
		}
		n := int(b.K)
		lowp := s.Extract(a, 0, a.W-n)
		ps := append([]piece{{nil, 0, n, 0}}, s.pieces(lowp)...)
		return s.fromPieces(ps, a.W)
	}
	return s.intern(&Term{Op: OShl, W: a.W, A: []*Term{a, b}})
}
func (s *TS) LShr(a, b *Term) *Term {
	if b.Op == OConst {
		if b.K >= uint64(a.W) {
			return s.Const(0, a.W)
		}
		if b.K == 0 {
			return a
		}
		n := int(b.K)
		hi := s.Extract(a, n, a.W-n)
		ps := append(append([]piece{}, s.pieces(hi)...), piece{nil, 0, n, 0})
		return s.fromPieces(ps, a.W)
	}
	return s.intern(&Term{Op: OLShr, W: a.W, A: []*Term{a, b}})
}
func (s *TS) AShr(a, b *Term) *Term {
	if s.nonneg(a) {
		return s.LShr(a, b)
	}
	if b.Op == OConst {
		k := minu(b.K, uint64(a.W-1))
		if k == 0 {
			return a
		}
		return s.SExt(s.Extract(a, int(k), a.W-int(k)), a.W)
	}
	return s.intern(&Term{Op: OAShr, W: a.W, A: []*Term{a, b}})
}

func (s *TS) BAnd(a, b *Term) *Term { return s.bitop(OBAnd, a, b) }
func (s *TS) BOr(a, b *Term) *Term  { return s.bitop(OBOr, a, b) }
func (s *TS) BXor(a, b *Term) *Term { return s.bitop(OBXor, a, b) }
func (s *TS) BNot(a *Term) *Term    { return s.BXor(a, s.Const(^uint64(0), a.W)) }

func (s *TS) bitop(op Op, a, b *Term) *Term {
	w := a.W
	if a.Op == OConst && b.Op == OConst {
		switch op {
		case OBAnd:
			return s.Const(a.K&b.K, w)
		case OBOr:
			return s.Const(a.K|b.K, w)
		default:
			return s.Const(a.K^b.K, w)
		}
	}
	if a == b {
		if op == OBXor {
			return s.Const(0, w)
		}
		return a
	}
	if a.Op == OConst {
		a, b = b, a
	}
	if b.Op == OConst {
		if b.K == 0 {
			if op == OBAnd {
				return b
			}
			return a
		}
		if b.K == mask(w) && op == OBAnd {
			return a
		}
		if b.K == mask(w) && op == OBOr {
			return b
		}
		if a.Op == OIte && a.A[1].IsConst() && a.A[2].IsConst() {
			return s.Ite(a.A[0], s.bitop(op, a.A[1], b), s.bitop(op, a.A[2], b))
		}
		if a.Op == op && a.A[1].Op == OConst {
			return s.bitop(op, a.A[0], s.bitop(op, a.A[1], b))
		}
	}
	// piecewise
	pa, pb := s.pieces(a), s.pieces(b)
	if len(pa) > 1 || len(pb) > 1 || b.Op == OConst {
		cuts := map[int]bool{}
		mark := func(ps []piece) {
			pos := 0
			for _, p := range ps {
				if p.base == nil {
					// cut constants at bit-run boundaries
					for i := 1; i < p.w; i++ {
						if (p.k>>uint(i))&1 != (p.k>>uint(i-1))&1 {
							cuts[pos+i] = true
						}
					}
				}
				pos += p.w
				cuts[pos] = true
			}
		}
		mark(pa)
		mark(pb)
		pa, pb = splitAt(pa, cuts), splitAt(pb, cuts)
		ok := true
		var out []piece
		for i := range pa {
			x, y := pa[i], pb[i]
			if x.base == nil {
				x, y = y, x
			}
			if x.base == nil { // both const
				var k uint64
				switch op {
				case OBAnd:
					k = x.k & y.k
				case OBOr:
					k = x.k | y.k
				default:
					k = x.k ^ y.k
				}
				out = append(out, piece{nil, 0, x.w, k})
				continue
			}
			if y.base == nil {
				allz, allo := y.k == 0, y.k == mask(y.w)
				switch {
				case op == OBAnd && allz:
					out = append(out, piece{nil, 0, x.w, 0})
					continue
				case op == OBAnd && allo, op != OBAnd && allz:
					out = append(out, x)
					continue
				case op == OBOr && allo:
					out = append(out, piece{nil, 0, x.w, mask(x.w)})
					continue
				}
			} else if x.base == y.base && x.lo == y.lo && op != OBXor {
				out = append(out, x)
				continue
			}
			ok = false
			break
		}
		if ok {
			return s.fromPieces(out, w)
		}
	}
	if a.ID > b.ID && b.Op != OConst {
		a, b = b, a
	}
	return s.intern(&Term{Op: op, W: w, A: []*Term{a, b}})
}

// ---- comparisons ----

// cancel removes common parts of two no-wrap sums.
func (s *TS) cancel(a, b *Term) (*Term, *Term) {
	if a.Op != OAdd && b.Op != OAdd {
		return a, b
	}
	nw := func(t *Term) bool { return t.Op != OAdd || s.addNoWrap(t) }
	if !nw(a) || !nw(b) {
		return a, b
	}
	am, bm := map[*Term]uint64{}, map[*Term]uint64{}
	var ak, bk uint64
	s.lin(a, 1, am, &ak)
	s.lin(b, 1, bm, &bk)
	changed := false
	for t, c := range am {
		if d, ok := bm[t]; ok {
			m := minu(c, d)
			am[t] = c - m
			bm[t] = d - m
			changed = true
		}
	}
	m := minu(ak, bk)
	if m > 0 {
		ak -= m
		bk -= m
		changed = true
	}
	if !changed {
		return a, b
	}
	return s.linBuild(a.W, am, ak), s.linBuild(b.W, bm, bk)
}

func (s *TS) Ult(a, b *Term) *Term {
	if a == b {
		return s.False
	}
	if a.Op == OConst && b.Op == OConst {
		return s.Bool(a.K < b.K)
	}
	if a.Hi < b.Lo {
		return s.True
	}
	if a.Lo >= b.Hi {
		return s.False
	}
	a2, b2 := s.cancel(a, b)
	if a2 != a || b2 != b {
		return s.Ult(a2, b2)
	}
	if b.Op == OConst && b.K == 1 {
		return s.Eq(a, s.Const(0, a.W))
	}
	if a.Op == OConst && a.K == 0 {
		return s.Not(s.Eq(b, a))
	}
	return s.intern(&Term{Op: OUlt, A: []*Term{a, b}})
}
func (s *TS) Ule(a, b *Term) *Term {
	if a == b {
		return s.True
	}
	if a.Op == OConst && b.Op == OConst {
		return s.Bool(a.K <= b.K)
	}
	if a.Hi <= b.Lo {
		return s.True
	}
	if a.Lo > b.Hi {
		return s.False
	}
	a2, b2 := s.cancel(a, b)
	if a2 != a || b2 != b {
		return s.Ule(a2, b2)
	}
	if b.Op == OConst && b.K == 0 {
		return s.Eq(a, b)
	}
	if a.Op == OConst && a.K == 1 {
		return s.Not(s.Eq(b, s.Const(0, b.W)))
	}
	return s.intern(&Term{Op: OUle, A: []*Term{a, b}})
}

func (s *TS) srange(t *Term) (int64, int64) {
	if t.Op == OSExt {
		return s.srange(t.A[0])
	}
	if s.nonneg(t) {
		return int64(t.Lo), int64(t.Hi)
	}
	if t.Lo >= uint64(1)<<uint(t.W-1) {
		return sx(t.Lo, t.W), sx(t.Hi, t.W)
	}
	if t.Op == OIte {
		al, ah := s.srange(t.A[1])
		bl, bh := s.srange(t.A[2])
		return mini(al, bl), maxi(ah, bh)
	}
	if t.Op == OAdd && t.W == 64 {
		// bounded sums
		lo, hi := int64(t.K), int64(t.K)
		if lo > -(1<<50) && lo < 1<<50 {
			ok := true
			for i, a := range t.A {
				c := int64(t.C[i])
				al, ah := s.srange(a)
				if al < -(1<<40) || ah > 1<<40 || c > 1<<12 || c < -(1<<12) {
					ok = false
					break
				}
				if c < 0 {
					al, ah = ah, al
				}
				lo += c * al
				hi += c * ah
			}
			if ok {
				return lo, hi
			}
		}
	}
	return -int64(uint64(1) << uint(t.W-1)), int64(mask(t.W - 1))
}
func mini(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}
func maxi(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}

func (s *TS) Slt(a, b *Term) *Term {
	if a == b {
		return s.False
	}
	if a.Op == OConst && b.Op == OConst {
		return s.Bool(sx(a.K, a.W) < sx(b.K, b.W))
	}
	if s.nonneg(a) && s.nonneg(b) {
		return s.Ult(a, b)
	}
	al, ah := s.srange(a)
	bl, bh := s.srange(b)
	if ah < bl {
		return s.True
	}
	if al >= bh {
		return s.False
	}
	return s.intern(&Term{Op: OSlt, A: []*Term{a, b}})
}
func (s *TS) Sle(a, b *Term) *Term {
	if a == b {
		return s.True
	}
	if a.Op == OConst && b.Op == OConst {
		return s.Bool(sx(a.K, a.W) <= sx(b.K, b.W))
	}
	if s.nonneg(a) && s.nonneg(b) {
		return s.Ule(a, b)
	}
	al, ah := s.srange(a)
	bl, bh := s.srange(b)
	if ah <= bl {
		return s.True
	}
	if al > bh {
		return s.False
	}
	return s.intern(&Term{Op: OSle, A: []*Term{a, b}})
}

func (s *TS) raw(op Op, w int, a ...*Term) *Term {
	return s.intern(&Term{Op: op, W: w, A: a})
}

// ---- SMT-LIB ----

func sortOf(w int) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func constStr(k uint64, w int) string {
	if w == 0 {
		if k == 1 {
			return "true"
		}
		return "false"
	}
	return fmt.Sprintf("(_ bv%d %d)", k, w)
}

func (t *Term) ref() string {
	if t.Op == OConst {
		return constStr(t.K, t.W)
	}
	return fmt.Sprintf("t%d", t.ID)
}

// emitDefs appends definitions for t (once) to b. decl is called for UF arrays.
func (t *Term) emitDefs(b *strings.Builder, arrs map[string]bool, seenVars *[]*Term, nar *narrower) {
	if t.emit || t.Op == OConst {
		return
	}
	// iterative post-order
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if f.t.emit || f.t.Op == OConst {
			st = st[:len(st)-1]
			continue
		}
		if f.i < len(f.t.A) {
			c := f.t.A[f.i]
			f.i++
			if !c.emit && c.Op != OConst {
				st = append(st, fr{c, 0})
			}
			continue
		}
		x := f.t
		x.emit = true
		st = st[:len(st)-1]
		switch x.Op {
		case OVar:
			if k := x.rangeBits(); k < x.W {
				fmt.Fprintf(b, "(declare-fun v%d () %s)\n", x.ID, sortOf(k))
				fmt.Fprintf(b, "(define-fun t%d () %s ((_ zero_extend %d) v%d))\n", x.ID, sortOf(x.W), x.W-k, x.ID)
			} else {
				fmt.Fprintf(b, "(declare-fun t%d () %s)\n", x.ID, sortOf(x.W))
			}
			*seenVars = append(*seenVars, x)
		case OSel:
			if !arrs[x.Name] {
				arrs[x.Name] = true
				fmt.Fprintf(b, "(declare-fun |%s| ((_ BitVec 64)) (_ BitVec 8))\n", x.Name)
			}
			fmt.Fprintf(b, "(define-fun t%d () (_ BitVec 8) (|%s| %s))\n", x.ID, x.Name, x.A[0].ref())
			*seenVars = append(*seenVars, x)
		case OEq, OUlt, OUle, OSlt, OSle:
			if k := nar.width(x); k > 0 {
				l := nar.ref(b, x.A[0], k)
				r := nar.ref(b, x.A[1], k)
				fmt.Fprintf(b, "(define-fun t%d () Bool (%s %s %s))\n", x.ID, opNames[x.Op], l, r)
				continue
			}
			fmt.Fprintf(b, "(define-fun t%d () Bool %s)\n", x.ID, x.body())
		default:
			fmt.Fprintf(b, "(define-fun t%d () %s %s)\n", x.ID, sortOf(x.W), x.body())
		}
	}
}

// rangeBits is the width that holds a ranged variable.
func (t *Term) rangeBits() int {
	if t.C == nil {
		return t.W
	}
	k := bits.Len64(t.C[1])
	if k == 0 {
		k = 1
	}
	return k
}

// narrower prints comparisons at the smallest width that preserves them.
type narrower struct {
	ts   *TS
	done map[[2]int]bool
}

func (n *narrower) width(c *Term) int {
	a, b := c.A[0], c.A[1]
	w := a.W
	if w < 24 {
		return 0
	}
	k := w
	if c.Op != OSlt && c.Op != OSle {
		k = bits.Len64(maxu(a.Hi, b.Hi))
	}
	al, ah := n.ts.srange(a)
	bl, bh := n.ts.srange(b)
	lo, hi := mini(al, bl), maxi(ah, bh)
	if lo < 0 {
		lo = -lo - 1
	}
	if lo >= 0 && hi >= 0 {
		if q := bits.Len64(maxu(uint64(lo), uint64(hi))) + 1; q < k {
			k = q
		}
	}
	if k < 1 {
		k = 1
	}
	if k > w-4 {
		return 0
	}
	return k
}

// ref names the low k bits of t.
func (n *narrower) ref(b *strings.Builder, t *Term, k int) string {
	if t.W == k {
		return t.ref()
	}
	switch t.Op {
	case OConst:
		return constStr(t.K&mask(k), k)
	case OVar, OAdd, OIte:
	default:
		return fmt.Sprintf("((_ extract %d 0) %s)", k-1, t.ref())
	}
	nm := fmt.Sprintf("n%d_%d", k, t.ID)
	key := [2]int{t.ID, k}
	if n.done[key] {
		return nm
	}
	n.done[key] = true
	var body string
	switch t.Op {
	case OVar:
		r := t.rangeBits()
		switch {
		case r == t.W:
			body = fmt.Sprintf("((_ extract %d 0) %s)", k-1, t.ref())
		case r == k:
			body = fmt.Sprintf("v%d", t.ID)
		case r < k:
			body = fmt.Sprintf("((_ zero_extend %d) v%d)", k-r, t.ID)
		default:
			body = fmt.Sprintf("((_ extract %d 0) v%d)", k-1, t.ID)
		}
	case OIte:
		x, y := n.ref(b, t.A[1], k), n.ref(b, t.A[2], k)
		body = "(ite " + t.A[0].ref() + " " + x + " " + y + ")"
	case OAdd:
		m := mask(k)
		var parts []string
		for i, a := range t.A {
			c := t.C[i] & m
			if c == 0 {
				continue
			}
			r := n.ref(b, a, k)
			switch c {
			case 1:
			case m:
				r = "(bvneg " + r + ")"
			default:
				r = "(bvmul " + constStr(c, k) + " " + r + ")"
			}
			parts = append(parts, r)
		}
		if t.K&m != 0 || len(parts) == 0 {
			parts = append(parts, constStr(t.K&m, k))
		}
		body = parts[0]
		for _, q := range parts[1:] {
			body = "(bvadd " + body + " " + q + ")"
		}
	}
	fmt.Fprintf(b, "(define-fun %s () %s %s)\n", nm, sortOf(k), body)
	return nm
}

var opNames = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite", OMul: "bvmul", OUDiv: "bvudiv", OURem: "bvurem",
	OSDiv: "bvsdiv", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr",
	OConcat: "concat", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle"}

func fpOf(t *Term) string {
	if t.W == 32 {
		return "((_ to_fp 8 24) " + t.ref() + ")"
	}
	return "((_ to_fp 11 53) " + t.ref() + ")"
}

func (t *Term) body() string {
	var b strings.Builder
	switch t.Op {
	case OAdd:
		n := 0
		for i, a := range t.A {
			last := i == len(t.A)-1 && t.K == 0
			if !last {
				b.WriteString("(bvadd ")
				n++
			}
			if t.C[i] == 1 {
				b.WriteString(a.ref())
			} else if t.C[i] == mask(t.W) {
				b.WriteString("(bvneg " + a.ref() + ")")
			} else {
				b.WriteString("(bvmul " + constStr(t.C[i], t.W) + " " + a.ref() + ")")
			}
			b.WriteByte(' ')
		}
		if t.K != 0 {
			b.WriteString(constStr(t.K, t.W))
		}
		b.WriteString(strings.Repeat(")", n))
		return b.String()
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", int(t.K)+t.W-1, t.K, t.A[0].ref())
	case OSExt:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.W-t.A[0].W, t.A[0].ref())
	case OFLt, OFLe, OFEq:
		nm := map[Op]string{OFLt: "fp.lt", OFLe: "fp.leq", OFEq: "fp.eq"}[t.Op]
		return "(" + nm + " " + fpOf(t.A[0]) + " " + fpOf(t.A[1]) + ")"
	case OFCvt:
		if t.W == 32 {
			return "(fp.to_ieee_bv ((_ to_fp 8 24) RNE " + fpOf(t.A[0]) + "))"
		}
		return "(fp.to_ieee_bv ((_ to_fp 11 53) RNE " + fpOf(t.A[0]) + "))"
	}
	b.WriteByte('(')
	b.WriteString(opNames[t.Op])
	for _, a := range t.A {
		b.WriteByte(' ')
		b.WriteString(a.ref())
	}
	b.WriteByte(')')
	return b.String()
}
