package main

import (
	"math"
)

// Model is an assignment of variables and sampled byte-array reads. Missing entries take a
// default value, so every model is total.
type Model struct {
	vars  map[int]uint64
	sels  map[string]map[uint64]uint64
	memo  map[int]uint64
	exact bool
}

func newModel() *Model {
	return &Model{vars: map[int]uint64{}, sels: map[string]map[uint64]uint64{}, memo: map[int]uint64{}}
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// eval evaluates t under m (iteratively on operands that are not memoised yet).
func (m *Model) eval(t *Term) uint64 {
	if t.Op == OConst {
		return t.K
	}
	if v, ok := m.memo[t.ID]; ok {
		return v
	}
	// explicit stack: terms can be deep
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if _, ok := m.memo[f.t.ID]; ok || f.t.Op == OConst {
			st = st[:len(st)-1]
			continue
		}
		if f.i < len(f.t.A) {
			c := f.t.A[f.i]
			f.i++
			if c.Op != OConst {
				if _, ok := m.memo[c.ID]; !ok {
					st = append(st, fr{c, 0})
				}
			}
			continue
		}
		x := f.t
		st = st[:len(st)-1]
		m.memo[x.ID] = m.eval1(x)
	}
	return m.memo[t.ID]
}

func (m *Model) arg(t *Term) uint64 {
	if t.Op == OConst {
		return t.K
	}
	return m.memo[t.ID]
}

func (m *Model) eval1(t *Term) uint64 {
	w := t.W
	mk := mask(w)
	a := func(i int) uint64 { return m.arg(t.A[i]) }
	switch t.Op {
	case OVar:
		if v, ok := m.vars[t.ID]; ok {
			return v
		}
		if t.C != nil {
			return t.C[0]
		}
		return 0
	case OSel:
		tb := m.sels[t.Name]
		if tb == nil {
			tb = map[uint64]uint64{}
			m.sels[t.Name] = tb
		}
		i := a(0)
		if v, ok := tb[i]; ok {
			return v
		}
		tb[i] = 0
		return 0
	case ONot:
		return 1 - a(0)
	case OAnd:
		for i := range t.A {
			if a(i) == 0 {
				return 0
			}
		}
		return 1
	case OOr:
		for i := range t.A {
			if a(i) == 1 {
				return 1
			}
		}
		return 0
	case OEq:
		return b2u(a(0) == a(1))
	case OIte:
		if a(0) == 1 {
			return a(1)
		}
		return a(2)
	case OAdd:
		s := t.K
		for i := range t.A {
			s += t.C[i] * a(i)
		}
		return s & mk
	case OMul:
		return a(0) * a(1) & mk
	case OUDiv:
		if a(1) == 0 {
			return mk
		}
		return a(0) / a(1)
	case OURem:
		if a(1) == 0 {
			return a(0)
		}
		return a(0) % a(1)
	case OSDiv:
		x, y := sx(a(0), w), sx(a(1), w)
		if y == 0 {
			if x < 0 {
				return 1
			}
			return mk
		}
		if y == -1 {
			return uint64(-x) & mk
		}
		return uint64(x/y) & mk
	case OSRem:
		x, y := sx(a(0), w), sx(a(1), w)
		if y == 0 {
			return a(0)
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & mk
	case OBAnd:
		return a(0) & a(1)
	case OBOr:
		return a(0) | a(1)
	case OBXor:
		return a(0) ^ a(1)
	case OShl:
		if a(1) >= uint64(w) {
			return 0
		}
		return a(0) << a(1) & mk
	case OLShr:
		if a(1) >= uint64(w) {
			return 0
		}
		return a(0) >> a(1)
	case OAShr:
		s := a(1)
		if s >= uint64(w) {
			s = uint64(w - 1)
		}
		return uint64(sx(a(0), w)>>s) & mk
	case OConcat:
		var v uint64
		for i, x := range t.A {
			v = v<<uint(x.W) | a(i)
		}
		return v
	case OExtract:
		return a(0) >> t.K & mk
	case OSExt:
		return uint64(sx(a(0), t.A[0].W)) & mk
	case OUlt:
		return b2u(a(0) < a(1))
	case OUle:
		return b2u(a(0) <= a(1))
	case OSlt:
		return b2u(sx(a(0), t.A[0].W) < sx(a(1), t.A[0].W))
	case OSle:
		return b2u(sx(a(0), t.A[0].W) <= sx(a(1), t.A[0].W))
	case OFLt:
		return b2u(toF(a(0), t.A[0].W) < toF(a(1), t.A[0].W))
	case OFLe:
		return b2u(toF(a(0), t.A[0].W) <= toF(a(1), t.A[0].W))
	case OFEq:
		return b2u(toF(a(0), t.A[0].W) == toF(a(1), t.A[0].W))
	case OFCvt:
		return fromF(toF(a(0), t.A[0].W), w)
	}
	panic("eval: op")
}

func toF(v uint64, w int) float64 {
	if w == 32 {
		return float64(math.Float32frombits(uint32(v)))
	}
	return math.Float64frombits(v)
}
func fromF(f float64, w int) uint64 {
	if w == 32 {
		return uint64(math.Float32bits(float32(f)))
	}
	return math.Float64bits(f)
}
