package main

// Constraint independence: a query under a path condition that a known model satisfies needs only the
// constraints that share variables, transitively, with what is asked.

type supp struct {
	vars []int // variables, and reads at constant indices
	arrs []string
	sym  []bool // whether arrs[i] is read at a symbolic index
}

// support lists what t depends on.
func (s *Solver) support(t *Term) *supp {
	if p, ok := s.supps[t.ID]; ok {
		return p
	}
	p := &supp{}
	seen := map[int]bool{}
	arr := map[string]int{}
	st := []*Term{t}
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if x.Op == OConst || seen[x.ID] {
			continue
		}
		seen[x.ID] = true
		switch x.Op {
		case OVar:
			p.vars = append(p.vars, x.ID)
		case OSel:
			i, ok := arr[x.Name]
			if !ok {
				i = len(p.arrs)
				arr[x.Name] = i
				p.arrs = append(p.arrs, x.Name)
				p.sym = append(p.sym, false)
			}
			if x.A[0].Op == OConst {
				p.vars = append(p.vars, x.ID)
			} else {
				p.sym[i] = true
				s.symArr[x.Name] = true
			}
		}
		st = append(st, x.A...)
	}
	if len(s.supps) > 1<<16 {
		s.supps = map[int]*supp{}
	}
	s.supps[t.ID] = p
	return p
}

// slice returns the constraints of pc that matter to extra, in order, or pc itself.
func (s *Solver) slice(pc []*Term, extra *Term) []*Term {
	if len(pc) < 6 {
		return pc
	}
	sup := make([]*supp, len(pc))
	for i, t := range pc {
		sup[i] = s.support(t)
	}
	in := map[int]bool{}
	ina := map[string]bool{}
	add := func(p *supp) {
		for _, v := range p.vars {
			in[v] = true
		}
		for _, a := range p.arrs {
			if s.symArr[a] {
				ina[a] = true
			}
		}
	}
	add(s.support(extra))
	use := make([]bool, len(pc))
	n := 0
	for again := true; again; {
		again = false
		for i, p := range sup {
			if use[i] {
				continue
			}
			hit := false
			for _, v := range p.vars {
				if in[v] {
					hit = true
					break
				}
			}
			for _, a := range p.arrs {
				hit = hit || ina[a]
			}
			if hit {
				use[i] = true
				n++
				add(p)
				again = true
			}
		}
	}
	if n > len(pc)*3/4 {
		return pc
	}
	out := make([]*Term, 0, n)
	for i, t := range pc {
		if use[i] {
			out = append(out, t)
		}
	}
	return out
}

// merge completes a model of a slice with base.
func (s *Solver) merge(m, base *Model) *Model {
	r := newModel()
	for k, v := range base.vars {
		r.vars[k] = v
	}
	for k, v := range m.vars {
		r.vars[k] = v
	}
	for a, tb := range base.sels {
		if s.symArr[a] && m.sels[a] != nil {
			continue
		}
		nt := make(map[uint64]uint64, len(tb))
		for k, v := range tb {
			nt[k] = v
		}
		r.sels[a] = nt
	}
	for a, tb := range m.sels {
		nt := r.sels[a]
		if nt == nil {
			nt = map[uint64]uint64{}
			r.sels[a] = nt
		}
		for k, v := range tb {
			nt[k] = v
		}
	}
	return r
}

// CheckFrom decides pc ∧ extra where base, if any, is a model of pc.
func (s *Solver) CheckFrom(pc []*Term, extra *Term, base *Model) (Res, *Model) {
	if base == nil || extra == nil || extra.Op == OConst {
		return s.Check(pc, extra)
	}
	if len(pc) > 0 && pc[len(pc)-1] == extra {
		return s.Check(pc, extra)
	}
	sl := s.slice(pc, extra)
	if len(sl) == len(pc) {
		return s.Check(pc, extra)
	}
	s.Sliced++
	r, m := s.Check(sl, extra)
	if r == Sat {
		m = s.merge(m, base)
	}
	return r, m
}
