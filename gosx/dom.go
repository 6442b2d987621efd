package main

// Byte-domain decision procedure in front of the SMT solver: a condition over
// a single 8-bit variable is decided exactly from the set of values the path
// condition leaves for it. Everything else goes to the solver.

type set256 [4]uint64

func (s *set256) has(v uint64) bool { return s[v>>6]>>(v&63)&1 == 1 }
func (s *set256) add(v uint64)      { s[v>>6] |= 1 << (v & 63) }
func (s set256) and(o set256) set256 {
	return set256{s[0] & o[0], s[1] & o[1], s[2] & o[2], s[3] & o[3]}
}
func (s set256) andNot(o set256) set256 {
	return set256{s[0] &^ o[0], s[1] &^ o[1], s[2] &^ o[2], s[3] &^ o[3]}
}
func (s set256) empty() bool { return s[0]|s[1]|s[2]|s[3] == 0 }

var full256 = set256{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}

// setVars records which variables t depends on: none, one, or several.
func (t *Term) setVars() {
	for _, x := range [3]*Term{t.a, t.b, t.c} {
		if x == nil || x.nv == 0 {
			continue
		}
		if x.nv == 2 {
			t.nv = 2
			return
		}
		if t.nv == 0 {
			t.nv, t.v1 = 1, x.v1
		} else if t.v1 != x.v1 {
			t.nv = 2
			return
		}
	}
}

func (t *Term) varList() []*Term {
	if t.vl != nil || t.nv == 0 {
		return t.vl
	}
	seen := map[*Term]bool{}
	var r []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || t.nv == 0 || seen[t] {
			return
		}
		seen[t] = true
		if t.op == oVar {
			r = append(r, t)
			return
		}
		if t.nv == 1 {
			if !seen[t.v1] {
				seen[t.v1] = true
				r = append(r, t.v1)
			}
			return
		}
		walk(t.a)
		walk(t.b)
		walk(t.c)
	}
	walk(t)
	t.vl = r
	return r
}

// sat8 returns the values of t's only variable (8 bits) that make t true.
func (m *Machine) sat8(t *Term) *set256 {
	if t.s8 != nil {
		return t.s8
	}
	if t.nv != 1 || t.v1.w != 8 || t.size > 20000 {
		return nil
	}
	md := make([]uint64, t.v1.val+1)
	s := &set256{}
	for v := uint64(0); v < 256; v++ {
		md[t.v1.val] = v
		m.tb.gen++
		if m.tb.Eval(t, md) == 1 {
			s.add(v)
		}
	}
	m.tb.gen++
	t.s8 = s
	return s
}

func (m *Machine) addPC(t *Term) {
	if t == m.tb.tTrue {
		return
	}
	m.pc = append(m.pc, t)
	if s := m.sat8(t); s != nil {
		d, ok := m.dom[t.v1]
		if !ok {
			d = full256
		}
		m.dom[t.v1] = d.and(*s)
		return
	}
	for _, v := range t.varList() {
		m.ent[v] = append(m.ent[v], t)
	}
}

// feasible decides pc ∧ c and gives a model when it is satisfiable.
func (m *Machine) feasible(c *Term) (int, []uint64) {
	if c.op == oConst {
		if c.val == 0 {
			return resUnsat, nil
		}
		return resSat, m.model
	}
	if s := m.sat8(c); s != nil {
		d, ok := m.dom[c.v1]
		if !ok {
			d = full256
		}
		r := d.and(*s)
		if r.empty() {
			m.mstats.domain++
			if len(m.tb.facts) < 48 {
				m.tb.facts = append(m.tb.facts, m.tb.Not(c))
			}
			return resUnsat, nil
		}
		ent := m.ent[c.v1]
		md := make([]uint64, len(m.tb.all))
		copy(md, m.model)
		tries := 0
		for v := uint64(0); v < 256 && tries < 3; v++ {
			if !r.has(v) {
				continue
			}
			tries++
			md[c.v1.val] = v
			good := true
			if len(ent) > 0 {
				m.tb.gen++
				for _, e := range ent {
					if m.tb.Eval(e, md) != 1 {
						good = false
						break
					}
				}
				m.tb.gen++
			}
			if good {
				m.mstats.domain++
				return resSat, md
			}
		}
	}
	m.prof("query")
	return m.solver.Check(m.pc, c)
}
