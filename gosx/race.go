package main

// Data races: while svRaces is on, each access of memory by Go code is checked
// against the accesses of other goroutines before, by vector clocks over the
// happens-before relation of the Go memory model (locks, wait groups, atomics,
// channels, starts of goroutines), as the race detector does, but on every
// explored path.

type raceKey struct {
	o   any
	off int
}

type raceAcc struct {
	g, clock int
	fn       string
}

type shadow struct {
	w raceAcc // last write
	r []raceAcc
}

type raceState struct {
	mem map[raceKey]*shadow
	rel map[raceKey][]int
}

func (g *Gor) tick(id int) {
	for len(g.vc) <= id {
		g.vc = append(g.vc, 0)
	}
	g.vc[id]++
}

func vcJoin(a, b []int) []int {
	for len(a) < len(b) {
		a = append(a, 0)
	}
	for i, x := range b {
		if x > a[i] {
			a[i] = x
		}
	}
	return a
}

func (g *Gor) saw(a raceAcc) bool {
	return a.clock == 0 || a.g == g.id || a.g < len(g.vc) && g.vc[a.g] >= a.clock
}

func relKey(p Value, kind int) (raceKey, bool) {
	switch o := p.p.(type) {
	case *Obj:
		return raceKey{o, int(p.n)<<2 | kind}, true
	case *ChanObj, *MapObj:
		return raceKey{o, kind}, true
	}
	return raceKey{}, false
}

// acquire and release order what is before the release before what is after
// the acquire.
func (m *Machine) acquire(p Value, kind int) {
	if m.races == nil {
		return
	}
	if k, ok := relKey(p, kind); ok {
		m.cur.vc = vcJoin(m.cur.vc, m.races.rel[k])
	}
}

func (m *Machine) release(p Value, kind int) {
	if m.races == nil {
		return
	}
	if k, ok := relKey(p, kind); ok {
		if len(m.cur.vc) <= m.cur.id {
			m.cur.tick(m.cur.id)
		}
		m.races.rel[k] = vcJoin(append([]int(nil), m.races.rel[k]...), m.cur.vc)
		m.cur.tick(m.cur.id)
	}
}

func (m *Machine) raceMem(p Value, n int, write bool) {
	if m.races == nil || len(m.gors) < 2 {
		return
	}
	if o, ok := p.p.(*Obj); ok {
		m.raceObj(o, int(p.n), n, write)
	}
}

func (m *Machine) raceObj(o any, off, n int, write bool) {
	if m.races == nil || len(m.gors) < 2 {
		return
	}
	if m.specDepth > 0 {
		panic(specAbort{})
	}
	g := m.cur
	if len(g.vc) <= g.id {
		g.tick(g.id)
	}
	fn := "?"
	if m.curFrame != nil {
		fn = m.curFrame.fn.name
	}
	acc := raceAcc{g.id, g.vc[g.id], fn}
	for i := 0; i < n; i++ {
		k := raceKey{o, off + i}
		s := m.races.mem[k]
		if s == nil {
			s = &shadow{}
			m.races.mem[k] = s
		}
		if !g.saw(s.w) {
			m.race(s.w.fn+" writes", fn, write)
		}
		if !write {
			found := false
			for j := range s.r {
				if s.r[j].g == g.id {
					s.r[j], found = acc, true
				}
			}
			if !found {
				s.r = append(s.r, acc)
			}
			continue
		}
		for _, r := range s.r {
			if !g.saw(r) {
				m.race(r.fn+" reads", fn, write)
			}
		}
		s.w, s.r = acc, nil
	}
}

func (m *Machine) race(other, fn string, write bool) {
	what := "read"
	if write {
		what = "written"
	}
	m.assertV(mkBool(false), "data race: "+other+" what is "+what+" by "+fn)
}
