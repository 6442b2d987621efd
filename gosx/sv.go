package main

import (
	"fmt"
	"os"
	"strings"
)

func (m *Machine) ndKey(name string) string {
	k := m.ndCount[name]
	m.ndCount[name]++
	if k == 0 {
		return name
	}
	return fmt.Sprintf("%s.%d", name, k)
}

func (m *Machine) ndVar(name string, w uint8) *Term {
	key := m.ndKey(name)
	t := m.tb.Var(key, w)
	m.nondet = append(m.nondet, nondetRec{Name: name, Key: key, W: int(w), term: t})
	return t
}

func initSV() {
	svNatives = map[string]native{}
	S := svNatives
	S["svSym"] = func(m *Machine, a []Value) Value { return mkBool(true) }
	S["svTier"] = func(m *Machine, a []Value) Value { return mkInt(m.eng.tier) }
	S["svByte"] = func(m *Machine, a []Value) Value { return tv(m.ndVar(m.goString(a[0]), 8)) }
	S["svBool"] = func(m *Machine, a []Value) Value {
		t := m.ndVar(m.goString(a[0]), 8)
		b := m.tb.Ult(t, m.tb.Const(2, 8))
		m.assume(tv(b))
		return tv(m.tb.Eq(t, m.tb.Const(1, 8)))
	}
	S["svU64"] = func(m *Machine, a []Value) Value { return tv(m.ndVar(m.goString(a[0]), 64)) }
	S["svI64"] = S["svU64"]
	S["svInt"] = func(m *Machine, a []Value) Value {
		tb := m.tb
		lo, hi := m.term(a[1], 64), m.term(a[2], 64)
		if lo.op != oConst || hi.op != oConst {
			t := m.ndVar(m.goString(a[0]), 64)
			m.assume(tv(tb.And(tb.Not(tb.Slt(t, lo)), tb.Not(tb.Slt(hi, t)))))
			return tv(t)
		}
		if int64(lo.val) > int64(hi.val) {
			panic(&pathAbort{"infeasible", ""})
		}
		name := m.goString(a[0])
		key := m.ndKey(name)
		t := tb.Var(fmt.Sprintf("%s[%d..%d]", key, int64(lo.val), int64(hi.val)), 64)
		m.nondet = append(m.nondet, nondetRec{Name: name, Key: key, W: 64, term: t})
		if t.rc == nil {
			t.rc = tb.And(tb.Not(tb.Slt(t, lo)), tb.Not(tb.Slt(hi, t)))
			if l, h := int64(lo.val), int64(hi.val); l >= -rngMax && h <= rngMax {
				t.rng, t.lo, t.hi = true, l, h
			}
		}
		m.assume(tv(t.rc))
		return tv(t)
	}
	S["svChoose"] = func(m *Machine, a []Value) Value {
		name := m.goString(a[0])
		n := m.intOf(a[1])
		if n <= 0 {
			panic(&pathAbort{"infeasible", ""})
		}
		key := m.ndKey(name)
		k := m.choose(n)
		m.nondet = append(m.nondet, nondetRec{Name: name, Key: key, W: 64, Val: uint64(k), conc: true})
		return mkInt(k)
	}
	// svPick: a symbolic byte below n; branches on it fork.
	S["svPick"] = func(m *Machine, a []Value) Value {
		t := m.ndVar(m.goString(a[0]), 8)
		n := m.intOf(a[1])
		m.assume(tv(m.tb.Ult(t, m.tb.Const(uint64(n), 8))))
		return tv(m.tb.ZExt(t, 64))
	}
	S["svStr"] = func(m *Machine, a []Value) Value {
		name := m.goString(a[0])
		n := m.intOf(a[1])
		b := make([]Value, n)
		base := m.ndKey(name)
		for i := range b {
			key := fmt.Sprintf("%s[%d]", base, i)
			t := m.tb.Var(key, 8)
			m.nondet = append(m.nondet, nondetRec{Name: name, Key: key, W: 8, term: t})
			b[i] = tv(t)
		}
		return mkSymStr(b)
	}
	// svStrIn(name, n, alphabet): "a-z0-9_" style ranges
	S["svStrIn"] = func(m *Machine, a []Value) Value {
		name := m.goString(a[0])
		n := m.intOf(a[1])
		alpha := m.goString(a[2])
		b := make([]Value, n)
		base := m.ndKey(name)
		for i := range b {
			key := fmt.Sprintf("%s[%d]", base, i)
			t := m.tb.Var(key, 8)
			m.nondet = append(m.nondet, nondetRec{Name: name, Key: key, W: 8, term: t})
			m.assume(tv(m.inAlpha(t, alpha)))
			b[i] = tv(t)
		}
		return mkSymStr(b)
	}
	S["svAssume"] = func(m *Machine, a []Value) Value { m.assume(a[0]); return Value{} }
	S["svAssert"] = func(m *Machine, a []Value) Value { m.assertV(a[0], m.msg(a[1])); return Value{} }
	S["svReach"] = func(m *Machine, a []Value) Value { m.reached[m.goString(a[0])] = true; return Value{} }
	S["svNote"] = func(m *Machine, a []Value) Value {
		m.notes = append(m.notes, m.goString(a[0])+"="+m.msg(a[1]))
		return Value{}
	}
	S["svMapOrder"] = func(m *Machine, a []Value) Value { m.mapOrder = a[0].n != 0; return Value{} }
	S["svRaces"] = func(m *Machine, a []Value) Value {
		m.races = &raceState{map[raceKey]*shadow{}, map[raceKey][]int{}}
		return Value{}
	}
	S["svGor"] = func(m *Machine, a []Value) Value { return mkInt(m.cur.id) }
	S["svPreempt"] = func(m *Machine, a []Value) Value { m.preempt, m.preemptLeft = a[0].n != 0, int(a[0].n); return Value{} }
	S["svTerminates"] = func(m *Machine, a []Value) Value { m.side["terminates"] = true; return Value{} }
	S["svObs"] = func(m *Machine, a []Value) Value {
		m.obs = append(m.obs, obsRec{m.goString(a[0]), a[1], false})
		return Value{}
	}
	S["svObsI"] = func(m *Machine, a []Value) Value {
		m.obs = append(m.obs, obsRec{m.goString(a[0]), a[1], true})
		return Value{}
	}
	S["svTempDir"] = func(m *Machine, a []Value) Value { return mkStr("/vfs") }
	// svConc forks until v is concrete
	S["svConc"] = func(m *Machine, a []Value) Value { return mkInt(m.intOf(a[0])) }
	// svAnd/svOr/svNot/svImp build conditions without forking
	S["svAnd"] = func(m *Machine, a []Value) Value { return tv(m.tb.And(m.term(a[0], 0), m.term(a[1], 0))) }
	S["svOr"] = func(m *Machine, a []Value) Value { return tv(m.tb.Or(m.term(a[0], 0), m.term(a[1], 0))) }
	S["svImp"] = func(m *Machine, a []Value) Value {
		return tv(m.tb.Or(m.tb.Not(m.term(a[0], 0)), m.term(a[1], 0)))
	}
	S["svDebug"] = func(m *Machine, a []Value) Value {
		if os.Getenv("GOSX_NOTES") != "" {
			fmt.Println("debug:", m.msg(a[0]))
		}
		return Value{}
	}
	for k := range S {
		switch k {
		case "svAnd", "svOr", "svImp":
			pureNatives[k] = true
		}
	}
}

type obsRec struct {
	k   string
	v   Value
	num bool
}

func (m *Machine) obsText(o obsRec) string {
	if !o.num {
		return m.msg(o.v)
	}
	if o.v.p == nil {
		return fmt.Sprint(int64(o.v.n))
	}
	return fmt.Sprint(int64(m.tb.Eval(o.v.p.(*Term), m.model)))
}

func (m *Machine) inAlpha(t *Term, alpha string) *Term {
	tb := m.tb
	r := tb.tFals
	for i := 0; i < len(alpha); i++ {
		if i+2 < len(alpha) && alpha[i+1] == '-' {
			lo, hi := tb.Const(uint64(alpha[i]), 8), tb.Const(uint64(alpha[i+2]), 8)
			r = tb.Or(r, tb.And(tb.Not(tb.Ult(t, lo)), tb.Not(tb.Ult(hi, t))))
			i += 2
			continue
		}
		r = tb.Or(r, tb.Eq(t, tb.Const(uint64(alpha[i]), 8)))
	}
	return r
}

// msg renders a possibly symbolic string under the current model.
func (m *Machine) msg(v Value) string {
	var sb strings.Builder
	for _, b := range strBytes(v) {
		if b.p == nil {
			sb.WriteByte(byte(b.n))
		} else {
			sb.WriteByte(byte(m.tb.Eval(b.p.(*Term), m.model)))
		}
	}
	return sb.String()
}
