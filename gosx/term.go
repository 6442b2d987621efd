package main

import (
	"fmt"
	"math/bits"
	"strconv"
	"strings"
)

// Bit-vector / boolean term DAG, hash-consed per machine.

type Op uint8

const (
	oConst Op = iota // val; w==0: bool
	oVar
	oNot // bool
	oAnd // bool
	oOr  // bool
	oEq  // any
	oUlt
	oSlt
	oIte
	oAdd
	oSub
	oMul
	oUDiv
	oSDiv
	oURem
	oSRem
	oBAnd
	oBOr
	oBXor
	oShl
	oLShr
	oAShr
	oExtract // val = low bit, w = width
	oZExt
	oSExt
)

type Term struct {
	op      Op
	w       uint8 // 0 = Bool
	val     uint64
	a, b, c *Term
	id      int32
	name    string
	emitted bool
	evGen   int32
	evVal   uint64
	size    int32
	nv      uint8 // variables: 0 none, 1 = v1, 2 several
	v1      *Term
	vl      []*Term
	s8      *set256
	rng     bool  // lo <= value <= hi (signed for 64 bits, else unsigned)
	lo, hi  int64 // under the assumptions made when its variables were created
	rc      *Term // of a variable: its range constraint
}

type termKey struct {
	op      Op
	w       uint8
	val     uint64
	a, b, c *Term
}

type TB struct {
	m      map[termKey]*Term
	vars   map[string]*Term
	all    []*Term // vars in order
	next   int32
	gen    int32
	tTrue  *Term
	tFals  *Term
	names  []string
	facts  []*Term // what the byte-domain procedure decided in this path
	ranges []rangeFact
	nfact  int64
}

// rangeFact is a comparison that ranges settled.
type rangeFact struct {
	op    Op
	a, b  *Term
	holds bool
}

// decided notes a comparison that ranges settled, for confirmation by the solver.
func (tb *TB) decided(op Op, a, b *Term, holds bool) *Term {
	tb.nfact++
	if len(tb.ranges) < 48 {
		tb.ranges = append(tb.ranges, rangeFact{op, a, b, holds})
	}
	return tb.Bool(holds)
}

// intText states that the facts do not all hold, in integer arithmetic: sums of
// terms with ranges do not wrap around; other terms are any integers in their
// range.
func rangeText(sb *strings.Builder, fs []rangeFact, pre string) {
	seen := map[*Term]bool{}
	lit := func(n int64) string {
		if n < 0 {
			return "(- " + strconv.FormatUint(uint64(-n), 10) + ")"
		}
		return strconv.FormatInt(n, 10)
	}
	side := func(t *Term) string {
		var c int64
		l, ok := linAdd(nil, t, 1, &c)
		if !ok {
			l, c = []linTerm{{t, 1}}, 0
		}
		e := "(+ 0 " + lit(c)
		for _, x := range l {
			n := fmt.Sprintf("%s_%d", pre, x.t.id)
			if !seen[x.t] {
				seen[x.t] = true
				fmt.Fprintf(sb, "(declare-const %s Int)(assert (and (<= %s %s) (<= %s %s)))\n", n, lit(x.t.lo), n, n, lit(x.t.hi))
			}
			e += fmt.Sprintf(" (* %s %s)", lit(x.k), n)
		}
		return e + ")"
	}
	var or []string
	for _, f := range fs {
		op := "="
		if f.op == oSlt {
			op = "<"
		}
		t := "(" + op + " " + side(f.a) + " " + side(f.b) + ")"
		if f.holds {
			t = "(not " + t + ")"
		}
		or = append(or, t)
	}
	fmt.Fprintf(sb, "(assert (or false %s))", strings.Join(or, " "))
}

func newTB() *TB {
	tb := &TB{m: map[termKey]*Term{}, vars: map[string]*Term{}, gen: 1}
	tb.tTrue = tb.mk(oConst, 0, 1, nil, nil, nil)
	tb.tFals = tb.mk(oConst, 0, 0, nil, nil, nil)
	return tb
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - uint(w)
	return int64(v<<sh) >> sh
}

func (tb *TB) mk(op Op, w uint8, val uint64, a, b, c *Term) *Term {
	k := termKey{op, w, val, a, b, c}
	if t, ok := tb.m[k]; ok {
		return t
	}
	t := &Term{op: op, w: w, val: val, a: a, b: b, c: c, id: tb.next}
	t.size = 1
	for _, x := range []*Term{a, b, c} {
		if x != nil {
			t.size += x.size
			if t.size > 1<<28 {
				t.size = 1 << 28
			}
		}
	}
	t.setVars()
	t.setRange()
	tb.next++
	tb.m[k] = t
	return t
}

const rngMax = int64(1) << 60

// setRange computes the interval of a term whose operations cannot overflow.
func (t *Term) setRange() {
	if t.w == 0 {
		return
	}
	set := func(lo, hi int64) {
		if t.w < 64 && (lo < 0 || uint64(hi) > mask(t.w)) {
			return
		}
		if lo >= -rngMax && hi <= rngMax {
			t.rng, t.lo, t.hi = true, lo, hi
		}
	}
	ok2 := t.a != nil && t.b != nil && t.a.rng && t.b.rng
	switch t.op {
	case oConst:
		if t.w == 64 {
			set(int64(t.val), int64(t.val))
		} else {
			set(int64(t.val), int64(t.val))
		}
	case oZExt:
		if t.a.rng && t.a.lo >= 0 {
			set(t.a.lo, t.a.hi)
		} else if t.a.w <= 32 {
			set(0, int64(mask(t.a.w)))
		}
	case oExtract:
		if t.val == 0 && t.a.rng && t.a.lo >= 0 && uint64(t.a.hi) <= mask(t.w) {
			set(t.a.lo, t.a.hi)
		}
	case oSExt:
		if t.a.rng && t.a.w < 64 && uint64(t.a.hi) <= mask(t.a.w-1) {
			set(t.a.lo, t.a.hi)
		}
	case oIte:
		if t.b.rng && t.c.rng {
			lo, hi := t.b.lo, t.b.hi
			if t.c.lo < lo {
				lo = t.c.lo
			}
			if t.c.hi > hi {
				hi = t.c.hi
			}
			set(lo, hi)
		}
	case oAdd:
		if ok2 {
			set(t.a.lo+t.b.lo, t.a.hi+t.b.hi)
		}
	case oSub:
		if ok2 {
			set(t.a.lo-t.b.hi, t.a.hi-t.b.lo)
		}
	case oMul:
		if ok2 {
			const lim = int64(1) << 30
			small := func(x *Term) bool { return x.lo > -lim && x.hi < lim }
			if small(t.a) && small(t.b) || t.a.lo == t.a.hi && t.a.lo == 0 || t.b.lo == t.b.hi && t.b.lo == 0 {
				p := [4]int64{t.a.lo * t.b.lo, t.a.lo * t.b.hi, t.a.hi * t.b.lo, t.a.hi * t.b.hi}
				lo, hi := p[0], p[0]
				for _, v := range p {
					if v < lo {
						lo = v
					}
					if v > hi {
						hi = v
					}
				}
				set(lo, hi)
			}
		}
	case oBAnd:
		if t.b.op == oConst && int64(t.b.val) >= 0 {
			hi := int64(t.b.val)
			if t.a.rng && t.a.lo >= 0 && t.a.hi < hi {
				hi = t.a.hi
			}
			set(0, hi)
		}
	case oUDiv:
		if ok2 && t.a.lo >= 0 && t.b.lo > 0 {
			set(t.a.lo/t.b.hi, t.a.hi/t.b.lo)
		}
	case oURem, oSRem:
		if ok2 && t.a.lo >= 0 && t.b.lo > 0 && (t.op == oURem || t.w == 64) {
			hi := t.b.hi - 1
			if t.a.hi < hi {
				hi = t.a.hi
			}
			set(0, hi)
		}
	}
	if !t.rng && t.w <= 32 {
		t.rng, t.lo, t.hi = true, 0, int64(mask(t.w))
	}
}

func (tb *TB) Const(v uint64, w uint8) *Term { return tb.mk(oConst, w, v&mask(w), nil, nil, nil) }
func (tb *TB) Bool(b bool) *Term {
	if b {
		return tb.tTrue
	}
	return tb.tFals
}

func (tb *TB) Var(name string, w uint8) *Term {
	k := name + "#" + strconv.Itoa(int(w))
	if t, ok := tb.vars[k]; ok {
		return t
	}
	t := &Term{op: oVar, w: w, id: tb.next, name: name, val: uint64(len(tb.all)), size: 1}
	tb.next++
	t.nv, t.v1 = 1, t
	t.setRange()
	tb.vars[k] = t
	tb.all = append(tb.all, t)
	return t
}

func (t *Term) isConst() bool { return t.op == oConst }

func (tb *TB) Not(a *Term) *Term {
	if a.op == oConst {
		return tb.Bool(a.val == 0)
	}
	if a.op == oNot {
		return a.a
	}
	return tb.mk(oNot, 0, 0, a, nil, nil)
}

func (tb *TB) And(a, b *Term) *Term {
	if a.op == oConst {
		if a.val == 0 {
			return a
		}
		return b
	}
	if b.op == oConst {
		if b.val == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == oNot && a.a == b) || (b.op == oNot && b.a == a) {
		return tb.tFals
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tb.mk(oAnd, 0, 0, a, b, nil)
}

func (tb *TB) Or(a, b *Term) *Term {
	if a.op == oConst {
		if a.val == 1 {
			return a
		}
		return b
	}
	if b.op == oConst {
		if b.val == 1 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == oNot && a.a == b) || (b.op == oNot && b.a == a) {
		return tb.tTrue
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tb.mk(oOr, 0, 0, a, b, nil)
}

func (tb *TB) Eq(a, b *Term) *Term {
	if a == b {
		return tb.tTrue
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width mismatch %d %d", a.w, b.w))
	}
	if a.op == oConst && b.op == oConst {
		return tb.Bool(a.val == b.val)
	}
	if b.op != oConst && a.op == oConst {
		a, b = b, a
	}
	if a.w == 0 {
		if b.op == oConst {
			if b.val == 1 {
				return a
			}
			return tb.Not(a)
		}
	}
	if b.op == oConst {
		switch a.op {
		case oIte:
			if a.b.op == oConst && a.c.op == oConst {
				x, y := a.b.val == b.val, a.c.val == b.val
				switch {
				case x && y:
					return tb.tTrue
				case x:
					return a.a
				case y:
					return tb.Not(a.a)
				default:
					return tb.tFals
				}
			}
			if a.b.op == oConst {
				if a.b.val == b.val {
					return tb.Or(a.a, tb.Eq(a.c, b))
				}
				return tb.And(tb.Not(a.a), tb.Eq(a.c, b))
			}
			if a.c.op == oConst {
				if a.c.val == b.val {
					return tb.Or(tb.Not(a.a), tb.Eq(a.b, b))
				}
				return tb.And(a.a, tb.Eq(a.b, b))
			}
		case oZExt:
			if b.val > mask(a.a.w) {
				return tb.tFals
			}
			return tb.Eq(a.a, tb.Const(b.val, a.a.w))
		case oSExt:
			if uint64(sext(b.val&mask(a.a.w), a.a.w))&mask(a.w) != b.val {
				return tb.tFals
			}
			return tb.Eq(a.a, tb.Const(b.val, a.a.w))
		case oAdd:
			if a.b.op == oConst {
				return tb.Eq(a.a, tb.Const(b.val-a.b.val, a.w))
			}
		}
	}
	if a.op == oZExt && b.op == oZExt && a.a.w == b.a.w {
		return tb.Eq(a.a, b.a)
	}
	if b.op != oConst && a.id > b.id {
		a, b = b, a
	}
	if a.rng && b.rng && (a.hi < b.lo || b.hi < a.lo) {
		return tb.decided(oEq, a, b, false)
	}
	if lo, hi, x, y, ok := tb.linCmp(a, b); ok {
		if hi < 0 || lo > 0 {
			return tb.decided(oEq, a, b, false)
		}
		if lo == 0 && hi == 0 {
			return tb.decided(oEq, a, b, true)
		}
		if x.size+y.size < a.size+b.size {
			return tb.Eq(x, y)
		}
	}
	return tb.mk(oEq, 0, 0, a, b, nil)
}

func (tb *TB) Ult(a, b *Term) *Term {
	if a == b {
		return tb.tFals
	}
	if a.op == oConst && b.op == oConst {
		return tb.Bool(a.val < b.val)
	}
	if b.op == oConst {
		if b.val == 0 {
			return tb.tFals
		}
		if b.val == 1 {
			return tb.Eq(a, tb.Const(0, a.w))
		}
		if a.op == oZExt {
			if b.val > mask(a.a.w) {
				return tb.tTrue
			}
			return tb.Ult(a.a, tb.Const(b.val, a.a.w))
		}
		if a.op == oIte && a.b.op == oConst && a.c.op == oConst {
			return tb.iteB(a.a, a.b.val < b.val, a.c.val < b.val)
		}
	}
	if a.op == oConst {
		if a.val == mask(a.w) {
			return tb.tFals
		}
		if b.op == oZExt {
			if a.val >= mask(b.a.w) {
				return tb.tFals
			}
			return tb.Ult(tb.Const(a.val, b.a.w), b.a)
		}
		if b.op == oIte && b.b.op == oConst && b.c.op == oConst {
			return tb.iteB(b.a, a.val < b.b.val, a.val < b.c.val)
		}
	}
	if a.op == oZExt && b.op == oZExt && a.a.w == b.a.w {
		return tb.Ult(a.a, b.a)
	}
	if a.rng && b.rng && a.lo >= 0 && b.lo >= 0 {
		if a.hi < b.lo {
			return tb.tTrue
		}
		if a.lo >= b.hi {
			return tb.tFals
		}
	}
	return tb.mk(oUlt, 0, 0, a, b, nil)
}

func (tb *TB) iteB(c *Term, x, y bool) *Term {
	switch {
	case x && y:
		return tb.tTrue
	case x:
		return c
	case y:
		return tb.Not(c)
	}
	return tb.tFals
}

func (tb *TB) Slt(a, b *Term) *Term {
	if a == b {
		return tb.tFals
	}
	if a.op == oConst && b.op == oConst {
		return tb.Bool(sext(a.val, a.w) < sext(b.val, b.w))
	}
	if b.op == oConst && a.op == oZExt {
		bv := sext(b.val, b.w)
		if bv <= 0 {
			return tb.tFals
		}
		if uint64(bv) > mask(a.a.w) {
			return tb.tTrue
		}
		return tb.Ult(a.a, tb.Const(uint64(bv), a.a.w))
	}
	if a.op == oConst && b.op == oZExt {
		av := sext(a.val, a.w)
		if av < 0 {
			return tb.tTrue
		}
		if uint64(av) >= mask(b.a.w) {
			return tb.tFals
		}
		return tb.Ult(tb.Const(uint64(av), b.a.w), b.a)
	}
	if a.op == oZExt && b.op == oZExt && a.a.w == b.a.w {
		return tb.Ult(a.a, b.a)
	}
	if b.op == oConst && a.op == oIte && a.b.op == oConst && a.c.op == oConst {
		bv := sext(b.val, b.w)
		return tb.iteB(a.a, sext(a.b.val, a.w) < bv, sext(a.c.val, a.w) < bv)
	}
	if a.op == oConst && b.op == oIte && b.b.op == oConst && b.c.op == oConst {
		av := sext(a.val, a.w)
		return tb.iteB(b.a, av < sext(b.b.val, b.w), av < sext(b.c.val, b.w))
	}
	if a.w == 64 && a.rng && b.rng {
		if a.hi < b.lo {
			return tb.decided(oSlt, a, b, true)
		}
		if a.lo >= b.hi {
			return tb.decided(oSlt, a, b, false)
		}
		if lo, hi, x, y, ok := tb.linCmp(a, b); ok {
			if hi < 0 {
				return tb.decided(oSlt, a, b, true)
			}
			if lo >= 0 {
				return tb.decided(oSlt, a, b, false)
			}
			if x.size+y.size < a.size+b.size {
				return tb.Slt(x, y)
			}
		}
	}
	return tb.mk(oSlt, 0, 0, a, b, nil)
}

// Linear forms. Sums of terms with known ranges do not overflow, so they can be
// compared as integers after cancelling what both sides share.

type linTerm struct {
	t *Term
	k int64
}

func isLin(t *Term) bool {
	return t.rng && t.w == 64 && (t.op == oAdd || t.op == oSub || t.op == oMul && t.b.op == oConst)
}

func linAdd(l []linTerm, t *Term, k int64, c *int64) ([]linTerm, bool) {
	if len(l) > 100 || k > 1<<20 || k < -(1<<20) {
		return nil, false
	}
	if t.op == oConst {
		v := int64(t.val)
		if v > rngMax>>21 || v < -(rngMax>>21) {
			if k != 1 && k != -1 {
				return nil, false
			}
		}
		*c += k * v
		return l, true
	}
	if isLin(t) && t.a.rng && t.b.rng {
		var ok bool
		switch t.op {
		case oAdd, oSub:
			if l, ok = linAdd(l, t.a, k, c); !ok {
				return nil, false
			}
			if t.op == oSub {
				k = -k
			}
			return linAdd(l, t.b, k, c)
		case oMul:
			if f := int64(t.b.val); f < 1<<20 && f > -(1<<20) && k*f < 1<<20 && k*f > -(1<<20) {
				return linAdd(l, t.a, k*f, c)
			}
		}
	}
	for i := range l {
		if l[i].t == t {
			l[i].k += k
			return l, true
		}
	}
	return append(l, linTerm{t, k}), true
}

// linCmp compares a and b: the sign of a-b as far as it is known (lo, hi), and
// equivalent simpler sides.
func (tb *TB) linCmp(a, b *Term) (lo, hi int64, x, y *Term, ok bool) {
	if !(a.rng && b.rng && a.w == 64 && (isLin(a) || isLin(b))) {
		return
	}
	var c int64
	l, ok := linAdd(nil, a, 1, &c)
	if ok {
		l, ok = linAdd(l, b, -1, &c)
	}
	if !ok {
		return
	}
	lo, hi = c, c
	var pos, neg *Term
	add := func(p *Term, t *Term, k int64) *Term {
		if k != 1 {
			t = tb.Bin(oMul, t, tb.Const(uint64(k), 64))
		}
		if p == nil {
			return t
		}
		return tb.Bin(oAdd, p, t)
	}
	const lim = rngMax >> 22
	for _, e := range l {
		if e.k == 0 {
			continue
		}
		if e.t.lo < -lim || e.t.hi > lim {
			return 0, 0, nil, nil, false
		}
		if e.k > 0 {
			lo, hi = lo+e.k*e.t.lo, hi+e.k*e.t.hi
			pos = add(pos, e.t, e.k)
		} else {
			lo, hi = lo+e.k*e.t.hi, hi+e.k*e.t.lo
			neg = add(neg, e.t, -e.k)
		}
	}
	if pos == nil {
		pos = tb.Const(0, 64)
	}
	if neg == nil {
		neg = tb.Const(0, 64)
	}
	if c > 0 {
		pos = tb.Bin(oAdd, pos, tb.Const(uint64(c), 64))
	} else if c < 0 {
		neg = tb.Bin(oAdd, neg, tb.Const(uint64(-c), 64))
	}
	if !pos.rng || !neg.rng {
		return 0, 0, nil, nil, false
	}
	return lo, hi, pos, neg, true
}

func (tb *TB) Ite(c, a, b *Term) *Term {
	if c.op == oConst {
		if c.val == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w != b.w {
		panic("Ite width mismatch")
	}
	if c.op == oNot {
		return tb.Ite(c.a, b, a)
	}
	if a.w == 0 {
		if a.op == oConst {
			if a.val == 1 {
				return tb.Or(c, b)
			}
			return tb.And(tb.Not(c), b)
		}
		if b.op == oConst {
			if b.val == 1 {
				return tb.Or(tb.Not(c), a)
			}
			return tb.And(c, a)
		}
	}
	if a.op == oIte && a.a == c {
		a = a.b
	}
	if b.op == oIte && b.a == c {
		b = b.c
	}
	if a == b {
		return a
	}
	return tb.mk(oIte, a.w, 0, c, a, b)
}

func foldBin(op Op, w uint8, x, y uint64) (uint64, bool) {
	m := mask(w)
	switch op {
	case oAdd:
		return (x + y) & m, true
	case oSub:
		return (x - y) & m, true
	case oMul:
		return (x * y) & m, true
	case oUDiv:
		if y == 0 {
			return m, true
		}
		return x / y, true
	case oURem:
		if y == 0 {
			return x, true
		}
		return x % y, true
	case oSDiv:
		sx, sy := sext(x, w), sext(y, w)
		if sy == 0 {
			if sx < 0 {
				return 1, true
			}
			return m, true
		}
		if sy == -1 {
			return uint64(-sx) & m, true
		}
		return uint64(sx/sy) & m, true
	case oSRem:
		sx, sy := sext(x, w), sext(y, w)
		if sy == 0 {
			return x, true
		}
		if sy == -1 {
			return 0, true
		}
		return uint64(sx%sy) & m, true
	case oBAnd:
		return x & y, true
	case oBOr:
		return x | y, true
	case oBXor:
		return x ^ y, true
	case oShl:
		if y >= uint64(w) {
			return 0, true
		}
		return (x << y) & m, true
	case oLShr:
		if y >= uint64(w) {
			return 0, true
		}
		return x >> y, true
	case oAShr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sext(x, w)>>y) & m, true
	}
	return 0, false
}

func (tb *TB) Bin(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("Bin width mismatch %d %d op %d", a.w, b.w, op))
	}
	w := a.w
	if a.op == oConst && b.op == oConst {
		v, _ := foldBin(op, w, a.val, b.val)
		return tb.Const(v, w)
	}
	switch op {
	case oAdd, oMul, oBAnd, oBOr, oBXor:
		if a.op == oConst {
			a, b = b, a
		}
	}
	if b.op == oConst {
		switch op {
		case oAdd, oSub, oBOr, oBXor, oShl, oLShr, oAShr:
			if b.val == 0 {
				return a
			}
		case oMul:
			if b.val == 1 {
				return a
			}
			if b.val == 0 {
				return b
			}
		case oBAnd:
			if b.val == 0 {
				return b
			}
			if b.val == mask(w) {
				return a
			}
			if a.rng && a.lo >= 0 {
				low := b.val & -b.val // lowest bit of the mask
				if uint64(a.hi) < low {
					return tb.Const(0, w)
				}
				if b.val&(b.val+1) == 0 && uint64(a.hi) <= b.val {
					return a
				}
				// a mask with low bits 0..k set
				n := bits.TrailingZeros64(^b.val)
				if n < 63 && uint64(a.hi) < uint64(1)<<uint(n) {
					return a
				}
			}
		case oUDiv, oSDiv:
			if b.val == 1 {
				return a
			}
			if (op == oUDiv || w == 64) && a.rng && a.lo >= 0 && int64(b.val) > 0 && a.hi < int64(b.val) {
				return tb.Const(0, w)
			}
		case oURem, oSRem:
			if (op == oURem || w == 64) && a.rng && a.lo >= 0 && int64(b.val) > 0 && a.hi < int64(b.val) {
				return a
			}
		}
		if op == oSub {
			return tb.Bin(oAdd, a, tb.Const(-b.val, w))
		}
		if op == oAdd && a.op == oAdd && a.b.op == oConst {
			return tb.Bin(oAdd, a.a, tb.Const(a.b.val+b.val, w))
		}
		// push through ite of constants
		if a.op == oIte && a.b.op == oConst && a.c.op == oConst {
			x, _ := foldBin(op, w, a.b.val, b.val)
			y, _ := foldBin(op, w, a.c.val, b.val)
			return tb.Ite(a.a, tb.Const(x, w), tb.Const(y, w))
		}
	}
	if a == b {
		switch op {
		case oSub, oBXor:
			return tb.Const(0, w)
		case oBAnd, oBOr:
			return a
		}
	}
	switch op {
	case oAdd, oMul, oBAnd, oBOr, oBXor:
		if b.op != oConst && a.id > b.id {
			a, b = b, a
		}
	}
	return tb.mk(op, w, 0, a, b, nil)
}

func (tb *TB) Extract(a *Term, lo, w uint8) *Term {
	if lo == 0 && w == a.w {
		return a
	}
	switch a.op {
	case oConst:
		return tb.Const(a.val>>lo, w)
	case oZExt, oSExt:
		if lo == 0 {
			if w == a.a.w {
				return a.a
			}
			if w < a.a.w {
				return tb.Extract(a.a, 0, w)
			}
			if a.op == oZExt {
				return tb.ZExt(a.a, w)
			}
			return tb.SExt(a.a, w)
		}
	case oIte:
		if a.b.op == oConst || a.c.op == oConst {
			return tb.Ite(a.a, tb.Extract(a.b, lo, w), tb.Extract(a.c, lo, w))
		}
	case oAdd, oSub, oBAnd, oBOr, oBXor:
		if lo == 0 && !(a.rng && a.lo >= 0 && uint64(a.hi) <= mask(w)) {
			return tb.Bin(a.op, tb.Extract(a.a, 0, w), tb.Extract(a.b, 0, w))
		}
	}
	return tb.mk(oExtract, w, uint64(lo), a, nil, nil)
}

func (tb *TB) ZExt(a *Term, w uint8) *Term {
	if w == a.w {
		return a
	}
	if a.op == oConst {
		return tb.Const(a.val, w)
	}
	if a.op == oZExt {
		return tb.ZExt(a.a, w)
	}
	if a.op == oExtract && a.val == 0 && a.a.w == w && a.a.rng && a.a.lo >= 0 && uint64(a.a.hi) <= mask(a.w) {
		return a.a
	}
	if a.op == oIte && (a.b.op == oConst || a.c.op == oConst) {
		return tb.Ite(a.a, tb.ZExt(a.b, w), tb.ZExt(a.c, w))
	}
	return tb.mk(oZExt, w, 0, a, nil, nil)
}

func (tb *TB) SExt(a *Term, w uint8) *Term {
	if w == a.w {
		return a
	}
	if a.op == oConst {
		return tb.Const(uint64(sext(a.val, a.w)), w)
	}
	if a.op == oZExt {
		return tb.ZExt(a.a, w)
	}
	if a.op == oExtract && a.val == 0 && a.a.w == w && w == 64 && a.a.rng && a.a.lo >= -int64(mask(a.w-1))-1 && a.a.hi <= int64(mask(a.w-1)) {
		return a.a
	}
	if a.op == oIte && (a.b.op == oConst || a.c.op == oConst) {
		return tb.Ite(a.a, tb.SExt(a.b, w), tb.SExt(a.c, w))
	}
	return tb.mk(oSExt, w, 0, a, nil, nil)
}

// Eval evaluates t under model (indexed by var index).
func (tb *TB) Eval(t *Term, model []uint64) uint64 {
	if t.op == oConst {
		return t.val
	}
	if t.evGen == tb.gen {
		return t.evVal
	}
	var v uint64
	switch t.op {
	case oVar:
		if int(t.val) < len(model) {
			v = model[t.val]
		}
	case oNot:
		v = 1 - tb.Eval(t.a, model)
	case oAnd:
		v = tb.Eval(t.a, model)
		if v == 1 {
			v = tb.Eval(t.b, model)
		}
	case oOr:
		v = tb.Eval(t.a, model)
		if v == 0 {
			v = tb.Eval(t.b, model)
		}
	case oEq:
		if tb.Eval(t.a, model) == tb.Eval(t.b, model) {
			v = 1
		}
	case oUlt:
		if tb.Eval(t.a, model) < tb.Eval(t.b, model) {
			v = 1
		}
	case oSlt:
		if sext(tb.Eval(t.a, model), t.a.w) < sext(tb.Eval(t.b, model), t.b.w) {
			v = 1
		}
	case oIte:
		if tb.Eval(t.a, model) == 1 {
			v = tb.Eval(t.b, model)
		} else {
			v = tb.Eval(t.c, model)
		}
	case oExtract:
		v = (tb.Eval(t.a, model) >> t.val) & mask(t.w)
	case oZExt:
		v = tb.Eval(t.a, model)
	case oSExt:
		v = uint64(sext(tb.Eval(t.a, model), t.a.w)) & mask(t.w)
	default:
		v, _ = foldBin(t.op, t.w, tb.Eval(t.a, model), tb.Eval(t.b, model))
	}
	t.evGen = tb.gen
	t.evVal = v
	return v
}

// --- SMT-LIB emission ---

func (t *Term) ref() string {
	switch t.op {
	case oConst:
		if t.w == 0 {
			if t.val == 1 {
				return "true"
			}
			return "false"
		}
		if t.w%4 == 0 {
			return fmt.Sprintf("#x%0*x", int(t.w/4), t.val)
		}
		return fmt.Sprintf("#b%0*b", int(t.w), t.val)
	case oVar:
		return "v" + strconv.Itoa(int(t.val))
	}
	return "t" + strconv.Itoa(int(t.id))
}

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

var opNames = map[Op]string{oNot: "not", oAnd: "and", oOr: "or", oEq: "=", oUlt: "bvult", oSlt: "bvslt", oIte: "ite",
	oAdd: "bvadd", oSub: "bvsub", oMul: "bvmul", oUDiv: "bvudiv", oSDiv: "bvsdiv", oURem: "bvurem", oSRem: "bvsrem",
	oBAnd: "bvand", oBOr: "bvor", oBXor: "bvxor", oShl: "bvshl", oLShr: "bvlshr", oAShr: "bvashr"}

// emit writes definitions for t (and its subterms) not yet emitted.
func (t *Term) emit(sb *strings.Builder) {
	if t.emitted || t.op == oConst {
		return
	}
	t.emitted = true
	if t.op == oVar {
		fmt.Fprintf(sb, "(declare-const %s %s)\n", t.ref(), sortName(t.w))
		return
	}
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			x.emit(sb)
		}
	}
	fmt.Fprintf(sb, "(define-fun %s () %s ", t.ref(), sortName(t.w))
	switch t.op {
	case oExtract:
		fmt.Fprintf(sb, "((_ extract %d %d) %s)", int(t.val)+int(t.w)-1, t.val, t.a.ref())
	case oZExt:
		fmt.Fprintf(sb, "((_ zero_extend %d) %s)", t.w-t.a.w, t.a.ref())
	case oSExt:
		fmt.Fprintf(sb, "((_ sign_extend %d) %s)", t.w-t.a.w, t.a.ref())
	default:
		sb.WriteString("(")
		sb.WriteString(opNames[t.op])
		for _, x := range []*Term{t.a, t.b, t.c} {
			if x != nil {
				sb.WriteString(" ")
				sb.WriteString(x.ref())
			}
		}
		sb.WriteString(")")
	}
	sb.WriteString(")\n")
}

var _ = bits.Len
