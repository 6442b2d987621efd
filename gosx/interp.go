package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"os"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

type Machine struct {
	dom     map[*Term]set256
	ent     map[*Term][]*Term
	eng     *Engine
	tb      *TB
	solver  *Solver
	tis     map[types.Type]*TI
	tiCanon *typeutil.Map
	fns     map[*ssa.Function]*Fn
	fvals   map[*ssa.Function]*Closure
	globals map[*ssa.Global]*Obj
	tByte   *TI
	tInt    *TI
	tString *TI
	tBytes  *TI
	tErr    *TI
	tAny    *TI
	tRune   *TI
	objID   int32
	epoch   int32
	undo    []undoRec

	// path state
	h         *Harness
	prefix    []decision
	pos       int
	trace     []decision
	pc        []*Term
	model     []uint64
	steps     int64
	maxSteps  int64
	nextClock int64
	depth     int
	specDepth int
	curFrame  *Frame
	merges    int64
	nondet    []nondetRec
	ndCount   map[string]int
	asserts   int
	reached   map[string]bool
	notes     []string
	inInit    bool
	mapOrder  bool
	side      map[string]any

	// scheduler
	gors        []*Gor
	cur         *Gor
	preempt     bool
	preemptLeft int // switches away from a goroutine that could go on
	fatal       any
	races       *raceState

	mstats machStats
	obs    []obsRec
	fnIDs  map[*Fn]uint64
	fnByID []*Fn
	anyIDs map[any]uint64
}

type machStats struct {
	decisions                             int64
	domain                                int
	paths, infeasible, asserts, assertSym int
	steps                                 int64
}

type Frame struct {
	fn      *Fn
	regs    []Value
	caller  *Frame
	defers  []*deferRec
	panic   *targetPanic
	recov   bool
	defBy   *Frame
	blk     int
	pos     token.Pos // of the last call
	results []Value
}

type deferRec struct {
	fn   *Closure
	m    func() Value
	name string
}

type targetPanic struct {
	v     Value // interface value
	stack string
	rt    bool
}

type pathAbort struct {
	kind string // infeasible, unsupported, budget, violation, stop
	msg  string
}

func (m *Machine) unsupported(f string, a ...any) {
	if m.specDepth > 0 {
		panic(specAbort{})
	}
	panic(&pathAbort{"unsupported", fmt.Sprintf(f, a...) + m.where()})
}

func (m *Machine) where() string {
	var sb strings.Builder
	n := 0
	for f := m.curFrame; f != nil && n < 12; f = f.caller {
		fmt.Fprintf(&sb, "\n\tin %s", f.fn.name)
		n++
	}
	return sb.String()
}

func (fr *Frame) get(r int32) Value {
	if r >= 0 {
		return fr.regs[r]
	}
	if r == noReg {
		return Value{}
	}
	return fr.fn.consts[-r-1]
}

func (m *Machine) rtPanic(msg string) {
	if m.specDepth > 0 {
		panic(specAbort{})
	}
	ti := m.eng.rtErrTI(m)
	var v Value
	if ti != nil {
		v = Value{p: &Iface{ti, mkStr(msg)}}
	} else {
		v = Value{p: &Iface{m.tString, mkStr("runtime error: " + msg)}}
	}
	panic(&targetPanic{v: v, stack: m.where(), rt: true})
}

func (m *Machine) nilDeref() {
	if os.Getenv("GOSX_DEBUG") != "" {
		fmt.Println("nil dereference", m.where())
	}
	m.rtPanic("invalid memory address or nil pointer dereference")
}

func (m *Machine) call(fn *Fn, args []Value, bind []Value) Value {
	return m.callD(fn, args, bind, nil)
}

func (m *Machine) callD(fn *Fn, args []Value, bind []Value, defBy *Frame) Value {
	if fn.redirect != nil {
		fn = fn.redirect
	}
	if fn.nat != nil {
		return fn.nat(m, args)
	}
	if fn.short != nil {
		if v, ok := fn.short(args); ok {
			return v
		}
	}
	if !fn.compiled {
		m.compile(fn)
	}
	if fn.bad != "" {
		m.unsupported("%s", fn.bad)
	}
	m.depth++
	if m.depth > 6000 {
		m.depth = 0
		if m.specDepth > 0 {
			panic(specAbort{})
		}
		panic(&pathAbort{"budget", "call depth" + m.where()})
	}
	fn.hits++
	fr := &Frame{fn: fn, regs: make([]Value, fn.nregs), caller: m.curFrame, defBy: defBy}
	copy(fr.regs, args)
	copy(fr.regs[len(args):], bind)
	m.curFrame = fr
	d := m.depth
	var ret Value
	if fn.hasDefer {
		ret = m.runDefer(fr)
	} else {
		ret = m.exec(fr, 0)
	}
	m.depth = d - 1
	m.curFrame = fr.caller
	return ret
}

func (m *Machine) runDefer(fr *Frame) (ret Value) {
	d := m.depth
	func() {
		defer func() {
			if r := recover(); r != nil {
				tp, ok := r.(*targetPanic)
				if !ok {
					panic(r)
				}
				fr.panic = tp
			}
		}()
		ret = m.exec(fr, 0)
	}()
	if fr.panic == nil {
		return ret
	}
	m.depth = d
	m.curFrame = fr
	for len(fr.defers) > 0 {
		df := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			defer func() {
				if r := recover(); r != nil {
					tp, ok := r.(*targetPanic)
					if !ok {
						panic(r)
					}
					fr.panic = tp
				}
			}()
			m.runDeferred(fr, df)
		}()
		m.depth = d
		m.curFrame = fr
	}
	if fr.panic != nil {
		panic(fr.panic)
	}
	if fr.fn.recoverB >= 0 {
		return m.exec(fr, fr.fn.recoverB)
	}
	if fr.fn.retTI == nil {
		return Value{}
	}
	return zero(fr.fn.retTI)
}

func (m *Machine) runDeferred(fr *Frame, df *deferRec) {
	if df.m != nil {
		df.m()
		return
	}
}

func (m *Machine) packResults(fn *Fn, vs []Value) Value {
	switch len(vs) {
	case 0:
		return Value{}
	case 1:
		return vs[0]
	}
	return m.pack(fn.retTI, vs)
}

func (m *Machine) pack(tt *TI, vs []Value) Value {
	r := make([]Value, tt.slots)
	for i, ft := range tt.ft {
		if ft.agg() {
			copy(r[tt.foff[i]:], vs[i].p.([]Value))
		} else {
			r[tt.foff[i]] = vs[i]
		}
	}
	return Value{p: r}
}

// packN packs single-slot values in a tuple.
func packN(vs ...Value) Value { return Value{p: append([]Value(nil), vs...)} }

func (m *Machine) exec(fr *Frame, bi int) Value {
	fn := fr.fn
	b := fn.blocks[bi]
	pred := -1
	phisDone := false
	for {
		if b.nphi > 0 && !phisDone {
			ei := predIndex(b, pred)
			if b.nphi == 1 {
				fr.regs[b.ins[0].dst] = fr.get(b.ins[0].args[ei])
			} else {
				var buf [8]Value
				vals := buf[:0]
				for k := 0; k < b.nphi; k++ {
					vals = append(vals, fr.get(b.ins[k].args[ei]))
				}
				for k := 0; k < b.nphi; k++ {
					fr.regs[b.ins[k].dst] = vals[k]
				}
			}
		}
		phisDone = false
		if m.specDepth > 0 && b.panics() {
			panic(specAbort{}) // before what the block does on its way to the panic
		}
		m.steps += int64(len(b.ins))
		if m.steps > m.nextClock {
			m.nextClock = m.steps + 2_000_000
			m.prof("steps")
			if m.specDepth == 0 && !m.inInit && m.overdue() {
				panic(&pathAbort{"budget", "time budget reached within a path"})
			}
		}
		if m.steps > m.maxSteps {
			if m.specDepth > 0 {
				panic(specAbort{})
			}
			panic(&pathAbort{"budget", "step budget" + m.where()})
		}
		fr.blk = b.idx
		next := -1
	loop:
		for k := b.nphi; k < len(b.ins); k++ {
			in := &b.ins[k]
			switch in.op {
			case iJump:
				next = b.succs[0]
				break loop
			case iIf:
				c := fr.get(in.a)
				if c.p == nil {
					if c.n != 0 {
						next = b.succs[0]
					} else {
						next = b.succs[1]
					}
					break loop
				}
				ct := c.p.(*Term)
				if b.merge != nil {
					try := true
					if m.specDepth == 0 {
						if m.pos < len(m.prefix) {
							if d := m.prefix[m.pos]; d.kind == 'm' {
								m.pos++
								m.trace = append(m.trace, d)
								try = d.t
							} else {
								panic("gosx: nondeterministic replay: want merge" + m.where())
							}
						} else {
							try = b.merge.fails < 8
							if ok, ret := m.tryMergeRec(try, fr, b, ct); ok {
								if b.merge.join < 0 {
									return ret
								}
								next = b.merge.join
								phisDone = true
								break loop
							}
							try = false
						}
					}
					if try {
						if ok, ret := m.tryMerge(fr, b, ct); ok {
							if b.merge.join < 0 {
								return ret
							}
							next = b.merge.join
							phisDone = true
							break loop
						} else if m.specDepth == 0 {
							panic("gosx: nondeterministic replay: merge failed" + m.where())
						}
					}
				}
				if m.decide(ct) {
					next = b.succs[0]
				} else {
					next = b.succs[1]
				}
				break loop
			case iReturn:
				switch len(in.args) {
				case 0:
					return Value{}
				case 1:
					return fr.get(in.args[0])
				}
				vs := make([]Value, len(in.args))
				for i, a := range in.args {
					vs[i] = fr.get(a)
				}
				return m.pack(fn.retTI, vs)
			case iPanic:
				v := fr.get(in.a)
				fr.pos = in.pos
				if m.specDepth > 0 {
					panic(specAbort{})
				}
				if v.p == nil {
					m.rtPanic("panic called with nil argument (use GODEBUG=panicnil=1 to disable)")
				}
				panic(&targetPanic{v: v, stack: m.where()})
			case iRunDefers:
				for len(fr.defers) > 0 {
					df := fr.defers[len(fr.defers)-1]
					fr.defers = fr.defers[:len(fr.defers)-1]
					m.runDeferred(fr, df)
				}
			default:
				if fn.isInit {
					m.initStep(fr, in)
					continue
				}
				m.step(fr, in)
			}
		}
		if next < 0 {
			panic("gosx: fell off block in " + fn.name)
		}
		pred = b.idx
		b = fn.blocks[next]
	}
}

func (m *Machine) step(fr *Frame, in *inst) {
	switch in.op {
	case iNop:
	case iAlloc:
		fr.regs[in.dst] = Value{p: m.newObj(in.ti.slots, in.ti)}
	case iBinOp:
		fr.regs[in.dst] = m.binop(in.tok, in.ti, in.ti2, fr.get(in.a), fr.get(in.b))
	case iCall:
		fr.pos = in.pos
		fr.regs[in.dst] = m.doCall(fr, in)
	case iCallBuiltin:
		args := make([]Value, len(in.args))
		for i, a := range in.args {
			args[i] = fr.get(a)
		}
		fr.regs[in.dst] = m.builtin(fr, in.x.(*callInfo), args)
	case iMove:
		fr.regs[in.dst] = fr.get(in.a)
	case iConvert:
		fr.regs[in.dst] = m.convert(in.ti, in.ti2, fr.get(in.a))
	case iDefer, iGo:
		ci := in.x.(*callInfo)
		args := make([]Value, len(in.args))
		for i, a := range in.args {
			args[i] = fr.get(a)
		}
		var th func() Value
		if ci.builtin != "" {
			th = func() Value { return m.builtin(fr, ci, args) }
		} else {
			fn, bind, args2, cl := m.resolve(fr, in, ci, args)
			isDefer := in.op == iDefer
			th = func() Value {
				if cl != nil && cl.nat != nil {
					return cl.nat(m, args2)
				}
				if fn == nil {
					m.nilDeref()
				}
				if isDefer {
					return m.callD(fn, args2, bind, fr)
				}
				return m.call(fn, args2, bind)
			}
		}
		if in.op == iGo {
			m.spawn(th)
			return
		}
		target := fr
		if in.c != noReg {
			if ds, ok := fr.get(in.c).p.(*Frame); ok {
				target = ds
			}
		}
		target.defers = append(target.defers, &deferRec{m: th})
	case iExtract:
		fr.regs[in.dst] = sub(fr.get(in.a).p.([]Value), in.n, in.ti)
	case iField:
		fr.regs[in.dst] = sub(fr.get(in.a).p.([]Value), in.n, in.ti)
	case iFieldAddr:
		p := fr.get(in.a)
		switch o := p.p.(type) {
		case *Obj:
			fr.regs[in.dst] = Value{p: o, n: p.n + uint64(in.n)}
		case *SymPtr:
			c := *o
			c.add += in.n
			fr.regs[in.dst] = Value{p: &c}
		case nil:
			m.nilDeref()
		default:
			m.unsupported("field of %T", p.p)
		}
	case iIndex:
		x, i := fr.get(in.a), fr.get(in.b)
		if in.ti.kind == kString {
			fr.regs[in.dst] = m.strIndex(x, i, in.ti2)
			return
		}
		xs := x.p.([]Value)
		if t, ok := i.p.(*Term); ok {
			t64 := m.idx64(t, in.ti2)
			m.boundsSym(t64, in.ti.n)
			el := in.ti.elem
			if el.kind == kInt || el.kind == kBool {
				fr.regs[in.dst] = m.selectIdx(t64, in.ti.n, el.w, func(i int) Value { return xs[i] })
				return
			}
			i = Value{n: m.concretize(t64, "index")}
		}
		ii := int(sext(i.n, in.ti2.w))
		if !in.ti2.signed {
			ii = int(i.n)
		}
		if ii < 0 || ii >= in.ti.n {
			m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", ii, in.ti.n))
		}
		fr.regs[in.dst] = sub(xs, ii*in.ti.elem.slots, in.ti.elem)
	case iIndexAddr:
		x, i := fr.get(in.a), fr.get(in.b)
		var obj *Obj
		var base, n, es int
		es = in.ti.elem.slots
		if in.ti.kind == kSlice {
			if x.p != nil {
				s, ok := x.p.(*SliceV)
				if !ok {
					x = m.bytesFromStr(x)
					s = x.p.(*SliceV)
				}
				obj, base, n = s.obj, s.off, s.len
			}
		} else {
			switch o := x.p.(type) {
			case *Obj:
				obj, base, n = o, int(x.n), in.ti.n
			case *SymPtr:
				p := m.concPtr(o)
				obj, base, n = o.obj, int(p.n), in.ti.n
			case nil:
				m.nilDeref()
			default:
				m.unsupported("index of %T", x.p)
			}
		}
		if t, ok := i.p.(*Term); ok {
			t64 := m.idx64(t, in.ti2)
			m.boundsSym(t64, n)
			fr.regs[in.dst] = Value{p: &SymPtr{obj: obj, base: base, idx: t64, n: n, es: es}}
			return
		}
		ii := int(sext(i.n, in.ti2.w))
		if !in.ti2.signed {
			ii = int(i.n)
		}
		if ii < 0 || ii >= n {
			m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", ii, n))
		}
		fr.regs[in.dst] = Value{p: obj, n: uint64(base + ii*es)}
	case iLookup:
		x, k := fr.get(in.a), fr.get(in.b)
		if in.ti.kind == kString {
			fr.regs[in.dst] = m.strIndex(x, k, in.ti2)
			return
		}
		el := m.el(in.ti)
		var v Value
		found := false
		if x.p != nil {
			mo := x.p.(*MapObj)
			m.raceObj(mo, 0, 1, false)
			if i, _, _ := m.mapFind(mo, k); i >= 0 {
				v, found = mo.ents[i].v, true
			}
		}
		if !found {
			v = zero(el)
		}
		if in.commaOk {
			r := make([]Value, el.slots+1)
			if el.agg() {
				copy(r, v.p.([]Value))
			} else {
				r[0] = v
			}
			r[el.slots] = mkBool(found)
			v = Value{p: r}
		}
		fr.regs[in.dst] = v
	case iMakeChan:
		n := m.intOf(fr.get(in.a))
		fr.regs[in.dst] = Value{p: &ChanObj{cap: n, epoch: m.epoch}}
	case iMakeClosure:
		bind := make([]Value, len(in.args))
		for i, a := range in.args {
			bind[i] = fr.get(a)
		}
		fr.regs[in.dst] = Value{p: &Closure{fn: in.x.(*Fn), bind: bind}}
	case iMakeIface:
		fr.regs[in.dst] = Value{p: &Iface{in.ti, fr.get(in.a)}}
	case iMakeMap:
		fr.regs[in.dst] = Value{p: m.newMap(in.ti, in.ti2)}
	case iMakeSlice:
		ln, cp := m.intOf(fr.get(in.a)), m.intOf(fr.get(in.b))
		if ln < 0 || ln > 1<<26 {
			m.rtPanic("makeslice: len out of range")
		}
		if cp < ln || cp > 1<<26 {
			m.rtPanic("makeslice: cap out of range")
		}
		o := m.newObj(cp*in.ti.slots, in.ti)
		fr.regs[in.dst] = Value{p: &SliceV{obj: o, len: ln, cap: cp, es: in.ti.slots}}
	case iMapUpdate:
		mv := fr.get(in.a)
		if mv.p == nil {
			if m.specDepth > 0 {
				panic(specAbort{})
			}
			panic(&targetPanic{v: Value{p: &Iface{m.tString, mkStr("assignment to entry in nil map")}}, stack: m.where(), rt: true})
		}
		m.raceObj(mv.p, 0, 1, true)
		m.mapSet(mv.p.(*MapObj), fr.get(in.b), fr.get(in.c))
	case iNext:
		fr.regs[in.dst] = m.next(fr, in)
	case iRange:
		x := fr.get(in.a)
		if in.ti.kind == kString {
			fr.regs[in.dst] = Value{p: &mapIter{isStr: true, str: strBytes(x)}}
			return
		}
		it := &mapIter{}
		if x.p != nil {
			it.m = x.p.(*MapObj)
			if m.mapOrder && it.m.n > 1 && !m.inInit {
				it.order = m.permute(it.m)
			}
		}
		fr.regs[in.dst] = Value{p: it}
	case iSelect:
		fr.regs[in.dst] = m.doSelect(fr, in)
	case iSend:
		m.chanSend(fr.get(in.a), fr.get(in.b))
	case iRecv:
		v, ok := m.chanRecv(fr.get(in.a))
		if in.commaOk {
			el := in.ti.ft[0]
			r := make([]Value, el.slots+1)
			if !ok {
				v = zero(el)
			}
			if el.agg() {
				copy(r, v.p.([]Value))
			} else {
				r[0] = v
			}
			r[el.slots] = mkBool(ok)
			v = Value{p: r}
		} else if !ok {
			v = zero(in.ti)
		}
		fr.regs[in.dst] = v
	case iSlice:
		fr.regs[in.dst] = m.slice(in, fr.get(in.a), in.b, in.c, int32(in.n), fr)
	case iSliceToArrPtr:
		x := fr.get(in.a)
		if x.p == nil {
			if in.ti.n != 0 {
				m.rtPanic("cannot convert slice to array pointer")
			}
			fr.regs[in.dst] = Value{}
			return
		}
		s := x.p.(*SliceV)
		if s.len < in.ti.n {
			m.rtPanic(fmt.Sprintf("cannot convert slice with length %d to array or pointer to array with length %d", s.len, in.ti.n))
		}
		fr.regs[in.dst] = Value{p: s.obj, n: uint64(s.off)}
	case iStore:
		if m.races != nil {
			m.raceMem(fr.get(in.a), in.ti.slots, true)
		}
		m.store(in.ti, fr.get(in.a), fr.get(in.b))
	case iTypeAssert:
		fr.regs[in.dst] = m.typeAssert(in, fr.get(in.a))
	case iLoad:
		if m.races != nil {
			m.raceMem(fr.get(in.a), in.ti.slots, false)
		}
		fr.regs[in.dst] = m.load(in.ti, fr.get(in.a))
	case iNot:
		x := fr.get(in.a)
		if x.p == nil {
			fr.regs[in.dst] = Value{n: 1 - x.n}
		} else {
			fr.regs[in.dst] = tv(m.tb.Not(x.p.(*Term)))
		}
	case iNeg:
		x := fr.get(in.a)
		switch in.ti.kind {
		case kInt:
			if x.p == nil {
				fr.regs[in.dst] = Value{n: (-x.n) & mask(in.ti.w)}
			} else {
				fr.regs[in.dst] = tv(m.tb.Bin(oSub, m.tb.Const(0, in.ti.w), m.term(x, in.ti.w)))
			}
		case kFloat:
			fr.regs[in.dst] = mkFl(-fl(x))
		case kComplex:
			fr.regs[in.dst] = Value{p: -cx(x)}
		}
	case iCom:
		x := fr.get(in.a)
		if x.p == nil {
			fr.regs[in.dst] = Value{n: ^x.n & mask(in.ti.w)}
		} else {
			fr.regs[in.dst] = tv(m.tb.Bin(oBXor, m.term(x, in.ti.w), m.tb.Const(^uint64(0), in.ti.w)))
		}
	default:
		m.unsupported("instruction %v", in.x)
	}
}

func (m *Machine) intOf(v Value) int {
	if t, ok := v.p.(*Term); ok {
		return int(sext(m.concretize(t, "int"), t.w))
	}
	return int(v.n)
}

func (m *Machine) idx64(t *Term, ti *TI) *Term {
	if ti.signed {
		return m.tb.SExt(t, 64)
	}
	return m.tb.ZExt(t, 64)
}

func (m *Machine) boundsSym(t *Term, n int) {
	c := m.tb.Ult(t, m.tb.Const(uint64(n), 64))
	if !m.decide(c) {
		m.rtPanic(fmt.Sprintf("index out of range [symbolic] with length %d", n))
	}
}

func (m *Machine) strIndex(x, i Value, iti *TI) Value {
	n := strLen(x)
	if t, ok := i.p.(*Term); ok {
		t64 := m.idx64(t, iti)
		m.boundsSym(t64, n)
		return m.selectIdx(t64, n, 8, func(i int) Value { return strAt(x, i) })
	}
	ii := int(sext(i.n, iti.w))
	if !iti.signed {
		ii = int(i.n)
	}
	if ii < 0 || ii >= n {
		m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", ii, n))
	}
	return strAt(x, ii)
}

func (m *Machine) slice(in *inst, x Value, lo, hi, mx int32, fr *Frame) Value {
	bound := func(r int32, d int) int {
		if r == noReg {
			return d
		}
		return m.intOf(fr.get(r))
	}
	if in.ti.kind == kString {
		n := strLen(x)
		l := bound(lo, 0)
		h := bound(hi, n)
		if h < 0 || h > n {
			m.rtPanic(fmt.Sprintf("slice bounds out of range [:%d] with length %d", h, n))
		}
		if l < 0 || l > h {
			m.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d]", l, h))
		}
		return strSlice(x, l, h)
	}
	var obj *Obj
	var off, ln, cp, es int
	if in.ti.kind == kPtr {
		at := m.el(in.ti)
		switch o := x.p.(type) {
		case *Obj:
			obj, off = o, int(x.n)
		case *SymPtr:
			p := m.concPtr(o)
			obj, off = o.obj, int(p.n)
		default:
			m.nilDeref()
		}
		ln, cp, es = at.n, at.n, at.elem.slots
	} else {
		es = in.ti.elem.slots
		if x.p != nil {
			s, ok := x.p.(*SliceV)
			if !ok {
				s = m.bytesFromStr(x).p.(*SliceV)
			}
			obj, off, ln, cp = s.obj, s.off, s.len, s.cap
		}
	}
	l := bound(lo, 0)
	h := bound(hi, ln)
	c := bound(mx, cp)
	if c < 0 || c > cp {
		m.rtPanic(fmt.Sprintf("slice bounds out of range [::%d] with capacity %d", c, cp))
	}
	if h < 0 || h > c {
		m.rtPanic(fmt.Sprintf("slice bounds out of range [:%d] with capacity %d", h, cp))
	}
	if l < 0 || l > h {
		m.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d]", l, h))
	}
	if obj == nil {
		return Value{}
	}
	return Value{p: &SliceV{obj: obj, off: off + l*es, len: h - l, cap: c - l, es: es}}
}

// truth forks on a boolean value.
func (m *Machine) truth(v Value) bool {
	if v.p == nil {
		return v.n != 0
	}
	return m.decide(v.p.(*Term))
}

func (m *Machine) resolve(fr *Frame, in *inst, ci *callInfo, args []Value) (*Fn, []Value, []Value, *Closure) {
	if ci.static != nil {
		return ci.static, nil, args, nil
	}
	if ci.method != nil {
		recv := fr.get(in.a)
		if recv.p == nil {
			m.nilDeref()
		}
		ifc, ok := recv.p.(*Iface)
		if !ok {
			m.unsupported("invoke on %T", recv.p)
		}
		fn := ci.cache[ifc.ti]
		if fn == nil {
			fn = m.methodFor(ifc.ti, ci.method)
			ci.cache[ifc.ti] = fn
		}
		return fn, nil, append([]Value{ifc.v}, args...), nil
	}
	fv := fr.get(in.a)
	if fv.p == nil {
		return nil, nil, args, nil
	}
	cl := fv.p.(*Closure)
	return cl.fn, cl.bind, args, cl
}

func (m *Machine) methodFor(ti *TI, meth *types.Func) *Fn {
	if fn, ok := ti.msets[meth]; ok {
		return fn
	}
	if ti.msets == nil {
		ti.msets = map[*types.Func]*Fn{}
	}
	f := m.eng.lookupMethod(ti.t, meth.Pkg(), meth.Name())
	if f == nil {
		m.unsupported("method %s not found on %s", meth.Name(), ti)
	}
	fn := m.fnOf(f)
	ti.msets[meth] = fn
	return fn
}

func (m *Machine) doCall(fr *Frame, in *inst) Value {
	ci := in.x.(*callInfo)
	if ci.static != nil {
		fn := ci.static
		args := make([]Value, len(in.args))
		for i, a := range in.args {
			args[i] = fr.get(a)
		}
		return m.call(fn, args, nil)
	}
	args := make([]Value, len(in.args))
	for i, a := range in.args {
		args[i] = fr.get(a)
	}
	fn, bind, args, cl := m.resolve(fr, in, ci, args)
	if cl != nil && cl.nat != nil {
		return cl.nat(m, args)
	}
	if fn == nil {
		m.nilDeref()
	}
	return m.call(fn, args, bind)
}

func (m *Machine) callClosure(v Value, args []Value) Value {
	if v.p == nil {
		m.nilDeref()
	}
	cl := v.p.(*Closure)
	if cl.nat != nil {
		return cl.nat(m, args)
	}
	return m.call(cl.fn, args, cl.bind)
}

func (m *Machine) typeAssert(in *inst, x Value) Value {
	ok := false
	var v Value
	target := in.ti
	if x.p != nil {
		ifc := x.p.(*Iface)
		if target.kind == kIface {
			if m.implements(ifc.ti, target) {
				ok = true
				v = x
			}
		} else if ifc.ti == target {
			ok = true
			v = ifc.v
		}
	}
	if in.commaOk {
		if !ok {
			v = zero(target)
		}
		r := make([]Value, target.slots+1)
		if target.agg() {
			copy(r, v.p.([]Value))
		} else {
			r[0] = v
		}
		r[target.slots] = mkBool(ok)
		return Value{p: r}
	}
	if !ok {
		d := "nil"
		if x.p != nil {
			d = x.p.(*Iface).ti.String()
		}
		m.rtPanic(fmt.Sprintf("interface conversion: interface is %s, not %s", d, target))
	}
	return v
}

func (m *Machine) implements(ti, itf *TI) bool {
	k := [2]*TI{ti, itf}
	if r, ok := m.eng.implCache(k); ok {
		return r
	}
	iu, ok := itf.u.(*types.Interface)
	r := ok && types.Implements(ti.t, iu)
	m.eng.setImpl(k, r)
	return r
}

func (m *Machine) next(fr *Frame, in *inst) Value {
	it := fr.get(in.a).p.(*mapIter)
	if it.isStr {
		if it.pos >= len(it.str) {
			return packN(Value{}, Value{}, Value{})
		}
		r, n := m.decodeRune(it.str[it.pos:])
		p := it.pos
		it.pos += n
		return packN(mkBool(true), mkInt(p), r)
	}
	if it.m != nil {
		m.raceObj(it.m, 0, 1, false)
	}
	kt, vt := in.ti.ft[1], in.ti.ft[2]
	r := make([]Value, in.ti.slots)
	if it.m == nil {
		return Value{p: r}
	}
	var e *mapEnt
	if it.order != nil {
		for it.i < len(it.order) {
			c := &it.m.ents[it.order[it.i]]
			it.i++
			if c.live {
				e = c
				break
			}
		}
	}
	if e == nil && it.order == nil {
		for it.i < len(it.m.ents) {
			c := &it.m.ents[it.i]
			it.i++
			if c.live {
				e = c
				break
			}
		}
	}
	if e == nil {
		return Value{p: r}
	}
	r[0] = mkBool(true)
	put := func(i int, ft *TI, src *TI, v Value) {
		if ft.kind == kInvalid { // unused component
			return
		}
		if ft.agg() {
			copy(r[in.ti.foff[i]:], v.p.([]Value))
		} else {
			r[in.ti.foff[i]] = v
		}
	}
	put(1, kt, it.m.kt, e.k)
	put(2, vt, it.m.vt, e.v)
	return Value{p: r}
}

func (m *Machine) permute(mo *MapObj) []int {
	var live []int
	for i := range mo.ents {
		if mo.ents[i].live {
			live = append(live, i)
		}
	}
	if len(live) > 4 {
		return live
	}
	var out []int
	for len(live) > 0 {
		k := 0
		if len(live) > 1 {
			k = m.choose(len(live))
		}
		out = append(out, live[k])
		live = append(live[:k:k], live[k+1:]...)
	}
	return out
}

func (m *Machine) decodeRune(b []Value) (Value, int) {
	// concrete fast path
	n := len(b)
	if n > utf8.UTFMax {
		n = utf8.UTFMax
	}
	conc := true
	var buf [4]byte
	for i := 0; i < n; i++ {
		if b[i].p != nil {
			conc = false
			if i > 0 && buf[0] < 0x80 {
				conc = true
			}
			break
		}
		buf[i] = byte(b[i].n)
	}
	if conc {
		r, k := utf8.DecodeRune(buf[:n])
		return Value{n: uint64(uint32(r))}, k
	}
	if b[0].p != nil {
		t := m.term(b[0], 8)
		if m.decide(m.tb.Ult(t, m.tb.Const(0x80, 8))) {
			return tv(m.tb.ZExt(t, 32)), 1
		}
	}
	o := m.newObj(n, m.tByte)
	copy(o.s, b[:n])
	r := m.call(m.eng.fnByName(m, "unicode/utf8", "DecodeRune"), []Value{{p: &SliceV{obj: o, len: n, cap: n, es: 1}}}, nil)
	rs := r.p.([]Value)
	return rs[0], m.intOf(rs[1])
}

func (m *Machine) encodeRune(r Value) []Value {
	if r.p == nil {
		s := string(rune(int32(r.n)))
		return strBytes(mkStr(s))
	}
	t := m.term(r, 32)
	if m.decide(m.tb.Ult(t, m.tb.Const(0x80, 32))) {
		return []Value{tv(m.tb.Extract(t, 0, 8))}
	}
	v := m.call(m.eng.fnByName(m, "unicode/utf8", "AppendRune"), []Value{{}, r}, nil)
	s := v.p.(*SliceV)
	return append([]Value(nil), s.obj.s[s.off:s.off+s.len]...)
}

func (m *Machine) convert(from, to *TI, x Value) Value {
	switch {
	case from.kind == kInt && to.kind == kInt:
		if x.p == nil {
			if from.signed {
				return Value{n: uint64(sext(x.n, from.w)) & mask(to.w)}
			}
			return Value{n: x.n & mask(to.w)}
		}
		t, ok := x.p.(*Term)
		if !ok {
			return x // uintptr carrying a pointer
		}
		switch {
		case to.w < from.w:
			return tv(m.tb.Extract(t, 0, to.w))
		case to.w == from.w:
			return x
		case from.signed:
			return tv(m.tb.SExt(t, to.w))
		default:
			return tv(m.tb.ZExt(t, to.w))
		}
	case from.kind == kInt && to.kind == kFloat:
		if x.p != nil {
			x = Value{n: m.concretize(m.term(x, from.w), "int to float")}
		}
		var f float64
		if from.signed {
			f = float64(sext(x.n, from.w))
		} else {
			f = float64(x.n)
		}
		if to.w == 32 {
			f = float64(float32(f))
		}
		return mkFl(f)
	case from.kind == kFloat && to.kind == kInt:
		f := fl(x)
		if to.signed {
			return Value{n: uint64(int64(f)) & mask(to.w)}
		}
		return Value{n: uint64(f) & mask(to.w)}
	case from.kind == kFloat && to.kind == kFloat:
		f := fl(x)
		if to.w == 32 {
			f = float64(float32(f))
		}
		return mkFl(f)
	case from.kind == kComplex:
		return x
	case from.kind == kInt && to.kind == kString:
		if x.p == nil {
			v := sext(x.n, from.w)
			if !from.signed {
				v = int64(x.n)
			}
			if v > math.MaxInt32 || v < 0 {
				v = utf8.RuneError
			}
			return mkStr(string(rune(v)))
		}
		t := m.term(x, from.w)
		if from.w < 32 {
			t = m.idx64(t, from)
			t = m.tb.Extract(t, 0, 32)
		} else if from.w > 32 {
			if !m.decide(m.tb.Ult(t, m.tb.Const(0x110000, from.w))) {
				return mkStr("\uFFFD")
			}
			t = m.tb.Extract(t, 0, 32)
		}
		return mkSymStr(m.encodeRune(tv(t)))
	case from.kind == kString && to.kind == kSlice:
		if to.elem.w == 8 {
			if x.p == nil {
				return Value{p: &SliceV{obj: m.newObj(0, m.tByte), es: 1}}
			}
			return m.bytesFromStr(x)
		}
		var rs []Value
		b := strBytes(x)
		for len(b) > 0 {
			r, n := m.decodeRune(b)
			rs = append(rs, r)
			b = b[n:]
		}
		return m.mkSlice(m.tRune, rs)
	case from.kind == kSlice && to.kind == kString:
		if x.p == nil {
			return Value{}
		}
		s, ok := x.p.(*SliceV)
		if !ok {
			return x
		}
		if from.elem.w == 8 {
			return mkSymStr(append([]Value(nil), s.obj.s[s.off:s.off+s.len]...))
		}
		var out []Value
		for i := 0; i < s.len; i++ {
			out = append(out, m.encodeRune(s.obj.s[s.off+i])...)
		}
		return mkSymStr(out)
	case from.kind == kString && to.kind == kString:
		return x
	case to.kind == kUnsafe || from.kind == kUnsafe:
		return x
	case from.kind == to.kind:
		return x
	case from.kind == kSlice && to.kind == kArray:
		s := x.p.(*SliceV)
		if s.len < to.n {
			m.rtPanic("cannot convert slice to array")
		}
		r := make([]Value, to.slots)
		copy(r, s.obj.s[s.off:s.off+to.slots])
		return Value{p: r}
	}
	m.unsupported("convert %s to %s", from, to)
	return Value{}
}

func (m *Machine) binop(tok token.Token, ti, ti2 *TI, x, y Value) Value {
	switch tok {
	case token.EQL:
		if ti.kind == kInt && x.p == nil && y.p == nil {
			return mkBool(x.n == y.n)
		}
		return m.eqMixed(ti, ti2, x, y)
	case token.NEQ:
		e := m.eqMixed(ti, ti2, x, y)
		if e.p == nil {
			return Value{n: 1 - e.n}
		}
		return tv(m.tb.Not(e.p.(*Term)))
	}
	switch ti.kind {
	case kInt:
		if tok == token.SHL || tok == token.SHR {
			return m.shift(tok, ti, ti2, x, y)
		}
		if x.p == nil && y.p == nil {
			return m.intop(tok, ti, x.n, y.n)
		}
		return m.symop(tok, ti, x, y)
	case kString:
		switch tok {
		case token.ADD:
			return strConcat(x, y)
		case token.LSS:
			return m.strLess(x, y)
		case token.GTR:
			return m.strLess(y, x)
		case token.LEQ:
			return m.notV(m.strLess(y, x))
		case token.GEQ:
			return m.notV(m.strLess(x, y))
		}
	case kFloat:
		a, b := fl(x), fl(y)
		var r float64
		switch tok {
		case token.ADD:
			r = a + b
		case token.SUB:
			r = a - b
		case token.MUL:
			r = a * b
		case token.QUO:
			r = a / b
		case token.LSS:
			return mkBool(a < b)
		case token.LEQ:
			return mkBool(a <= b)
		case token.GTR:
			return mkBool(a > b)
		case token.GEQ:
			return mkBool(a >= b)
		}
		if ti.w == 32 {
			r = float64(float32(r))
		}
		return mkFl(r)
	case kComplex:
		a, b := cx(x), cx(y)
		switch tok {
		case token.ADD:
			return Value{p: a + b}
		case token.SUB:
			return Value{p: a - b}
		case token.MUL:
			return Value{p: a * b}
		case token.QUO:
			return Value{p: a / b}
		}
	case kBool:
		a, b := m.term(x, 0), m.term(y, 0)
		switch tok {
		case token.AND, token.LAND:
			return tv(m.tb.And(a, b))
		case token.OR, token.LOR:
			return tv(m.tb.Or(a, b))
		}
	}
	m.unsupported("binop %s on %s", tok, ti)
	return Value{}
}

func (m *Machine) notV(v Value) Value {
	if v.p == nil {
		return Value{n: 1 - v.n}
	}
	return tv(m.tb.Not(v.p.(*Term)))
}

func (m *Machine) eqMixed(ti, ti2 *TI, x, y Value) Value {
	if ti != ti2 {
		// interface vs concrete comparisons (x/tools inserts MakeInterface, nil constants keep the other type)
		if ti.kind == kIface && ti2.kind != kIface {
			if y.p == nil && ti2.kind == kPtr && ti2.u == types.Typ[types.UntypedNil] {
				return mkBool(x.p == nil)
			}
			y = Value{p: &Iface{ti2, y}}
			return m.eqVal(ti, x, y)
		}
		if ti2.kind == kIface && ti.kind != kIface {
			x = Value{p: &Iface{ti, x}}
			return m.eqVal(ti2, x, y)
		}
		if ti.u == types.Typ[types.UntypedNil] {
			ti = ti2
		}
	}
	return m.eqVal(ti, x, y)
}

func (m *Machine) intop(tok token.Token, ti *TI, x, y uint64) Value {
	w := ti.w
	mk := mask(w)
	switch tok {
	case token.ADD:
		return Value{n: (x + y) & mk}
	case token.SUB:
		return Value{n: (x - y) & mk}
	case token.MUL:
		return Value{n: (x * y) & mk}
	case token.QUO:
		if y == 0 {
			m.rtPanic("integer divide by zero")
		}
		if ti.signed {
			v, _ := foldBin(oSDiv, w, x, y)
			return Value{n: v}
		}
		return Value{n: x / y}
	case token.REM:
		if y == 0 {
			m.rtPanic("integer divide by zero")
		}
		if ti.signed {
			v, _ := foldBin(oSRem, w, x, y)
			return Value{n: v}
		}
		return Value{n: x % y}
	case token.AND:
		return Value{n: x & y}
	case token.OR:
		return Value{n: x | y}
	case token.XOR:
		return Value{n: x ^ y}
	case token.AND_NOT:
		return Value{n: x &^ y}
	}
	var lt, gt bool
	if ti.signed {
		a, b := sext(x, w), sext(y, w)
		lt, gt = a < b, a > b
	} else {
		lt, gt = x < y, x > y
	}
	switch tok {
	case token.LSS:
		return mkBool(lt)
	case token.LEQ:
		return mkBool(!gt)
	case token.GTR:
		return mkBool(gt)
	case token.GEQ:
		return mkBool(!lt)
	}
	m.unsupported("intop %s", tok)
	return Value{}
}

func (m *Machine) symop(tok token.Token, ti *TI, x, y Value) Value {
	// pointer-carrying uintptr arithmetic
	if o, ok := x.p.(*Obj); ok && y.p == nil {
		_ = o
		m.unsupported("uintptr arithmetic")
	}
	a, b := m.term(x, ti.w), m.term(y, ti.w)
	tb := m.tb
	switch tok {
	case token.ADD:
		return tv(tb.Bin(oAdd, a, b))
	case token.SUB:
		return tv(tb.Bin(oSub, a, b))
	case token.MUL:
		return tv(tb.Bin(oMul, a, b))
	case token.QUO, token.REM:
		if m.decide(tb.Eq(b, tb.Const(0, ti.w))) {
			m.rtPanic("integer divide by zero")
		}
		op := oUDiv
		switch {
		case tok == token.QUO && ti.signed:
			op = oSDiv
		case tok == token.REM && ti.signed:
			op = oSRem
		case tok == token.REM:
			op = oURem
		}
		return tv(tb.Bin(op, a, b))
	case token.AND:
		return tv(tb.Bin(oBAnd, a, b))
	case token.OR:
		return tv(tb.Bin(oBOr, a, b))
	case token.XOR:
		return tv(tb.Bin(oBXor, a, b))
	case token.AND_NOT:
		return tv(tb.Bin(oBAnd, a, tb.Bin(oBXor, b, tb.Const(^uint64(0), ti.w))))
	}
	lt := tb.Ult
	if ti.signed {
		lt = tb.Slt
	}
	switch tok {
	case token.LSS:
		return tv(lt(a, b))
	case token.LEQ:
		return tv(tb.Not(lt(b, a)))
	case token.GTR:
		return tv(lt(b, a))
	case token.GEQ:
		return tv(tb.Not(lt(a, b)))
	}
	m.unsupported("symop %s", tok)
	return Value{}
}

func (m *Machine) shift(tok token.Token, ti, ti2 *TI, x, y Value) Value {
	w := ti.w
	if y.p == nil {
		if ti2.signed && sext(y.n, ti2.w) < 0 {
			m.rtPanic("negative shift amount")
		}
		op := oShl
		if tok == token.SHR {
			op = oLShr
			if ti.signed {
				op = oAShr
			}
		}
		if x.p == nil {
			v, _ := foldBin(op, w, x.n, y.n)
			return Value{n: v}
		}
		c := y.n
		if c > uint64(w) {
			c = uint64(w)
		}
		return tv(m.tb.Bin(op, m.term(x, w), m.tb.Const(c, w)))
	}
	yt := m.term(y, ti2.w)
	if ti2.signed {
		if m.decide(m.tb.Slt(yt, m.tb.Const(0, ti2.w))) {
			m.rtPanic("negative shift amount")
		}
	}
	var c *Term
	if ti2.w > w {
		big := m.tb.Not(m.tb.Ult(yt, m.tb.Const(uint64(w), ti2.w)))
		c = m.tb.Ite(big, m.tb.Const(uint64(w), w), m.tb.Extract(yt, 0, w))
	} else {
		c = m.tb.ZExt(yt, w)
	}
	op := oShl
	if tok == token.SHR {
		op = oLShr
		if ti.signed {
			op = oAShr
		}
	}
	return tv(m.tb.Bin(op, m.term(x, w), c))
}

func (m *Machine) builtin(fr *Frame, ci *callInfo, args []Value) Value {
	switch ci.builtin {
	case "len":
		x := args[0]
		switch ci.argTI[0].kind {
		case kString:
			return mkInt(strLen(x))
		case kSlice:
			if x.p == nil {
				return Value{}
			}
			if s, ok := x.p.(*SliceV); ok {
				return mkInt(s.len)
			}
			return mkInt(strLen(x))
		case kMap:
			if x.p == nil {
				return Value{}
			}
			m.raceObj(x.p, 0, 1, false)
			return mkInt(x.p.(*MapObj).n)
		case kChan:
			if x.p == nil {
				return Value{}
			}
			return mkInt(len(x.p.(*ChanObj).buf))
		case kArray:
			return mkInt(ci.argTI[0].n)
		case kPtr:
			return mkInt(m.el(ci.argTI[0]).n)
		}
	case "cap":
		x := args[0]
		switch ci.argTI[0].kind {
		case kSlice:
			if x.p == nil {
				return Value{}
			}
			return mkInt(x.p.(*SliceV).cap)
		case kChan:
			if x.p == nil {
				return Value{}
			}
			return mkInt(x.p.(*ChanObj).cap)
		case kArray:
			return mkInt(ci.argTI[0].n)
		case kPtr:
			return mkInt(m.el(ci.argTI[0]).n)
		}
	case "append":
		return m.append(ci, args[0], args[1])
	case "copy":
		if args[0].p == nil || args[1].p == nil {
			return Value{}
		}
		d := args[0].p.(*SliceV)
		if s, ok := args[1].p.(*SliceV); ok {
			n := min(d.len, s.len)
			k := n * d.es
			m.raceObj(s.obj, s.off, k, false)
			m.raceObj(d.obj, d.off, k, true)
			tmp := append([]Value(nil), s.obj.s[s.off:s.off+k]...)
			m.wrN(d.obj, d.off, tmp)
			return mkInt(n)
		}
		n := min(d.len, strLen(args[1]))
		m.wrN(d.obj, d.off, strBytes(args[1])[:n])
		return mkInt(n)
	case "delete":
		if args[0].p != nil {
			m.raceObj(args[0].p, 0, 1, true)
			m.mapDelete(args[0].p.(*MapObj), args[1])
		}
		return Value{}
	case "clear":
		switch ci.argTI[0].kind {
		case kMap:
			if args[0].p != nil {
				mo := args[0].p.(*MapObj)
				m.raceObj(mo, 0, 1, true)
				m.mapTouch(mo)
				mo.ents, mo.n, mo.sym, mo.idx = nil, 0, false, map[string]int{}
			}
		case kSlice:
			if args[0].p != nil {
				s := args[0].p.(*SliceV)
				m.wrN(s.obj, s.off, make([]Value, s.len*s.es))
			}
		}
		return Value{}
	case "print", "println":
		return Value{}
	case "panic":
		if m.specDepth > 0 {
			panic(specAbort{})
		}
		panic(&targetPanic{v: args[0], stack: m.where()})
	case "recover":
		f := fr
		if f.defBy != nil && f.defBy.panic != nil {
			v := f.defBy.panic.v
			f.defBy.panic = nil
			return v
		}
		return Value{}
	case "close":
		if args[0].p == nil {
			m.rtPanic("close of nil channel")
		}
		c := args[0].p.(*ChanObj)
		if c.closed {
			m.rtPanic("close of closed channel")
		}
		m.chTouch(c)
		c.closed = true
		m.release(args[0], 0)
		m.schedPoint()
		return Value{}
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			t := m.binop(token.LSS, ci.argTI[0], ci.argTI[0], a, r)
			if ci.builtin == "max" {
				t = m.binop(token.LSS, ci.argTI[0], ci.argTI[0], r, a)
			}
			if t.p != nil && ci.argTI[0].kind == kInt {
				r = m.iteVal(ci.argTI[0], t.p.(*Term), a, r)
			} else if m.truth(t) {
				r = a
			}
		}
		return r
	case "real":
		return mkFl(real(cx(args[0])))
	case "imag":
		return mkFl(imag(cx(args[0])))
	case "complex":
		return Value{p: complex(fl(args[0]), fl(args[1]))}
	case "ssa:wrapnilchk":
		if args[0].p == nil {
			m.rtPanic(fmt.Sprintf("value method %s.%s called using nil pointer", m.goString(args[1]), m.goString(args[2])))
		}
		return args[0]
	case "ssa:deferstack":
		return Value{p: fr}
	case "String": // unsafe.String
		n := m.intOf(args[1])
		if n == 0 {
			return Value{}
		}
		o, ok := args[0].p.(*Obj)
		if !ok {
			m.unsupported("unsafe.String of %T", args[0].p)
		}
		off := int(args[0].n)
		return mkSymStr(append([]Value(nil), o.s[off:off+n]...))
	case "StringData":
		if args[0].p == nil {
			return Value{}
		}
		return Value{p: m.bytesFromStr(args[0]).p.(*SliceV).obj}
	case "SliceData":
		if args[0].p == nil {
			return Value{}
		}
		s := args[0].p.(*SliceV)
		return Value{p: s.obj, n: uint64(s.off)}
	case "Slice":
		n := m.intOf(args[1])
		if args[0].p == nil {
			return Value{}
		}
		o := args[0].p.(*Obj)
		el := ci.resTI.elem
		return Value{p: &SliceV{obj: o, off: int(args[0].n), len: n, cap: n, es: el.slots}}
	case "Add":
		n := m.intOf(args[1])
		if n == 0 {
			return args[0]
		}
	}
	m.unsupported("builtin %s", ci.builtin)
	return Value{}
}

func (m *Machine) wrN(o *Obj, off int, vs []Value) {
	if o.epoch == m.epoch {
		copy(o.s[off:], vs)
		return
	}
	for i, v := range vs {
		m.wr(o, off+i, v)
	}
}

func (m *Machine) append(ci *callInfo, a, b Value) Value {
	var bs []Value
	es := 1
	if ci.argTI[0].kind == kSlice {
		es = ci.argTI[0].elem.slots
	}
	nb := 0
	switch s := b.p.(type) {
	case nil:
		return a
	case *SliceV:
		bs = s.obj.s[s.off : s.off+s.len*s.es]
		nb = s.len
		m.raceObj(s.obj, s.off, s.len*s.es, false)
	default:
		bs = strBytes(b)
		nb = len(bs)
	}
	if nb == 0 {
		return a
	}
	var as *SliceV
	if a.p != nil {
		var ok bool
		as, ok = a.p.(*SliceV)
		if !ok {
			as = m.bytesFromStr(a).p.(*SliceV)
		}
	} else {
		as = &SliceV{es: es}
	}
	n := as.len + nb
	if n <= as.cap && as.obj != nil {
		m.raceObj(as.obj, as.off+as.len*es, nb*es, true)
		tmp := append([]Value(nil), bs...)
		m.wrN(as.obj, as.off+as.len*es, tmp)
		return Value{p: &SliceV{obj: as.obj, off: as.off, len: n, cap: as.cap, es: es}}
	}
	if as.obj != nil {
		m.raceObj(as.obj, as.off, as.len*es, false)
	}
	// growth as in the runtime (double below 256, size classes ignored)
	nc := as.cap
	if n > 2*nc {
		nc = n
	} else if nc < 256 {
		nc *= 2
	} else {
		for nc < n {
			nc += (nc + 3*256) / 4
		}
	}
	if nc < 4 && es == 1 && ci.argTI[0].elem.w == 8 {
		nc = 8
	}
	o := m.newObj(nc*es, ci.argTI[0].elem)
	if as.obj != nil {
		copy(o.s, as.obj.s[as.off:as.off+as.len*es])
	}
	copy(o.s[as.len*es:], bs)
	return Value{p: &SliceV{obj: o, len: n, cap: nc, es: es}}
}

// initStep runs one instruction of a package initialiser; what cannot be
// encoded leaves the zero value and is recorded.
func (m *Machine) initStep(fr *Frame, in *inst) {
	d := m.depth
	defer func() {
		if r := recover(); r != nil {
			msg := ""
			switch r := r.(type) {
			case *pathAbort:
				msg = r.kind + ": " + r.msg
			case *targetPanic:
				msg = "panic" + r.stack
			default:
				panic(r)
			}
			m.depth, m.curFrame = d, fr
			if in.dst >= 0 && int(in.dst) < len(fr.regs) {
				if v, ok := in.ssa.(ssa.Value); ok {
					fr.regs[in.dst] = zero(m.ti(v.Type()))
				}
			}
			m.eng.mu.Lock()
			m.eng.initErrs[fr.fn.f.Pkg.Pkg.Path()] += firstLine(msg, 3) + "; "
			m.eng.mu.Unlock()
		}
	}()
	m.step(fr, in)
}
