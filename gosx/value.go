package main

import (
	"fmt"
	"go/types"
	"math"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is one machine slot.
//
//	bool/int/uint/float: p == nil: n holds the (masked) bits; p == *Term: symbolic
//	string:  p == nil: ""; string; *SymStr; (*SliceV when reinterpreted through unsafe)
//	pointer: p == nil: nil; *Obj with n = slot offset; *SymPtr
//	slice:   p == nil: nil; *SliceV
//	map:     p == nil: nil; *MapObj      chan: *ChanObj
//	func:    p == nil: nil; *Closure
//	iface:   p == nil: nil; *Iface
//	struct/array/tuple in a register: p == []Value (flat slots)
type Value struct {
	n uint64
	p any
}

type Obj struct {
	s     []Value
	epoch int32
	id    int32
	ti    *TI // type of the allocation (element type for backing arrays)
	name  string
}

type SymPtr struct {
	obj  *Obj
	base int
	idx  *Term // 64 bit, within [0,n)
	n    int
	es   int // element slots
	add  int // extra slot offset inside the element
}

type SliceV struct {
	obj      *Obj
	off      int // slots
	len, cap int // elements
	es       int // slots per element
}

type SymStr struct {
	b []Value
}

type Iface struct {
	ti *TI
	v  Value
}

type Closure struct {
	fn   *Fn
	bind []Value
	nat  func(m *Machine, args []Value) Value
	name string
}

type mapEnt struct {
	k, v Value
	live bool
}

type MapObj struct {
	idx    map[string]int
	ents   []mapEnt
	n      int
	sym    bool // some key is symbolic
	epoch  int32
	kt, vt *TI
}

type ChanObj struct {
	buf    []Value
	cap    int
	closed bool
	epoch  int32
	// unbuffered rendezvous
	recvWaiting int
	sendq       []*sendItem
}

type sendItem struct {
	v    Value
	done bool
	g    *Gor
}

type mapIter struct {
	m     *MapObj
	i     int
	order []int
	str   []Value // string iteration
	pos   int
	isStr bool
}

type Kind uint8

const (
	kInvalid Kind = iota
	kBool
	kInt
	kFloat
	kComplex
	kString
	kPtr
	kSlice
	kMap
	kChan
	kFunc
	kIface
	kStruct
	kArray
	kTuple
	kUnsafe
)

type TI struct {
	t      types.Type
	u      types.Type
	kind   Kind
	w      uint8
	signed bool
	slots  int
	foff   []int
	ft     []*TI
	elem   *TI // lazily for ptr
	n      int
	id     int
	msets  map[*types.Func]*Fn
	str    string
}

func (ti *TI) agg() bool { return ti.kind == kStruct || ti.kind == kArray || ti.kind == kTuple }

func (m *Machine) ti(t types.Type) *TI {
	if ti, ok := m.tis[t]; ok {
		return ti
	}
	if _, isT := t.(*types.Tuple); !isT {
		if x := m.tiCanon.At(t); x != nil {
			ti := x.(*TI)
			m.tis[t] = ti
			return ti
		}
	}
	ti := &TI{t: t, u: t.Underlying(), id: len(m.tis)}
	m.tis[t] = ti
	if _, isT := t.(*types.Tuple); !isT {
		m.tiCanon.Set(t, ti)
	}
	switch u := ti.u.(type) {
	case *types.Basic:
		ti.slots = 1
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			ti.kind = kBool
			ti.w = 0
		case types.Int, types.Int64, types.UntypedInt:
			ti.kind, ti.w, ti.signed = kInt, 64, true
		case types.Int8:
			ti.kind, ti.w, ti.signed = kInt, 8, true
		case types.Int16:
			ti.kind, ti.w, ti.signed = kInt, 16, true
		case types.Int32, types.UntypedRune:
			ti.kind, ti.w, ti.signed = kInt, 32, true
		case types.Uint, types.Uint64, types.Uintptr:
			ti.kind, ti.w = kInt, 64
		case types.Uint8:
			ti.kind, ti.w = kInt, 8
		case types.Uint16:
			ti.kind, ti.w = kInt, 16
		case types.Uint32:
			ti.kind, ti.w = kInt, 32
		case types.Float32:
			ti.kind, ti.w = kFloat, 32
		case types.Float64, types.UntypedFloat:
			ti.kind, ti.w = kFloat, 64
		case types.Complex64, types.Complex128, types.UntypedComplex:
			ti.kind, ti.w = kComplex, 128
		case types.String, types.UntypedString:
			ti.kind = kString
		case types.UnsafePointer:
			ti.kind = kUnsafe
		case types.UntypedNil:
			ti.kind = kPtr
		case types.Invalid:
			ti.kind = kInvalid
			ti.slots = 1
		default:
			panic(fmt.Sprintf("basic %v", u))
		}
	case *types.Pointer:
		ti.kind, ti.slots = kPtr, 1
	case *types.Slice:
		ti.kind, ti.slots = kSlice, 1
		ti.elem = m.ti(u.Elem())
	case *types.Map:
		ti.kind, ti.slots = kMap, 1
	case *types.Chan:
		ti.kind, ti.slots = kChan, 1
	case *types.Signature:
		ti.kind, ti.slots = kFunc, 1
	case *types.Interface:
		ti.kind, ti.slots = kIface, 1
	case *types.Struct:
		ti.kind = kStruct
		for i := 0; i < u.NumFields(); i++ {
			ft := m.ti(u.Field(i).Type())
			ti.foff = append(ti.foff, ti.slots)
			ti.ft = append(ti.ft, ft)
			ti.slots += ft.slots
		}
	case *types.Array:
		ti.kind = kArray
		ti.elem = m.ti(u.Elem())
		ti.n = int(u.Len())
		ti.slots = ti.n * ti.elem.slots
	case *types.Tuple:
		ti.kind = kTuple
		for i := 0; i < u.Len(); i++ {
			ft := m.ti(u.At(i).Type())
			ti.foff = append(ti.foff, ti.slots)
			ti.ft = append(ti.ft, ft)
			ti.slots += ft.slots
		}
	case *types.TypeParam:
		ti.kind, ti.slots = kInvalid, 1
	default:
		ti.kind, ti.slots = kInvalid, 1
	}
	return ti
}

// el returns the element TI of a pointer/map/chan type.
func (m *Machine) el(ti *TI) *TI {
	if ti.elem == nil {
		switch u := ti.u.(type) {
		case *types.Pointer:
			ti.elem = m.ti(u.Elem())
		case *types.Map:
			ti.elem = m.ti(u.Elem())
		case *types.Chan:
			ti.elem = m.ti(u.Elem())
		}
	}
	return ti.elem
}

func (ti *TI) String() string {
	if ti.str == "" {
		ti.str = types.TypeString(ti.t, func(p *types.Package) string { return p.Name() })
	}
	return ti.str
}

func zero(ti *TI) Value {
	if ti.agg() {
		return Value{p: make([]Value, ti.slots)}
	}
	return Value{}
}

func mkInt(i int) Value { return Value{n: uint64(i)} }
func mkStr(s string) Value {
	if s == "" {
		return Value{}
	}
	return Value{p: s}
}
func mkBool(b bool) Value {
	if b {
		return Value{n: 1}
	}
	return Value{}
}

func tv(t *Term) Value {
	if t.op == oConst {
		return Value{n: t.val}
	}
	return Value{p: t}
}

func (m *Machine) term(v Value, w uint8) *Term {
	if v.p == nil {
		if w == 0 {
			return m.tb.Bool(v.n != 0)
		}
		return m.tb.Const(v.n, w)
	}
	t, ok := v.p.(*Term)
	if !ok {
		m.unsupported("integer operation on %T", v.p)
	}
	return t
}

func isSym(v Value) bool {
	_, ok := v.p.(*Term)
	return ok
}

func (m *Machine) newObj(n int, ti *TI) *Obj {
	m.objID++
	return &Obj{s: make([]Value, n), epoch: m.epoch, id: m.objID, ti: ti}
}

// --- strings ---

func strLen(v Value) int {
	switch s := v.p.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	case *SliceV:
		return s.len
	}
	panic(fmt.Sprintf("strLen %T", v.p))
}

func strAt(v Value, i int) Value {
	switch s := v.p.(type) {
	case string:
		return Value{n: uint64(s[i])}
	case *SymStr:
		return s.b[i]
	case *SliceV:
		return s.obj.s[s.off+i]
	}
	panic("strAt")
}

// conc returns the Go string when v is fully concrete.
func strConc(v Value) (string, bool) {
	switch s := v.p.(type) {
	case nil:
		return "", true
	case string:
		return s, true
	case *SymStr:
		for _, x := range s.b {
			if x.p != nil {
				return "", false
			}
		}
		b := make([]byte, len(s.b))
		for i, x := range s.b {
			b[i] = byte(x.n)
		}
		return string(b), true
	case *SliceV:
		b := make([]byte, s.len)
		for i := range b {
			x := s.obj.s[s.off+i]
			if x.p != nil {
				return "", false
			}
			b[i] = byte(x.n)
		}
		return string(b), true
	}
	return "", false
}

func strBytes(v Value) []Value {
	switch s := v.p.(type) {
	case nil:
		return nil
	case string:
		b := make([]Value, len(s))
		for i := range b {
			b[i].n = uint64(s[i])
		}
		return b
	case *SymStr:
		return s.b
	case *SliceV:
		return append([]Value(nil), s.obj.s[s.off:s.off+s.len]...)
	}
	panic(fmt.Sprintf("strBytes %T", v.p))
}

func mkSymStr(b []Value) Value {
	if len(b) == 0 {
		return Value{}
	}
	for _, x := range b {
		if x.p != nil {
			return Value{p: &SymStr{b}}
		}
	}
	s := make([]byte, len(b))
	for i, x := range b {
		s[i] = byte(x.n)
	}
	return Value{p: string(s)}
}

func strSlice(v Value, lo, hi int) Value {
	if lo == hi {
		return Value{}
	}
	switch s := v.p.(type) {
	case string:
		return Value{p: s[lo:hi]}
	case *SymStr:
		return mkSymStr(s.b[lo:hi])
	case *SliceV:
		return mkSymStr(append([]Value(nil), s.obj.s[s.off+lo:s.off+hi]...))
	}
	panic("strSlice")
}

func strConcat(a, b Value) Value {
	if a.p == nil {
		return b
	}
	if b.p == nil {
		return a
	}
	if x, ok := a.p.(string); ok {
		if y, ok := b.p.(string); ok {
			return Value{p: x + y}
		}
	}
	x, y := strBytes(a), strBytes(b)
	r := make([]Value, 0, len(x)+len(y))
	r = append(append(r, x...), y...)
	return mkSymStr(r)
}

func (m *Machine) strEq(a, b Value) Value {
	if strLen(a) != strLen(b) {
		return Value{}
	}
	if x, ok := a.p.(string); ok {
		if y, ok := b.p.(string); ok {
			return mkBool(x == y)
		}
	}
	n := strLen(a)
	r := m.tb.tTrue
	for i := 0; i < n; i++ {
		x, y := strAt(a, i), strAt(b, i)
		if x.p == nil && y.p == nil {
			if x.n != y.n {
				return Value{}
			}
			continue
		}
	}
	for i := 0; i < n; i++ {
		x, y := strAt(a, i), strAt(b, i)
		if x.p == nil && y.p == nil {
			continue
		}
		r = m.tb.And(r, m.tb.Eq(m.term(x, 8), m.term(y, 8)))
		if r == m.tb.tFals {
			return Value{}
		}
	}
	return tv(r)
}

func (m *Machine) strLess(a, b Value) Value {
	if x, ok := strConc(a); ok {
		if y, ok := strConc(b); ok {
			return mkBool(x < y)
		}
	}
	na, nb := strLen(a), strLen(b)
	n := na
	if nb < n {
		n = nb
	}
	r := m.tb.Bool(na < nb)
	for i := n - 1; i >= 0; i-- {
		x, y := m.term(strAt(a, i), 8), m.term(strAt(b, i), 8)
		r = m.tb.Or(m.tb.Ult(x, y), m.tb.And(m.tb.Eq(x, y), r))
	}
	return tv(r)
}

// --- equality ---

func (m *Machine) eqVal(ti *TI, a, b Value) Value {
	switch ti.kind {
	case kBool, kInt:
		if a.p == nil && b.p == nil {
			return mkBool(a.n == b.n)
		}
		_, sa := a.p.(*Term)
		_, sb := b.p.(*Term)
		if (a.p == nil || sa) && (b.p == nil || sb) {
			return tv(m.tb.Eq(m.term(a, ti.w), m.term(b, ti.w)))
		}
		return mkBool(a.p == b.p && a.n == b.n) // uintptr made from a pointer
	case kFloat:
		return mkBool(fl(a) == fl(b))
	case kComplex:
		return mkBool(cx(a) == cx(b))
	case kString:
		return m.strEq(a, b)
	case kPtr, kUnsafe:
		if sp, ok := a.p.(*SymPtr); ok {
			a = m.concPtr(sp)
		}
		if sp, ok := b.p.(*SymPtr); ok {
			b = m.concPtr(sp)
		}
		if a.p == nil || b.p == nil {
			return mkBool(a.p == nil && b.p == nil && a.n == b.n)
		}
		return mkBool(a.p == b.p && a.n == b.n)
	case kChan, kMap, kFunc:
		return mkBool(a.p == b.p)
	case kSlice:
		return mkBool(a.p == nil && b.p == nil)
	case kIface:
		if a.p == nil || b.p == nil {
			return mkBool(a.p == nil && b.p == nil)
		}
		x, y := a.p.(*Iface), b.p.(*Iface)
		if x.ti != y.ti {
			return Value{}
		}
		if !comparable(x.ti) {
			m.rtPanic("comparing uncomparable type " + x.ti.String())
		}
		return m.eqVal(x.ti, x.v, y.v)
	case kStruct:
		r := m.tb.tTrue
		xs, ys := a.p.([]Value), b.p.([]Value)
		st := ti.u.(*types.Struct)
		for i, ft := range ti.ft {
			if st.Field(i).Name() == "_" {
				continue
			}
			e := m.eqVal(ft, sub(xs, ti.foff[i], ft), sub(ys, ti.foff[i], ft))
			r = m.tb.And(r, m.term(e, 0))
			if r == m.tb.tFals {
				return Value{}
			}
		}
		return tv(r)
	case kArray:
		r := m.tb.tTrue
		xs, ys := a.p.([]Value), b.p.([]Value)
		for i := 0; i < ti.n; i++ {
			e := m.eqVal(ti.elem, sub(xs, i*ti.elem.slots, ti.elem), sub(ys, i*ti.elem.slots, ti.elem))
			r = m.tb.And(r, m.term(e, 0))
			if r == m.tb.tFals {
				return Value{}
			}
		}
		return tv(r)
	}
	m.unsupported("eqVal kind %d %s", ti.kind, ti)
	return Value{}
}

func comparable(ti *TI) bool { return types.Comparable(ti.t) }

// sub extracts the (sub-)value of type ft at slot off.
func sub(xs []Value, off int, ft *TI) Value {
	if ft.agg() {
		return Value{p: xs[off : off+ft.slots : off+ft.slots]}
	}
	return xs[off]
}

func fl(v Value) float64   { return math.Float64frombits(v.n) }
func mkFl(f float64) Value { return Value{n: math.Float64bits(f)} }
func cx(v Value) complex128 {
	if v.p == nil {
		return 0
	}
	return v.p.(complex128)
}

// keyOf renders a concrete map key canonically.
func (m *Machine) keyOf(ti *TI, v Value, sb *strings.Builder) bool {
	switch ti.kind {
	case kBool, kInt:
		if v.p != nil {
			if o, ok := v.p.(*Obj); ok {
				fmt.Fprintf(sb, "p%d+%d;", o.id, v.n)
				return true
			}
			return false
		}
		sb.WriteString(strconv.FormatUint(v.n, 36))
		sb.WriteByte(';')
	case kFloat:
		fmt.Fprintf(sb, "f%x;", v.n)
	case kComplex:
		fmt.Fprintf(sb, "c%v;", cx(v))
	case kString:
		s, ok := strConc(v)
		if !ok {
			return false
		}
		sb.WriteString(strconv.Itoa(len(s)))
		sb.WriteByte(':')
		sb.WriteString(s)
	case kPtr, kUnsafe:
		switch o := v.p.(type) {
		case nil:
			sb.WriteString("nil;")
		case *Obj:
			fmt.Fprintf(sb, "p%d+%d;", o.id, v.n)
		case *TI:
			fmt.Fprintf(sb, "T%d;", o.id)
		case *SymPtr:
			return m.keyOf(ti, m.concPtr(o), sb)
		default:
			fmt.Fprintf(sb, "q%p;", v.p)
		}
	case kChan:
		fmt.Fprintf(sb, "ch%p;", v.p)
	case kIface:
		if v.p == nil {
			sb.WriteString("nil;")
			return true
		}
		x := v.p.(*Iface)
		if !comparable(x.ti) {
			m.rtPanic("hash of unhashable type " + x.ti.String())
		}
		fmt.Fprintf(sb, "i%d:", x.ti.id)
		return m.keyOf(x.ti, x.v, sb)
	case kStruct:
		xs := v.p.([]Value)
		for i, ft := range ti.ft {
			if !m.keyOf(ft, sub(xs, ti.foff[i], ft), sb) {
				return false
			}
		}
	case kArray:
		xs := v.p.([]Value)
		for i := 0; i < ti.n; i++ {
			if !m.keyOf(ti.elem, sub(xs, i*ti.elem.slots, ti.elem), sb) {
				return false
			}
		}
	default:
		m.unsupported("map key kind %d", ti.kind)
	}
	return true
}

func (m *Machine) newMap(kt, vt *TI) *MapObj {
	return &MapObj{idx: map[string]int{}, kt: kt, vt: vt, epoch: m.epoch}
}

// mapFind returns the entry index or -1, forking on symbolic keys.
func (m *Machine) mapFind(mo *MapObj, k Value) (int, string, bool) {
	var sb strings.Builder
	conc := m.keyOf(mo.kt, k, &sb)
	if conc && !mo.sym {
		if i, ok := mo.idx[sb.String()]; ok {
			return i, sb.String(), true
		}
		return -1, sb.String(), true
	}
	for i := range mo.ents {
		if !mo.ents[i].live {
			continue
		}
		e := m.eqVal(mo.kt, mo.ents[i].k, k)
		if m.truth(e) {
			return i, "", conc
		}
	}
	return -1, sb.String(), conc
}

func (m *Machine) mapTouch(mo *MapObj) {
	if mo.epoch != m.epoch {
		old := &MapObj{kt: mo.kt, vt: mo.vt, idx: map[string]int{}, ents: append([]mapEnt(nil), mo.ents...), n: mo.n, sym: mo.sym, epoch: mo.epoch}
		for k, v := range mo.idx {
			old.idx[k] = v
		}
		m.undo = append(m.undo, undoRec{mp: mo, mapOld: old})
		mo.epoch = m.epoch
	}
}

func (m *Machine) mapSet(mo *MapObj, k, v Value) {
	i, ks, conc := m.mapFind(mo, k)
	m.mapTouch(mo)
	if i >= 0 {
		mo.ents[i].v = v
		return
	}
	mo.ents = append(mo.ents, mapEnt{k, v, true})
	mo.n++
	if conc {
		if ks == "" {
			var sb strings.Builder
			m.keyOf(mo.kt, k, &sb)
			ks = sb.String()
		}
		mo.idx[ks] = len(mo.ents) - 1
	} else {
		mo.sym = true
	}
}

func (m *Machine) mapDelete(mo *MapObj, k Value) {
	i, _, _ := m.mapFind(mo, k)
	if i < 0 {
		return
	}
	m.mapTouch(mo)
	var sb strings.Builder
	if m.keyOf(mo.kt, mo.ents[i].k, &sb) {
		delete(mo.idx, sb.String())
	}
	mo.ents[i] = mapEnt{}
	mo.n--
}

// --- memory ---

type undoRec struct {
	o      *Obj
	off    int
	v      Value
	mp     *MapObj
	mapOld *MapObj
	fn     func()
}

func (m *Machine) load(ti *TI, p Value) Value {
	switch o := p.p.(type) {
	case *Obj:
		off := int(p.n)
		if ti.agg() {
			r := make([]Value, ti.slots)
			if off+ti.slots > len(o.s) {
				m.unsupported("unsafe load beyond object")
			}
			copy(r, o.s[off:off+ti.slots])
			return Value{p: r}
		}
		if off >= len(o.s) {
			m.unsupported("unsafe load beyond object")
		}
		v := o.s[off]
		if ti.kind == kString {
			if _, ok := v.p.(*SliceV); ok {
				return mkSymStr(strBytes(v))
			}
		} else if ti.kind == kSlice {
			switch v.p.(type) {
			case string, *SymStr:
				return m.bytesFromStr(v)
			}
		}
		return v
	case *SymPtr:
		return m.loadSym(ti, o)
	case nil:
		m.nilDeref()
	}
	m.unsupported("load through %T", p.p)
	return Value{}
}

func (m *Machine) concPtr(sp *SymPtr) Value {
	i := m.concretize(sp.idx, "index")
	return Value{p: sp.obj, n: uint64(sp.base + int(i)*sp.es + sp.add)}
}

func (m *Machine) loadSym(ti *TI, sp *SymPtr) Value {
	if ti.kind == kInt || ti.kind == kBool {
		ok := true
		for i := 0; i < sp.n; i++ {
			v := sp.obj.s[sp.base+i*sp.es+sp.add]
			if v.p != nil && !isSym(v) {
				ok = false
				break
			}
		}
		if ok && sp.n <= 1024 {
			return m.selectIdx(sp.idx, sp.n, ti.w, func(i int) Value { return sp.obj.s[sp.base+i*sp.es+sp.add] })
		}
	}
	return m.load(ti, m.concPtr(sp))
}

// selectIdx builds ite(idx==i, at(i)) grouping runs of equal values.
func (m *Machine) selectIdx(idx *Term, n int, w uint8, at func(int) Value) Value {
	if n == 0 {
		return Value{}
	}
	r := m.term(at(n-1), w)
	for i := n - 2; i >= 0; i-- {
		t := m.term(at(i), w)
		if t == m.term(at(i+1), w) {
			continue
		}
		// idx <= i ? t : r   (values at higher indexes already selected in r)
		r = m.tb.Ite(m.tb.Ult(idx, m.tb.Const(uint64(i+1), idx.w)), t, r)
	}
	return tv(r)
}

func (m *Machine) wr(o *Obj, off int, v Value) {
	if o.epoch != m.epoch {
		m.undo = append(m.undo, undoRec{o: o, off: off, v: o.s[off]})
	}
	o.s[off] = v
}

func (m *Machine) store(ti *TI, p Value, v Value) {
	switch o := p.p.(type) {
	case *Obj:
		off := int(p.n)
		if ti.agg() {
			xs := v.p.([]Value)
			if off+ti.slots > len(o.s) {
				m.unsupported("unsafe store beyond object")
			}
			if o.epoch == m.epoch {
				copy(o.s[off:], xs)
				return
			}
			for i, x := range xs {
				m.wr(o, off+i, x)
			}
			return
		}
		if off >= len(o.s) {
			m.unsupported("unsafe store beyond object")
		}
		m.wr(o, off, v)
		return
	case *SymPtr:
		if ti.kind == kInt || ti.kind == kBool {
			ok := o.n <= 256
			for i := 0; i < o.n && ok; i++ {
				x := o.obj.s[o.base+i*o.es+o.add]
				ok = x.p == nil || isSym(x)
			}
			if ok {
				nt := m.term(v, ti.w)
				for i := 0; i < o.n; i++ {
					off := o.base + i*o.es + o.add
					c := m.tb.Eq(o.idx, m.tb.Const(uint64(i), o.idx.w))
					m.wr(o.obj, off, tv(m.tb.Ite(c, nt, m.term(o.obj.s[off], ti.w))))
				}
				return
			}
		}
		m.store(ti, m.concPtr(o), v)
		return
	case nil:
		m.nilDeref()
	}
	m.unsupported("store through %T", p.p)
}

func (m *Machine) bytesFromStr(v Value) Value {
	b := strBytes(v)
	o := m.newObj(len(b), m.tByte)
	copy(o.s, b)
	return Value{p: &SliceV{obj: o, len: len(b), cap: len(b), es: 1}}
}

func (m *Machine) mkSlice(elem *TI, vs []Value) Value {
	o := m.newObj(len(vs)*elem.slots, elem)
	for i, v := range vs {
		if elem.agg() {
			copy(o.s[i*elem.slots:], v.p.([]Value))
		} else {
			o.s[i] = v
		}
	}
	return Value{p: &SliceV{obj: o, len: len(vs), cap: len(vs), es: elem.slots}}
}

func sliceAt(s *SliceV, i int, elem *TI) Value {
	return sub(s.obj.s, s.off+i*s.es, elem)
}

func (m *Machine) goString(v Value) string {
	s, ok := strConc(v)
	if !ok {
		m.unsupported("symbolic string where a concrete one is needed")
	}
	return s
}

// goStringFork is goString that makes the bytes concrete.
func (m *Machine) goStringFork(v Value) string {
	if s, ok := strConc(v); ok {
		return s
	}
	b := strBytes(v)
	out := make([]byte, len(b))
	for i, c := range b {
		out[i] = byte(m.intOf(c))
	}
	return string(out)
}

var _ = ssa.NaiveForm
