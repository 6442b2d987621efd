package main

import (
	"encoding/json"
	"go/types"
	"math"
	"reflect"
	"strings"
)

// Natives behind the JSON model of rt/stub.go.tmpl: they only tell and change
// the shape of values.
func initJSON() {
	N := natives
	S := func(name string, f func(m *Machine, a []Value) Value) { N["zzsvstub."+name] = f }
	iface := func(v Value) *Iface { i, _ := v.p.(*Iface); return i }
	type fld struct {
		name  string
		opts  string
		ti    *TI
		off   int
		embed bool
	}
	fields := func(m *Machine, ti *TI) []fld {
		st := ti.u.(*types.Struct)
		var r []fld
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			x := fld{name: f.Name(), ti: ti.ft[i], off: ti.foff[i]}
			tag := reflect.StructTag(st.Tag(i)).Get("json")
			parts := strings.Split(tag, ",")
			switch {
			case !f.Exported() && !f.Anonymous(), tag == "-":
				x.opts = "-"
			case f.Anonymous() && parts[0] == "" && ti.ft[i].kind == kStruct:
				x.opts = "embed"
			case len(parts) > 1 && parts[1] == "omitempty":
				x.opts = "omitempty"
			}
			if parts[0] != "" && tag != "-" {
				x.name = parts[0]
			}
			r = append(r, x)
		}
		return r
	}
	kind := func(m *Machine, ti *TI) string {
		switch ti.kind {
		case kBool:
			return "b"
		case kInt:
			if ti.signed {
				return "i"
			}
			return "u"
		case kFloat:
			return "f"
		case kString:
			return "s"
		case kPtr:
			return "p"
		case kSlice, kArray:
			return "l"
		case kMap:
			return "m"
		case kStruct:
			return "t"
		case kIface:
			return "a"
		}
		return "?"
	}
	S("jsonKind", func(m *Machine, a []Value) Value {
		i := iface(a[0])
		switch i.ti.kind {
		case kPtr, kSlice, kMap:
			if i.v.p == nil {
				return mkStr("n")
			}
		}
		if i.ti.kind == kSlice && m.el(i.ti).kind == kInt && m.el(i.ti).w == 8 && i.ti.String() != "json.RawMessage" {
			m.unsupported("json of []byte")
		}
		return mkStr(kind(m, i.ti))
	})
	ents := func(mo *MapObj) []mapEnt {
		var r []mapEnt
		for _, e := range mo.ents {
			if e.live {
				r = append(r, e)
			}
		}
		return r
	}
	S("jsonLen", func(m *Machine, a []Value) Value {
		i := iface(a[0])
		switch i.ti.kind {
		case kSlice:
			if i.v.p == nil {
				return mkInt(0)
			}
			return mkInt(i.v.p.(*SliceV).len)
		case kArray:
			return mkInt(i.ti.n)
		case kMap:
			if i.v.p == nil {
				return mkInt(0)
			}
			return mkInt(len(ents(i.v.p.(*MapObj))))
		case kStruct:
			return mkInt(len(i.ti.ft))
		}
		return mkInt(0)
	})
	S("jsonName", func(m *Machine, a []Value) Value {
		i := iface(a[0])
		n := m.intOf(a[1])
		if i.ti.kind == kStruct {
			return mkStr(fields(m, i.ti)[n].name)
		}
		mo := i.v.p.(*MapObj)
		k := ents(mo)[n].k
		if mo.kt.kind == kString {
			return k
		}
		if mo.kt.kind == kInt {
			return mkStr(m.intText(mo.kt, k))
		}
		m.unsupported("json map key")
		return Value{}
	})
	S("jsonOpts", func(m *Machine, a []Value) Value {
		return mkStr(fields(m, iface(a[0]).ti)[m.intOf(a[1])].opts)
	})
	wrap := func(m *Machine, ti *TI, v Value) Value {
		if ti.kind == kIface {
			return v
		}
		return Value{p: &Iface{ti, v}}
	}
	S("jsonAt", func(m *Machine, a []Value) Value {
		i := iface(a[0])
		n := m.intOf(a[1])
		switch i.ti.kind {
		case kPtr:
			el := m.el(i.ti)
			return wrap(m, el, m.load(el, i.v))
		case kSlice:
			el := m.el(i.ti)
			return wrap(m, el, sliceAt(i.v.p.(*SliceV), n, el))
		case kArray:
			el := m.el(i.ti)
			return wrap(m, el, sub(i.v.p.([]Value), n*el.slots, el))
		case kMap:
			mo := i.v.p.(*MapObj)
			return wrap(m, mo.vt, ents(mo)[n].v)
		case kStruct:
			return wrap(m, i.ti.ft[n], sub(i.v.p.([]Value), i.ti.foff[n], i.ti.ft[n]))
		}
		return Value{}
	})
	S("jsonInt", func(m *Machine, a []Value) Value {
		i := iface(a[0])
		if i.ti.kind == kBool {
			if i.v.p != nil {
				return mkInt(map[bool]int{true: 1}[m.truth(i.v)])
			}
			return Value{n: i.v.n}
		}
		return m.convert(i.ti, m.ti(types.Typ[types.Int64]), i.v)
	})
	S("jsonStr", func(m *Machine, a []Value) Value { return iface(a[0]).v })
	S("jsonFloatText", func(m *Machine, a []Value) Value {
		i := iface(a[0])
		var x any = math.Float64frombits(i.v.n)
		if i.ti.w == 32 {
			x = float32(math.Float64frombits(i.v.n))
		}
		b, _ := json.Marshal(x)
		return mkStr(string(b))
	})
	// decoding
	tgt := func(m *Machine, v Value) (*TI, Value) {
		i := iface(v)
		return m.el(i.ti), i.v
	}
	S("jsonTgt", func(m *Machine, a []Value) Value {
		ti, _ := tgt(m, a[0])
		if ti.String() == "json.RawMessage" {
			return mkStr("raw")
		}
		return mkStr(kind(m, ti))
	})
	ptrTo := func(m *Machine, ti *TI, addr Value) Value {
		return Value{p: &Iface{m.ti(types.NewPointer(ti.t)), addr}}
	}
	S("jsonDeref", func(m *Machine, a []Value) Value {
		ti, p := tgt(m, a[0])
		el := m.el(ti)
		v := m.load(ti, p)
		if v.p == nil {
			v = Value{p: m.newObj(el.slots, el)}
			m.store(ti, p, v)
		}
		return Value{p: &Iface{ti, v}}
	})
	S("jsonField", func(m *Machine, a []Value) Value {
		ti, p := tgt(m, a[0])
		name := m.goStringFork(a[1])
		var find func(ti *TI, off uint64, fold bool) (Value, bool)
		find = func(ti *TI, off uint64, fold bool) (Value, bool) {
			for _, f := range fields(m, ti) {
				if f.opts == "embed" {
					if r, ok := find(f.ti, off+uint64(f.off), fold); ok {
						return r, true
					}
					continue
				}
				if f.opts == "-" {
					continue
				}
				if f.name == name || fold && strings.EqualFold(f.name, name) {
					return ptrTo(m, f.ti, Value{p: p.p, n: p.n + off + uint64(f.off)}), true
				}
			}
			return Value{}, false
		}
		if r, ok := find(ti, 0, false); ok {
			return r
		}
		r, _ := find(ti, 0, true)
		return r
	})
	set := func(m *Machine, a []Value, v Value) Value {
		ti, p := tgt(m, a[0])
		m.store(ti, p, v)
		return Value{}
	}
	S("jsonSetStr", func(m *Machine, a []Value) Value { return set(m, a, a[1]) })
	S("jsonSetFloat", func(m *Machine, a []Value) Value {
		ti, _ := tgt(m, a[0])
		return set(m, a, m.convert(m.ti(types.Typ[types.Float64]), ti, a[1]))
	})
	S("jsonSetBool", func(m *Machine, a []Value) Value { return set(m, a, a[1]) })
	S("jsonSetAny", func(m *Machine, a []Value) Value { return set(m, a, a[1]) })
	S("jsonSetInt", func(m *Machine, a []Value) Value {
		ti, _ := tgt(m, a[0])
		return set(m, a, m.convert(m.ti(types.Typ[types.Int64]), ti, a[1]))
	})
	S("jsonSetNil", func(m *Machine, a []Value) Value {
		ti, _ := tgt(m, a[0])
		return set(m, a, zero(ti))
	})
	S("jsonSetLen", func(m *Machine, a []Value) Value {
		ti, p := tgt(m, a[0])
		if ti.kind == kArray {
			m.unsupported("json into array")
		}
		m.store(ti, p, m.mkSlice(m.el(ti), nil))
		return Value{}
	})
	S("jsonGrow", func(m *Machine, a []Value) Value {
		ti, p := tgt(m, a[0])
		el := m.el(ti)
		old := m.sliceVals(m.load(ti, p), el)
		s := m.mkSlice(el, append(append([]Value(nil), old...), zero(el)))
		m.store(ti, p, s)
		return ptrTo(m, el, Value{p: s.p.(*SliceV).obj, n: uint64(len(old) * el.slots)})
	})
	S("jsonElem", func(m *Machine, a []Value) Value {
		ti, _ := tgt(m, a[0])
		vt := m.ti(ti.u.(*types.Map).Elem())
		return ptrTo(m, vt, Value{p: m.newObj(vt.slots, vt)})
	})
	S("jsonMapKey", func(m *Machine, a []Value) Value {
		ti, _ := tgt(m, a[0])
		return mkStr(kind(m, m.ti(ti.u.(*types.Map).Key())))
	})
	S("jsonMapPut", func(m *Machine, a []Value) Value {
		ti, p := tgt(m, a[0])
		kt, vt := m.ti(ti.u.(*types.Map).Key()), m.ti(ti.u.(*types.Map).Elem())
		mv := m.load(ti, p)
		if mv.p == nil {
			mv = Value{p: m.newMap(kt, vt)}
			m.store(ti, p, mv)
		}
		if a[3].p == nil {
			return Value{}
		}
		k := a[1]
		if kt.kind == kInt {
			k = m.convert(m.ti(types.Typ[types.Int64]), kt, a[2])
		}
		m.mapSet(mv.p.(*MapObj), k, m.load(vt, iface(a[3]).v))
		return Value{}
	})
}

func (m *Machine) intText(ti *TI, v Value) string {
	n := m.intOf(v)
	var neg bool
	if n < 0 {
		neg, n = true, -n
	}
	s := ""
	for {
		s = string(rune('0'+n%10)) + s
		n /= 10
		if n == 0 {
			break
		}
	}
	if neg {
		s = "-" + s
	}
	return s
}
