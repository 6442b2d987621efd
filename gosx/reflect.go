package main

import (
	"go/types"
)

func initReflect() {
	N := natives
	T := func(name string, f func(m *Machine, ti *TI, a []Value) Value) {
		N["(*reflect.rtype)."+name] = func(m *Machine, a []Value) Value {
			ti := rtOf(a[0])
			if ti == nil {
				m.nilDeref()
			}
			return f(m, ti, a)
		}
	}
	V := func(name string, f func(m *Machine, r *rval, a []Value) Value) {
		N["(reflect.Value)."+name] = func(m *Machine, a []Value) Value {
			r := m.rv(a[0])
			if r == nil {
				switch name {
				case "IsValid":
					return Value{}
				case "Kind":
					return Value{}
				case "String":
					return mkStr("<invalid Value>")
				}
				m.strPanic("reflect: call of reflect.Value." + name + " on zero Value")
			}
			return f(m, r, a)
		}
	}
	N["reflect.TypeOf"] = func(m *Machine, a []Value) Value {
		if a[0].p == nil {
			return Value{}
		}
		return m.mkRType(a[0].p.(*Iface).ti)
	}
	N["reflect.ValueOf"] = func(m *Machine, a []Value) Value {
		if a[0].p == nil {
			return Value{p: make([]Value, 3)}
		}
		ifc := a[0].p.(*Iface)
		return m.mkRV(&rval{ti: ifc.ti, v: ifc.v})
	}
	N["reflect.Zero"] = func(m *Machine, a []Value) Value {
		ti := rtOf(a[0])
		return m.mkRV(&rval{ti: ti, v: zero(ti)})
	}
	N["reflect.New"] = func(m *Machine, a []Value) Value {
		ti := rtOf(a[0])
		o := m.newObj(ti.slots, ti)
		return m.mkRV(&rval{ti: m.ti(types.NewPointer(ti.t)), v: Value{p: o}})
	}
	N["reflect.NewAt"] = func(m *Machine, a []Value) Value {
		ti := rtOf(a[0])
		return m.mkRV(&rval{ti: m.ti(types.NewPointer(ti.t)), v: a[1]})
	}
	N["reflect.Indirect"] = func(m *Machine, a []Value) Value {
		r := m.rv(a[0])
		if r == nil || r.ti.kind != kPtr {
			return a[0]
		}
		return N["(reflect.Value).Elem"](m, a)
	}
	N["reflect.PointerTo"] = func(m *Machine, a []Value) Value { return m.mkRType(m.ti(types.NewPointer(rtOf(a[0]).t))) }
	N["reflect.PtrTo"] = N["reflect.PointerTo"]
	N["reflect.SliceOf"] = func(m *Machine, a []Value) Value { return m.mkRType(m.ti(types.NewSlice(rtOf(a[0]).t))) }
	N["reflect.FuncOf"] = func(m *Machine, a []Value) Value {
		tup := func(v Value) *types.Tuple {
			var vs []*types.Var
			if v.p != nil {
				s := v.p.(*SliceV)
				for i := 0; i < s.len; i++ {
					vs = append(vs, types.NewVar(0, nil, "", rtOf(s.obj.s[s.off+i]).t))
				}
			}
			return types.NewTuple(vs...)
		}
		in, out := tup(a[0]), tup(a[1])
		va := m.truth(a[2])
		if va {
			n := in.Len()
			if n == 0 || m.ti(in.At(n-1).Type()).kind != kSlice {
				m.strPanic("reflect.FuncOf: last arg of variadic func must be slice")
			}
		}
		return m.mkRType(m.ti(types.NewSignatureType(nil, nil, nil, in, out, va)))
	}
	N["reflect.MakeFunc"] = func(m *Machine, a []Value) Value {
		ti := rtOf(a[0])
		return m.mkRV(&rval{ti: ti, v: m.makeFunc(ti, a[1])})
	}
	N["reflect.DeepEqual"] = func(m *Machine, a []Value) Value {
		if a[0].p == nil || a[1].p == nil {
			return mkBool(a[0].p == nil && a[1].p == nil)
		}
		return tv(m.deepEq(m.tAny, a[0], a[1], 0))
	}
	N["reflect.MakeSlice"] = func(m *Machine, a []Value) Value {
		ti := rtOf(a[0])
		n, c := m.intOf(a[1]), m.intOf(a[2])
		o := m.newObj(c*ti.elem.slots, ti.elem)
		return m.mkRV(&rval{ti: ti, v: Value{p: &SliceV{obj: o, len: n, cap: c, es: ti.elem.slots}}})
	}

	// --- Type ---
	T("Kind", func(m *Machine, ti *TI, a []Value) Value { return Value{n: m.rkind(ti)} })
	T("String", func(m *Machine, ti *TI, a []Value) Value { return mkStr(ti.String()) })
	T("Name", func(m *Machine, ti *TI, a []Value) Value {
		switch t := types.Unalias(ti.t).(type) {
		case *types.Named:
			s := t.Obj().Name()
			if ta := t.TypeArgs(); ta != nil && ta.Len() > 0 {
				s += "["
				for i := 0; i < ta.Len(); i++ {
					if i > 0 {
						s += ","
					}
					s += types.TypeString(ta.At(i), nil)
				}
				s += "]"
			}
			return mkStr(s)
		case *types.Basic:
			return mkStr(t.Name())
		}
		return Value{}
	})
	T("PkgPath", func(m *Machine, ti *TI, a []Value) Value {
		if t, ok := types.Unalias(ti.t).(*types.Named); ok && t.Obj().Pkg() != nil {
			return mkStr(t.Obj().Pkg().Path())
		}
		return Value{}
	})
	T("Elem", func(m *Machine, ti *TI, a []Value) Value {
		switch ti.kind {
		case kPtr, kMap, kChan:
			return m.mkRType(m.el(ti))
		case kSlice, kArray:
			return m.mkRType(ti.elem)
		}
		m.strPanic("reflect: Elem of invalid type " + ti.String())
		return Value{}
	})
	T("Key", func(m *Machine, ti *TI, a []Value) Value { return m.mkRType(m.ti(ti.u.(*types.Map).Key())) })
	T("Len", func(m *Machine, ti *TI, a []Value) Value { return mkInt(ti.n) })
	T("NumIn", func(m *Machine, ti *TI, a []Value) Value { return mkInt(m.sigOf(ti).Params().Len()) })
	T("NumOut", func(m *Machine, ti *TI, a []Value) Value { return mkInt(m.sigOf(ti).Results().Len()) })
	T("IsVariadic", func(m *Machine, ti *TI, a []Value) Value { return mkBool(m.sigOf(ti).Variadic()) })
	T("In", func(m *Machine, ti *TI, a []Value) Value {
		s := m.sigOf(ti)
		i := m.intOf(a[1])
		if i < 0 || i >= s.Params().Len() {
			m.rtPanic("index out of range (reflect.Type.In)")
		}
		return m.mkRType(m.ti(s.Params().At(i).Type()))
	})
	T("Out", func(m *Machine, ti *TI, a []Value) Value {
		s := m.sigOf(ti)
		i := m.intOf(a[1])
		if i < 0 || i >= s.Results().Len() {
			m.rtPanic("index out of range (reflect.Type.Out)")
		}
		return m.mkRType(m.ti(s.Results().At(i).Type()))
	})
	T("Implements", func(m *Machine, ti *TI, a []Value) Value {
		it := rtOf(a[1])
		if it == nil {
			m.strPanic("reflect: nil type passed to Type.Implements")
		}
		if it.kind != kIface {
			m.strPanic("reflect: non-interface type passed to Type.Implements")
		}
		return mkBool(m.implements(ti, it))
	})
	T("AssignableTo", func(m *Machine, ti *TI, a []Value) Value { return mkBool(types.AssignableTo(ti.t, rtOf(a[1]).t)) })
	T("ConvertibleTo", func(m *Machine, ti *TI, a []Value) Value { return mkBool(types.ConvertibleTo(ti.t, rtOf(a[1]).t)) })
	T("Comparable", func(m *Machine, ti *TI, a []Value) Value { return mkBool(comparable(ti)) })
	T("NumField", func(m *Machine, ti *TI, a []Value) Value { return mkInt(len(ti.ft)) })
	T("NumMethod", func(m *Machine, ti *TI, a []Value) Value {
		n := 0
		ms := types.NewMethodSet(ti.t)
		for i := 0; i < ms.Len(); i++ {
			if ti.kind == kIface || ms.At(i).Obj().Exported() {
				n++
			}
		}
		return mkInt(n)
	})

	// --- Value ---
	V("IsValid", func(m *Machine, r *rval, a []Value) Value { return mkBool(true) })
	V("Kind", func(m *Machine, r *rval, a []Value) Value { return Value{n: m.rkind(r.ti)} })
	V("Type", func(m *Machine, r *rval, a []Value) Value { return m.mkRType(r.ti) })
	V("String", func(m *Machine, r *rval, a []Value) Value {
		if r.ti.kind == kString {
			return r.get(m)
		}
		return mkStr("<" + r.ti.String() + " Value>")
	})
	V("Interface", func(m *Machine, r *rval, a []Value) Value { return m.ifaceOf(r) })
	V("CanInterface", func(m *Machine, r *rval, a []Value) Value { return mkBool(true) })
	V("CanSet", func(m *Machine, r *rval, a []Value) Value { return mkBool(r.can) })
	V("CanAddr", func(m *Machine, r *rval, a []Value) Value { return mkBool(r.can) })
	V("Addr", func(m *Machine, r *rval, a []Value) Value {
		if !r.can {
			m.strPanic("reflect.Value.Addr of unaddressable value")
		}
		return m.mkRV(&rval{ti: m.ti(types.NewPointer(r.ti.t)), v: r.addr})
	})
	V("Elem", func(m *Machine, r *rval, a []Value) Value {
		v := r.get(m)
		switch r.ti.kind {
		case kPtr:
			if v.p == nil {
				return Value{p: make([]Value, 3)}
			}
			return m.mkRV(&rval{ti: m.el(r.ti), addr: v, can: true})
		case kIface:
			if v.p == nil {
				return Value{p: make([]Value, 3)}
			}
			x := v.p.(*Iface)
			return m.mkRV(&rval{ti: x.ti, v: x.v})
		}
		m.strPanic("reflect: call of reflect.Value.Elem on " + r.ti.String() + " Value")
		return Value{}
	})
	V("Set", func(m *Machine, r *rval, a []Value) Value {
		if !r.can {
			m.strPanic("reflect: reflect.Value.Set using unaddressable value")
		}
		x := m.rv(a[1])
		if x == nil {
			m.strPanic("reflect: call of reflect.Value.Set on zero Value")
		}
		m.store(r.ti, r.addr, m.assignConv(r.ti, x))
		return Value{}
	})
	setBasic := func(name string) {
		V(name, func(m *Machine, r *rval, a []Value) Value {
			v := a[1]
			if r.ti.kind == kInt && v.p == nil {
				v.n &= mask(r.ti.w)
			}
			m.store(r.ti, r.addr, v)
			return Value{}
		})
	}
	setBasic("SetInt")
	setBasic("SetUint")
	setBasic("SetString")
	setBasic("SetBool")
	V("IsNil", func(m *Machine, r *rval, a []Value) Value {
		switch r.ti.kind {
		case kPtr, kMap, kSlice, kFunc, kChan, kIface, kUnsafe:
			return mkBool(r.get(m).p == nil)
		}
		m.strPanic("reflect: call of reflect.Value.IsNil on " + r.ti.String() + " Value")
		return Value{}
	})
	V("IsZero", func(m *Machine, r *rval, a []Value) Value {
		return m.eqVal(r.ti, r.get(m), zero(r.ti))
	})
	V("Pointer", func(m *Machine, r *rval, a []Value) Value {
		switch r.ti.kind {
		case kPtr, kMap, kSlice, kFunc, kChan, kUnsafe:
			return m.ptrID(r.get(m))
		}
		m.strPanic("reflect: call of reflect.Value.Pointer on " + r.ti.String() + " Value")
		return Value{}
	})
	V("UnsafePointer", func(m *Machine, r *rval, a []Value) Value { return r.get(m) })
	V("UnsafeAddr", func(m *Machine, r *rval, a []Value) Value { return m.ptrID(r.addr) })
	V("Int", func(m *Machine, r *rval, a []Value) Value {
		if r.ti.kind != kInt || !r.ti.signed {
			m.strPanic("reflect: call of reflect.Value.Int on " + r.ti.String() + " Value")
		}
		return m.convert(r.ti, m.ti(types.Typ[types.Int64]), r.get(m))
	})
	V("Uint", func(m *Machine, r *rval, a []Value) Value {
		return m.convert(r.ti, m.ti(types.Typ[types.Uint64]), r.get(m))
	})
	V("Bool", func(m *Machine, r *rval, a []Value) Value { return r.get(m) })
	V("Float", func(m *Machine, r *rval, a []Value) Value { return r.get(m) })
	V("Bytes", func(m *Machine, r *rval, a []Value) Value { return r.get(m) })
	V("Len", func(m *Machine, r *rval, a []Value) Value { return m.rvLen(r) })
	V("NumField", func(m *Machine, r *rval, a []Value) Value { return mkInt(len(r.ti.ft)) })
	V("NumMethod", func(m *Machine, r *rval, a []Value) Value {
		return N["(*reflect.rtype).NumMethod"](m, []Value{{p: r.ti}})
	})
	field := func(m *Machine, r *rval, i int) Value {
		if r.ti.kind != kStruct {
			m.strPanic("reflect: call of reflect.Value.Field on " + r.ti.String() + " Value")
		}
		ft := r.ti.ft[i]
		if r.can {
			return m.mkRV(&rval{ti: ft, can: true, addr: Value{p: r.addr.p, n: r.addr.n + uint64(r.ti.foff[i])}})
		}
		return m.mkRV(&rval{ti: ft, v: sub(r.v.p.([]Value), r.ti.foff[i], ft)})
	}
	V("Field", func(m *Machine, r *rval, a []Value) Value {
		i := m.intOf(a[1])
		if i < 0 || i >= len(r.ti.ft) {
			m.strPanic("reflect: Field index out of range")
		}
		return field(m, r, i)
	})
	V("FieldByName", func(m *Machine, r *rval, a []Value) Value {
		if r.ti.kind != kStruct {
			m.strPanic("reflect: call of reflect.Value.FieldByName on " + r.ti.String() + " Value")
		}
		name := m.goString(a[1])
		st := r.ti.u.(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				return field(m, r, i)
			}
		}
		return Value{p: make([]Value, 3)}
	})
	V("Index", func(m *Machine, r *rval, a []Value) Value {
		i := m.intOf(a[1])
		v := r.get(m)
		switch r.ti.kind {
		case kSlice:
			var n int
			if v.p != nil {
				n = v.p.(*SliceV).len
			}
			if i < 0 || i >= n {
				m.strPanic("reflect: slice index out of range")
			}
			s := v.p.(*SliceV)
			return m.mkRV(&rval{ti: r.ti.elem, can: true, addr: Value{p: s.obj, n: uint64(s.off + i*s.es)}})
		case kArray:
			if i < 0 || i >= r.ti.n {
				m.strPanic("reflect: array index out of range")
			}
			if r.can {
				return m.mkRV(&rval{ti: r.ti.elem, can: true, addr: Value{p: r.addr.p, n: r.addr.n + uint64(i*r.ti.elem.slots)}})
			}
			return m.mkRV(&rval{ti: r.ti.elem, v: sub(v.p.([]Value), i*r.ti.elem.slots, r.ti.elem)})
		case kString:
			return m.mkRV(&rval{ti: m.tByte, v: strAt(v, i)})
		}
		m.unsupported("reflect Index of %s", r.ti)
		return Value{}
	})
	V("Call", func(m *Machine, r *rval, a []Value) Value {
		if r.ti.kind != kFunc {
			m.strPanic("reflect: call of Call on " + r.ti.String() + " Value")
		}
		if r.get(m).p == nil {
			m.strPanic("reflect: call of nil function")
		}
		return m.rvCall(r, m.sliceVals(a[1], m.rvTI()))
	})
	V("CallSlice", func(m *Machine, r *rval, a []Value) Value {
		if r.ti.kind != kFunc {
			m.strPanic("reflect: call of CallSlice on " + r.ti.String() + " Value")
		}
		if r.get(m).p == nil {
			m.strPanic("reflect: call of nil function")
		}
		sig := m.sigOf(r.ti)
		if !sig.Variadic() {
			m.strPanic("reflect: CallSlice of non-variadic function")
		}
		ins := m.sliceVals(a[1], m.rvTI())
		if len(ins) < sig.Params().Len() {
			m.strPanic("reflect: CallSlice with too few input arguments")
		}
		if len(ins) > sig.Params().Len() {
			m.strPanic("reflect: CallSlice with too many input arguments")
		}
		var args []Value
		for i, x := range ins {
			rx := m.rv(x)
			if rx == nil {
				m.strPanic("reflect: CallSlice using zero Value argument")
			}
			args = append(args, m.assignConv(m.ti(sig.Params().At(i).Type()), rx))
		}
		return m.retToRVs(sig, m.callClosure(r.get(m), args))
	})
	V("Comparable", func(m *Machine, r *rval, a []Value) Value {
		if r.ti.kind == kIface {
			v := r.get(m)
			return mkBool(v.p == nil || comparable(v.p.(*Iface).ti))
		}
		return mkBool(comparable(r.ti))
	})
	for _, name := range []string{"Comparable", "String", "Kind", "Implements", "AssignableTo", "Name", "PkgPath", "Elem"} {
		name := name
		f := N["(*reflect.rtype)."+name]
		N["(internal/reflectlite.rtype)."+name] = func(m *Machine, a []Value) Value {
			b := append([]Value(nil), a...)
			b[0] = a[0].p.([]Value)[0]
			return f(m, b)
		}
	}
	V("Convert", func(m *Machine, r *rval, a []Value) Value {
		to := rtOf(a[1])
		if to.kind == kIface {
			return m.mkRV(&rval{ti: to, v: m.ifaceOf(r)})
		}
		return m.mkRV(&rval{ti: to, v: m.convert(r.ti, to, r.get(m))})
	})
}
