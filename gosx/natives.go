package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"os"
	"path"
	"path/filepath"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type native = func(m *Machine, args []Value) Value

var natives map[string]native
var svNatives map[string]native
var pureNatives = map[string]bool{"math.Float64bits": true}

// shortcuts: functions of the standard library run natively while their
// arguments are concrete.
var shortcuts = map[string]func(args []Value) (Value, bool){
	"internal/filepathlite.Clean": str1(filepath.Clean),
	"path.Clean":                  str1(path.Clean),
}

func str1(f func(string) string) func(args []Value) (Value, bool) {
	return func(args []Value) (Value, bool) {
		s, ok := strConc(args[0])
		if !ok {
			return Value{}, false
		}
		return mkStr(f(s)), true
	}
}

// redirects: function -> Go stub in package zzsvstub, executed symbolically.
var redirects = map[string]string{
	"runtime.CallersFrames":                  "CallersFrames",
	"(*runtime.Frames).Next":                 "FramesNext",
	"internal/bytealg.IndexByte":             "IndexByte",
	"internal/bytealg.IndexByteString":       "IndexByteString",
	"internal/bytealg.LastIndexByte":         "LastIndexByte",
	"internal/bytealg.LastIndexByteString":   "LastIndexByteString",
	"internal/bytealg.Count":                 "Count",
	"internal/bytealg.CountString":           "CountString",
	"internal/bytealg.Compare":               "Compare",
	"internal/bytealg.CompareString":         "CompareString",
	"internal/bytealg.Index":                 "Index",
	"internal/bytealg.IndexString":           "IndexString",
	"internal/stringslite.IndexByte":         "IndexByteString",
	"strings.Index":                          "IndexString",
	"internal/stringslite.Index":             "IndexString",
	"bytes.Index":                            "Index",
	"strings.Compare":                        "CompareString",
	"cmp.Compare[string]":                    "CompareString",
	"fmt.Sprintf":                            "Sprintf",
	"fmt.Sprint":                             "Sprint",
	"fmt.Sprintln":                           "Sprintln",
	"fmt.Errorf":                             "Errorf",
	"fmt.Fprintf":                            "Fprintf",
	"fmt.Fprint":                             "Fprint",
	"fmt.Fprintln":                           "Fprintln",
	"fmt.Printf":                             "Printf",
	"fmt.Println":                            "Println",
	"fmt.Print":                              "Print",
	"errors.As":                              "ErrorsAs",
	"errors.Is":                              "ErrorsIs",
	"(*sync.Map).Load":                       "SyncMapLoad",
	"(*sync.Map).Store":                      "SyncMapStore",
	"(*sync.Map).LoadOrStore":                "SyncMapLoadOrStore",
	"(*sync.Map).LoadAndDelete":              "SyncMapLoadAndDelete",
	"(*sync.Map).Delete":                     "SyncMapDelete",
	"(*sync.Map).Range":                      "SyncMapRange",
	"os.ReadFile":                            "OsReadFile",
	"os.WriteFile":                           "OsWriteFile",
	"os.Stat":                                "OsStat",
	"os.Truncate":                            "OsTruncate",
	"os.Lstat":                               "OsLstat",
	"os.Mkdir":                               "OsMkdir",
	"os.MkdirAll":                            "OsMkdirAll",
	"os.Remove":                              "OsRemove",
	"os.RemoveAll":                           "OsRemoveAll",
	"os.Rename":                              "OsRename",
	"os.ReadDir":                             "OsReadDir",
	"os.Getwd":                               "OsGetwd",
	"os.Chdir":                               "OsChdir",
	"crypto/md5.New":                         "MD5New",
	"os.Getenv":                              "OsGetenv",
	"os.LookupEnv":                           "OsLookupEnv",
	"os.Setenv":                              "OsSetenv",
	"os.Unsetenv":                            "OsUnsetenv",
	"os.Environ":                             "OsEnviron",
	"os.Readlink":                            "OsReadlink",
	"os.Symlink":                             "OsSymlink",
	"os.Chmod":                               "OsChmod",
	"os.OpenFile":                            "OsOpenFile",
	"os.Open":                                "OsOpen",
	"os.Create":                              "OsCreate",
	"os.MkdirTemp":                           "OsMkdirTemp",
	"os.TempDir":                             "OsTempDir",
	"os.UserHomeDir":                         "OsUserHomeDir",
	"os.Chtimes":                             "OsChtimes",
	"os.SameFile":                            "OsSameFile",
	"os.Getpid":                              "OsGetpid",
	"(*os.File).Read":                        "FileRead",
	"(*os.File).Write":                       "FileWrite",
	"(*os.File).WriteString":                 "FileWriteString",
	"(*os.File).Close":                       "FileClose",
	"(*os.File).Name":                        "FileName",
	"(*os.File).Stat":                        "FileStat",
	"(*os.File).ReadDir":                     "FileReadDir",
	"(*os.File).Readdirnames":                "FileReaddirnames",
	"(*os.File).Readdir":                     "FileReaddir",
	"(*os.File).ReadFrom":                    "FileReadFrom",
	"(*os.File).WriteTo":                     "FileWriteTo",
	"(*os.File).Sync":                        "FileSync",
	"(*os.File).Chmod":                       "FileChmod",
	"time.Now":                               "TimeNow",
	"time.Since":                             "TimeSince",
	"time.Sleep":                             "TimeSleep",
	"sort.Strings":                           "SortStrings",
	"crypto/rand.Read":                       "RandRead",
	"os.Getuid":                              "OsGetuid",
	"(time.Time).Format":                     "TimeFormat",
	"(time.Time).String":                     "TimeString",
	"net.Listen":                             "NetListen",
	"runtime/debug.Stack":                    "DebugStack",
	"encoding/json.Marshal":                  "JSONMarshal",
	"encoding/json.MarshalIndent":            "JSONMarshalIndent",
	"encoding/json.Unmarshal":                "JSONUnmarshal",
	"encoding/json.Valid":                    "JSONValid",
	"encoding/json.NewDecoder":               "JSONNewDecoder",
	"encoding/json.NewEncoder":               "JSONNewEncoder",
	"(*encoding/json.Encoder).Encode":        "JSONEncode",
	"(*encoding/json.Encoder).SetIndent":     "JSONSetIndent",
	"(*encoding/json.Encoder).SetEscapeHTML": "JSONSetEscapeHTML",
	"encoding/json.Indent":                   "JSONIndentBuf",
	"encoding/json.Compact":                  "JSONCompactBuf",
	"(*encoding/json.Decoder).Decode":        "JSONDecode",
	"(*encoding/json.Decoder).More":          "JSONMore",
	"(*encoding/json.Decoder).UseNumber":     "JSONUseNumber",
}

type rval struct {
	ti   *TI
	v    Value
	addr Value
	can  bool // addressable
}

func (m *Machine) mkRV(r *rval) Value {
	return Value{p: []Value{{p: r}, {}, {n: 1}}}
}

func (m *Machine) rv(v Value) *rval {
	xs := v.p.([]Value)
	r, _ := xs[0].p.(*rval)
	return r
}

func (r *rval) get(m *Machine) Value {
	if r.can {
		return m.load(r.ti, r.addr)
	}
	return r.v
}

func (m *Machine) rtypeTI() *TI {
	for _, p := range m.eng.prog.AllPackages() {
		if p.Pkg.Path() == "reflect" {
			return m.ti(types.NewPointer(p.Pkg.Scope().Lookup("rtype").Type()))
		}
	}
	panic("reflect not loaded")
}

func (m *Machine) mkRType(ti *TI) Value {
	if ti == nil {
		return Value{}
	}
	return Value{p: &Iface{m.rtypeTI(), Value{p: ti}}}
}

func rtOf(v Value) *TI {
	switch x := v.p.(type) {
	case *TI:
		return x
	case *Iface:
		return x.v.p.(*TI)
	}
	return nil
}

func (m *Machine) rkind(ti *TI) uint64 {
	switch ti.kind {
	case kBool:
		return 1
	case kInt:
		b := ti.u.(*types.Basic)
		switch b.Kind() {
		case types.Int:
			return 2
		case types.Int8:
			return 3
		case types.Int16:
			return 4
		case types.Int32:
			return 5
		case types.Int64:
			return 6
		case types.Uint:
			return 7
		case types.Uint8:
			return 8
		case types.Uint16:
			return 9
		case types.Uint32:
			return 10
		case types.Uint64:
			return 11
		case types.Uintptr:
			return 12
		}
	case kFloat:
		if ti.w == 32 {
			return 13
		}
		return 14
	case kComplex:
		return 16
	case kArray:
		return 17
	case kChan:
		return 18
	case kFunc:
		return 19
	case kIface:
		return 20
	case kMap:
		return 21
	case kPtr:
		return 22
	case kSlice:
		return 23
	case kString:
		return 24
	case kStruct:
		return 25
	case kUnsafe:
		return 26
	}
	return 0
}

func (m *Machine) sigOf(ti *TI) *types.Signature {
	s, ok := ti.u.(*types.Signature)
	if !ok {
		m.strPanic("reflect: not a func type " + ti.String())
	}
	return s
}

func (m *Machine) strPanic(s string) {
	if m.specDepth > 0 {
		panic(specAbort{})
	}
	panic(&targetPanic{v: Value{p: &Iface{m.tString, mkStr(s)}}, stack: m.where(), rt: true})
}

func typeStr(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (m *Machine) ifaceOf(r *rval) Value {
	v := r.get(m)
	if r.ti.kind == kIface {
		return v
	}
	return Value{p: &Iface{r.ti, v}}
}

func (m *Machine) ptrID(v Value) Value {
	// a stable concrete number for a pointer-like value
	switch p := v.p.(type) {
	case nil:
		return Value{n: v.n}
	case *Obj:
		return Value{n: 0xc000000000 + uint64(p.id)<<20 + v.n*8}
	case *Closure:
		if p.fn != nil {
			return Value{n: 0x400000 + m.fnID(p.fn)*pcSize}
		}
		return Value{n: 0x3f0000}
	case *SliceV:
		return Value{n: 0xc000000000 + uint64(p.obj.id)<<20 + uint64(p.off)*8}
	case *MapObj:
		return Value{n: 0xd000000000 + m.anyID(p)*64}
	case *ChanObj:
		return Value{n: 0xe000000000 + m.anyID(p)*64}
	}
	m.unsupported("pointer value of %T", v.p)
	return Value{}
}

const pcSize = 1 << 16

// at is where a frame is.
func (fr *Frame) at() token.Pos {
	if fr.pos != token.NoPos {
		return fr.pos
	}
	return fr.fn.f.Pos()
}

func (m *Machine) framePC(fr *Frame) uint64 {
	d := m.eng.fset.Position(fr.at()).Line - m.eng.fset.Position(fr.fn.f.Pos()).Line
	if d < 0 || d > pcSize-2 {
		d = 0
	}
	return 0x400001 + m.fnID(fr.fn)*pcSize + uint64(d)
}

// FnByID lets runtime.FuncForPC map ids back to functions.
func (m *Machine) fnID(fn *Fn) uint64 {
	if m.fnIDs == nil {
		m.fnIDs = map[*Fn]uint64{}
	}
	id, ok := m.fnIDs[fn]
	if !ok {
		id = uint64(len(m.fnIDs) + 1)
		m.fnIDs[fn] = id
		m.fnByID = append(m.fnByID, fn)
	}
	return id
}

func (m *Machine) anyID(p any) uint64 {
	if m.anyIDs == nil {
		m.anyIDs = map[any]uint64{}
	}
	id, ok := m.anyIDs[p]
	if !ok {
		id = uint64(len(m.anyIDs) + 1)
		m.anyIDs[p] = id
	}
	return id
}

func (m *Machine) assignConv(to *TI, r *rval) Value {
	if to.kind == kIface {
		v := r.get(m)
		if r.ti.kind == kIface {
			return v
		}
		if !m.implements(r.ti, to) {
			m.strPanic("reflect.Set: value of type " + r.ti.String() + " is not assignable to type " + to.String())
		}
		return Value{p: &Iface{r.ti, v}}
	}
	if r.ti != to && !types.AssignableTo(r.ti.t, to.t) {
		m.strPanic("reflect.Set: value of type " + r.ti.String() + " is not assignable to type " + to.String())
	}
	return r.get(m)
}

func (m *Machine) rvCall(f *rval, ins []Value) Value {
	sig := m.sigOf(f.ti)
	n := sig.Params().Len()
	var args []Value
	for i, a := range ins {
		r := m.rv(a)
		if sig.Variadic() && i >= n-1 {
			break
		}
		if i >= n {
			m.strPanic("reflect: Call with too many input arguments")
		}
		if r == nil {
			m.strPanic("reflect: Call using zero Value argument")
		}
		args = append(args, m.assignConv(m.ti(sig.Params().At(i).Type()), r))
	}
	if sig.Variadic() {
		if len(ins) < n-1 {
			m.strPanic("reflect: Call with too few input arguments")
		}
		el := m.ti(sig.Params().At(n - 1).Type()).elem
		var vs []Value
		for _, a := range ins[n-1:] {
			vs = append(vs, m.assignConv(el, m.rv(a)))
		}
		args = append(args, m.mkSlice(el, vs))
	} else if len(ins) < n {
		m.strPanic("reflect: Call with too few input arguments")
	}
	res := m.callClosure(f.get(m), args)
	return m.retToRVs(sig, res)
}

func (m *Machine) retToRVs(sig *types.Signature, res Value) Value {
	var out []Value
	rs := sig.Results()
	switch rs.Len() {
	case 0:
	case 1:
		out = append(out, m.mkRV(&rval{ti: m.ti(rs.At(0).Type()), v: res}))
	default:
		tt := m.ti(rs)
		xs := res.p.([]Value)
		for i, ft := range tt.ft {
			out = append(out, m.mkRV(&rval{ti: ft, v: sub(xs, tt.foff[i], ft)}))
		}
	}
	return m.mkSlice(m.rvTI(), out)
}

func (m *Machine) rvTI() *TI {
	for _, p := range m.eng.prog.AllPackages() {
		if p.Pkg.Path() == "reflect" {
			return m.ti(p.Pkg.Scope().Lookup("Value").Type())
		}
	}
	panic("reflect not loaded")
}

func (m *Machine) sliceVals(v Value, el *TI) []Value {
	if v.p == nil {
		return nil
	}
	s := v.p.(*SliceV)
	var r []Value
	for i := 0; i < s.len; i++ {
		r = append(r, sliceAt(s, i, el))
	}
	return r
}

func (m *Machine) makeFunc(ti *TI, fn Value) Value {
	sig := m.sigOf(ti)
	cl := &Closure{name: "reflect.MakeFunc"}
	cl.nat = func(m *Machine, args []Value) Value {
		var ins []Value
		for i, a := range args {
			ins = append(ins, m.mkRV(&rval{ti: m.ti(sig.Params().At(i).Type()), v: a}))
		}
		out := m.callClosure(fn, []Value{m.mkSlice(m.rvTI(), ins)})
		rs := m.sliceVals(out, m.rvTI())
		if len(rs) != sig.Results().Len() {
			m.strPanic("reflect: wrong return count from function created by MakeFunc")
		}
		var vs []Value
		for i, r := range rs {
			x := m.rv(r)
			if x == nil {
				m.strPanic("reflect: function created by MakeFunc using closure returned zero Value")
			}
			vs = append(vs, m.assignConv(m.ti(sig.Results().At(i).Type()), x))
		}
		switch len(vs) {
		case 0:
			return Value{}
		case 1:
			return vs[0]
		}
		return m.pack(m.ti(sig.Results()), vs)
	}
	return Value{p: cl}
}

func (m *Machine) deepEq(ti *TI, a, b Value, depth int) *Term {
	if depth > 60 {
		m.unsupported("DeepEqual depth")
	}
	tb := m.tb
	switch ti.kind {
	case kSlice:
		if (a.p == nil) != (b.p == nil) {
			return tb.tFals
		}
		if a.p == nil {
			return tb.tTrue
		}
		x, y := a.p.(*SliceV), b.p.(*SliceV)
		if x.len != y.len {
			return tb.tFals
		}
		r := tb.tTrue
		for i := 0; i < x.len; i++ {
			r = tb.And(r, m.deepEq(ti.elem, sliceAt(x, i, ti.elem), sliceAt(y, i, ti.elem), depth+1))
			if r == tb.tFals {
				return r
			}
		}
		return r
	case kMap:
		if (a.p == nil) != (b.p == nil) {
			return tb.tFals
		}
		if a.p == nil {
			return tb.tTrue
		}
		x, y := a.p.(*MapObj), b.p.(*MapObj)
		if x.n != y.n {
			return tb.tFals
		}
		r := tb.tTrue
		for i := range x.ents {
			if !x.ents[i].live {
				continue
			}
			j, _, _ := m.mapFind(y, x.ents[i].k)
			if j < 0 {
				return tb.tFals
			}
			r = tb.And(r, m.deepEq(x.vt, x.ents[i].v, y.ents[j].v, depth+1))
		}
		return r
	case kPtr:
		if a.p == nil || b.p == nil {
			return tb.Bool(a.p == nil && b.p == nil)
		}
		if a.p == b.p && a.n == b.n {
			return tb.tTrue
		}
		el := m.el(ti)
		return m.deepEq(el, m.load(el, a), m.load(el, b), depth+1)
	case kIface:
		if a.p == nil || b.p == nil {
			return tb.Bool(a.p == nil && b.p == nil)
		}
		x, y := a.p.(*Iface), b.p.(*Iface)
		if x.ti != y.ti {
			return tb.tFals
		}
		return m.deepEq(x.ti, x.v, y.v, depth+1)
	case kStruct:
		r := tb.tTrue
		xs, ys := a.p.([]Value), b.p.([]Value)
		for i, ft := range ti.ft {
			r = tb.And(r, m.deepEq(ft, sub(xs, ti.foff[i], ft), sub(ys, ti.foff[i], ft), depth+1))
		}
		return r
	case kArray:
		r := tb.tTrue
		xs, ys := a.p.([]Value), b.p.([]Value)
		for i := 0; i < ti.n; i++ {
			r = tb.And(r, m.deepEq(ti.elem, sub(xs, i*ti.elem.slots, ti.elem), sub(ys, i*ti.elem.slots, ti.elem), depth+1))
		}
		return r
	case kFunc:
		return tb.Bool(a.p == nil && b.p == nil)
	}
	return m.term(m.eqVal(ti, a, b), 0)
}

// fmtVal renders v like fmt's %v (plus: %+v, sharp: %#v is approximated).
func (m *Machine) fmtVal(ti *TI, v Value, plus bool, top bool, depth int) Value {
	if depth > 20 {
		return mkStr("...")
	}
	call := func(name string) (Value, bool) {
		f := m.eng.lookupMethod(ti.t, nil, name)
		if f == nil {
			return Value{}, false
		}
		sig := f.Signature
		if sig.Params().Len() != 0 || sig.Results().Len() != 1 {
			return Value{}, false
		}
		if ti.kind == kPtr && v.p == nil {
			return mkStr("<nil>"), true
		}
		return m.call(m.fnOf(f), []Value{v}, nil), true
	}
	if ti.kind != kIface {
		if s, ok := call("Error"); ok {
			return s
		}
		if s, ok := call("String"); ok {
			return s
		}
	}
	cat := func(parts ...Value) Value {
		r := Value{}
		for _, p := range parts {
			r = strConcat(r, p)
		}
		return r
	}
	switch ti.kind {
	case kString:
		return v
	case kBool:
		if m.truth(v) {
			return mkStr("true")
		}
		return mkStr("false")
	case kInt:
		if v.p != nil {
			if ti.signed {
				return m.call(m.eng.fnByName(m, "strconv", "FormatInt"), []Value{tv(m.tb.SExt(m.term(v, ti.w), 64)), mkInt(10)}, nil)
			}
			return m.call(m.eng.fnByName(m, "strconv", "FormatUint"), []Value{tv(m.tb.ZExt(m.term(v, ti.w), 64)), mkInt(10)}, nil)
		}
		if ti.signed {
			return mkStr(strconv.FormatInt(sext(v.n, ti.w), 10))
		}
		return mkStr(strconv.FormatUint(v.n, 10))
	case kFloat:
		return mkStr(fmt.Sprint(fl(v)))
	case kComplex:
		return mkStr(fmt.Sprint(cx(v)))
	case kIface:
		if v.p == nil {
			return mkStr("<nil>")
		}
		x := v.p.(*Iface)
		return m.fmtVal(x.ti, x.v, plus, top, depth+1)
	case kPtr:
		if v.p == nil {
			return mkStr("<nil>")
		}
		el := m.el(ti)
		if top && (el.kind == kStruct || el.kind == kMap || el.kind == kSlice || el.kind == kArray) {
			return cat(mkStr("&"), m.fmtVal(el, m.load(el, v), plus, false, depth+1))
		}
		return mkStr(fmt.Sprintf("0x%x", m.ptrID(v).n))
	case kFunc, kChan, kUnsafe:
		if v.p == nil {
			return mkStr("<nil>")
		}
		return mkStr(fmt.Sprintf("0x%x", m.ptrID(v).n))
	case kSlice, kArray:
		r := mkStr("[")
		var vs []Value
		if ti.kind == kSlice {
			vs = m.sliceVals(v, ti.elem)
		} else {
			for i := 0; i < ti.n; i++ {
				vs = append(vs, sub(v.p.([]Value), i*ti.elem.slots, ti.elem))
			}
		}
		for i, x := range vs {
			if i > 0 {
				r = cat(r, mkStr(" "))
			}
			r = cat(r, m.fmtVal(ti.elem, x, plus, false, depth+1))
		}
		return cat(r, mkStr("]"))
	case kMap:
		r := mkStr("map[")
		if v.p != nil {
			mo := v.p.(*MapObj)
			type kv struct{ k, v Value }
			var es []kv
			for _, e := range mo.ents {
				if e.live {
					es = append(es, kv{m.fmtVal(mo.kt, e.k, plus, false, depth+1), m.fmtVal(mo.vt, e.v, plus, false, depth+1)})
				}
			}
			for i := 1; i < len(es); i++ {
				for j := i; j > 0 && m.truth(m.strLess(es[j].k, es[j-1].k)); j-- {
					es[j], es[j-1] = es[j-1], es[j]
				}
			}
			for i, e := range es {
				if i > 0 {
					r = cat(r, mkStr(" "))
				}
				r = cat(r, e.k, mkStr(":"), e.v)
			}
		}
		return cat(r, mkStr("]"))
	case kStruct:
		st := ti.u.(*types.Struct)
		r := mkStr("{")
		for i, ft := range ti.ft {
			if i > 0 {
				r = cat(r, mkStr(" "))
			}
			if plus {
				r = cat(r, mkStr(st.Field(i).Name()+":"))
			}
			r = cat(r, m.fmtVal(ft, sub(v.p.([]Value), ti.foff[i], ft), plus, false, depth+1))
		}
		return cat(r, mkStr("}"))
	}
	m.unsupported("formatting %s", ti)
	return Value{}
}

func atomicNative(name string, m *Machine, args []Value) (Value, bool) {
	w := uint8(64)
	switch {
	case strings.HasSuffix(name, "32"):
		w = 32
	}
	ti := &TI{kind: kInt, w: w, slots: 1}
	if strings.HasSuffix(name, "Pointer") {
		ti = &TI{kind: kUnsafe, slots: 1}
	}
	m.schedPoint()
	if m.races != nil {
		m.acquire(args[0], 0)
		if !strings.HasPrefix(name, "Load") {
			m.release(args[0], 0)
		}
	}
	switch {
	case strings.HasPrefix(name, "Load"):
		return m.load(ti, args[0]), true
	case strings.HasPrefix(name, "Store"):
		m.store(ti, args[0], args[1])
		return Value{}, true
	case strings.HasPrefix(name, "Swap"):
		o := m.load(ti, args[0])
		m.store(ti, args[0], args[1])
		return o, true
	case strings.HasPrefix(name, "Add"):
		o := m.load(ti, args[0])
		var n Value
		if o.p == nil && args[1].p == nil {
			n = Value{n: (o.n + args[1].n) & mask(w)}
		} else {
			n = tv(m.tb.Bin(oAdd, m.term(o, w), m.term(args[1], w)))
		}
		m.store(ti, args[0], n)
		return n, true
	case strings.HasPrefix(name, "And"), strings.HasPrefix(name, "Or"):
		o := m.load(ti, args[0])
		op, f := oBAnd, func(x, y uint64) uint64 { return x & y }
		if strings.HasPrefix(name, "Or") {
			op, f = oBOr, func(x, y uint64) uint64 { return x | y }
		}
		var n Value
		if o.p == nil && args[1].p == nil {
			n = Value{n: f(o.n, args[1].n)}
		} else {
			n = tv(m.tb.Bin(op, m.term(o, w), m.term(args[1], w)))
		}
		m.store(ti, args[0], n)
		return o, true
	case strings.HasPrefix(name, "CompareAndSwap"):
		o := m.load(ti, args[0])
		if m.truth(m.eqVal(ti, o, args[1])) {
			m.store(ti, args[0], args[2])
			return mkBool(true), true
		}
		return mkBool(false), true
	}
	return Value{}, false
}

func init() {
	natives = map[string]native{}
	nop := func(m *Machine, a []Value) Value { return Value{} }
	for _, n := range []string{
		"runtime.GC", "runtime.Gosched", "runtime.KeepAlive", "runtime.SetFinalizer", "runtime/debug.PrintStack",
		"(*sync.WaitGroup).Go", "internal/race.Acquire", "internal/race.Release", "internal/race.ReleaseMerge", "internal/race.Disable", "internal/race.Enable",
		"internal/race.Read", "internal/race.Write", "internal/race.ReadRange", "internal/race.WriteRange", "internal/race.Errors",
		"(*internal/godebug.Setting).IncNonDefault", "os.runtime_args", "(*os.File).checkValid", "runtime.LockOSThread", "runtime.UnlockOSThread",
		"internal/testlog.Getenv", "internal/testlog.Open", "internal/testlog.Stat", "log.Printf", "log.Println", "log.Print",
		"runtime/debug.SetGCPercent",
	} {
		natives[n] = nop
	}
	natives["runtime.Gosched"] = func(m *Machine, a []Value) Value { m.schedPoint(); return Value{} }
	natives["(*internal/godebug.Setting).Value"] = func(m *Machine, a []Value) Value { return Value{} }
	natives["(*internal/godebug.Setting).Name"] = func(m *Machine, a []Value) Value { return Value{} }
	natives["internal/godebug.New"] = func(m *Machine, a []Value) Value { return Value{p: m.newObj(8, m.tInt)} }
	natives["runtime.NumCPU"] = func(m *Machine, a []Value) Value { return mkInt(4) }
	natives["runtime.GOMAXPROCS"] = natives["runtime.NumCPU"]
	natives["runtime.Version"] = func(m *Machine, a []Value) Value { return mkStr("go1.22.0") }
	natives["runtime.GOROOT"] = func(m *Machine, a []Value) Value { return mkStr("/goroot") }
	// code addresses: function id*pcSize, for return addresses plus the line in it
	natives["runtime.Callers"] = func(m *Machine, a []Value) Value {
		skip := m.intOf(a[0])
		if a[1].p == nil {
			return Value{}
		}
		sl := a[1].p.(*SliceV)
		fr := m.curFrame
		for i := 1; i < skip && fr != nil; i++ {
			fr = fr.caller
		}
		n := 0
		for ; fr != nil && n < sl.len; fr = fr.caller {
			m.wr(sl.obj, sl.off+n, Value{n: m.framePC(fr)})
			n++
		}
		return mkInt(n)
	}
	natives["runtime.Caller"] = func(m *Machine, a []Value) Value {
		skip := m.intOf(a[0])
		fr := m.curFrame
		for i := 0; i < skip && fr != nil; i++ {
			fr = fr.caller
		}
		if fr == nil {
			return packN(Value{}, Value{}, Value{}, mkBool(false))
		}
		p := m.eng.fset.Position(fr.at())
		return packN(Value{n: m.framePC(fr)}, mkStr(p.Filename), mkInt(p.Line), mkBool(true))
	}
	natives["github.com/xhd2015/xgo/runtime/functab.getFuncPC"] = func(m *Machine, a []Value) Value {
		ifc, ok := a[0].p.(*Iface)
		if !ok {
			m.nilDeref()
		}
		return m.ptrID(ifc.v)
	}
	natives["runtime.FuncForPC"] = func(m *Machine, a []Value) Value {
		pc := a[0].n
		if a[0].p == nil && pc >= 0x400000 {
			id := (pc - 0x400000) / pcSize
			if id >= 1 && int(id) <= len(m.fnByID) {
				o := m.newObj(1, m.tInt)
				o.s[0] = Value{n: id}
				o.name = "runtime.Func"
				return Value{p: o}
			}
		}
		return Value{}
	}
	natives["(*runtime.Func).Name"] = func(m *Machine, a []Value) Value {
		o, ok := a[0].p.(*Obj)
		if !ok {
			return Value{}
		}
		return mkStr(runtimeFuncName(m.fnByID[o.s[0].n-1].f))
	}
	natives["(*runtime.Func).FileLine"] = func(m *Machine, a []Value) Value {
		o, ok := a[0].p.(*Obj)
		if !ok {
			return packN(Value{}, Value{})
		}
		p := m.eng.fset.Position(m.fnByID[o.s[0].n-1].f.Pos())
		line := p.Line
		if d := (a[1].n - 0x400000) % pcSize; d > 1 {
			line += int(d - 1)
		}
		return packN(mkStr(p.Filename), mkInt(line))
	}
	natives["(*runtime.Func).Entry"] = func(m *Machine, a []Value) Value {
		o, ok := a[0].p.(*Obj)
		if !ok {
			return Value{}
		}
		return Value{n: 0x400000 + o.s[0].n*pcSize}
	}
	// memory helpers
	id := func(m *Machine, a []Value) Value { return a[0] }
	natives["internal/abi.NoEscape"] = id
	natives["internal/abi.Escape"] = id
	natives["strings.noescape"] = id
	natives["internal/stringslite.Clone"] = id
	natives["strings.Clone"] = id
	natives["internal/bytealg.MakeNoZero"] = func(m *Machine, a []Value) Value {
		n := m.intOf(a[0])
		return Value{p: &SliceV{obj: m.newObj(n, m.tByte), len: n, cap: n, es: 1}}
	}
	natives["internal/bytealg.Equal"] = func(m *Machine, a []Value) Value {
		x, y := a[0], a[1]
		return m.strEq(bytesAsStr(x), bytesAsStr(y))
	}
	natives["bytes.Equal"] = natives["internal/bytealg.Equal"]
	// casts through the headers of strings and slices
	natives["github.com/xhd2015/xgo/support/strutil.ToReadonlyBytes"] = func(m *Machine, a []Value) Value {
		return m.convert(m.tString, m.tBytes, a[0])
	}
	natives["github.com/xhd2015/xgo/support/strutil.ToReadonlyString"] = func(m *Machine, a []Value) Value {
		return m.convert(m.tBytes, m.tString, a[0])
	}
	for name, f := range map[string]func(float64) float64{"Floor": math.Floor, "Ceil": math.Ceil, "Trunc": math.Trunc, "Log": math.Log, "Exp": math.Exp, "Exp2": math.Exp2} {
		f := f
		natives["math.arch"+name] = func(m *Machine, a []Value) Value {
			if a[0].p != nil {
				panic(&pathAbort{"unsupported", "symbolic float" + m.where()})
			}
			return mkFl(f(fl(a[0])))
		}
	}
	for name, f := range map[string]func(x, y float64) float64{"Max": math.Max, "Min": math.Min, "Hypot": math.Hypot} {
		f := f
		natives["math.arch"+name] = func(m *Machine, a []Value) Value {
			if a[0].p != nil || a[1].p != nil {
				panic(&pathAbort{"unsupported", "symbolic float" + m.where()})
			}
			return mkFl(f(fl(a[0]), fl(a[1])))
		}
	}
	natives["math.Float64bits"] = func(m *Machine, a []Value) Value { return Value{n: a[0].n} }
	natives["math.Float64frombits"] = func(m *Machine, a []Value) Value { return Value{n: a[0].n} }
	natives["math.Float32bits"] = func(m *Machine, a []Value) Value { return Value{n: uint64(math.Float32bits(float32(fl(a[0]))))} }
	natives["math.Float32frombits"] = func(m *Machine, a []Value) Value { return mkFl(float64(math.Float32frombits(uint32(a[0].n)))) }
	natives["internal/reflectlite.Swapper"] = func(m *Machine, a []Value) Value {
		ifc := a[0].p.(*Iface)
		el := ifc.ti.elem
		return Value{p: &Closure{name: "swapper", nat: func(m *Machine, ix []Value) Value {
			s := ifc.v.p.(*SliceV)
			i, j := m.intOf(ix[0]), m.intOf(ix[1])
			x := append([]Value(nil), s.obj.s[s.off+i*s.es:s.off+(i+1)*s.es]...)
			y := append([]Value(nil), s.obj.s[s.off+j*s.es:s.off+(j+1)*s.es]...)
			m.wrN(s.obj, s.off+i*s.es, y)
			m.wrN(s.obj, s.off+j*s.es, x)
			_ = el
			return Value{}
		}}}
	}
	natives["reflect.Swapper"] = natives["internal/reflectlite.Swapper"]
	natives["internal/reflectlite.ValueOf"] = func(m *Machine, a []Value) Value {
		if a[0].p == nil {
			return Value{p: make([]Value, 3)}
		}
		ifc := a[0].p.(*Iface)
		return m.mkRV(&rval{ti: ifc.ti, v: ifc.v})
	}
	natives["(internal/reflectlite.Value).Len"] = func(m *Machine, a []Value) Value {
		return m.rvLen(m.rv(a[0]))
	}
	natives["internal/reflectlite.TypeOf"] = func(m *Machine, a []Value) Value {
		if a[0].p == nil {
			return Value{}
		}
		for _, p := range m.eng.prog.AllPackages() {
			if p.Pkg.Path() == "internal/reflectlite" {
				return Value{p: &Iface{m.ti(p.Pkg.Scope().Lookup("rtype").Type()), Value{p: []Value{{p: a[0].p.(*Iface).ti}}}}}
			}
		}
		return Value{}
	}
	// sync
	lockTI := &TI{kind: kInt, w: 32, slots: 1}
	lock := func(m *Machine, a []Value) Value {
		m.schedPoint()
		p := a[0]
		if p.p == nil {
			m.nilDeref()
		}
		free := func() bool { return m.load(lockTI, p).n == 0 }
		m.block(free, "mutex lock")
		m.acquire(p, 0)
		m.store(lockTI, p, Value{n: 1})
		return Value{}
	}
	unlock := func(m *Machine, a []Value) Value {
		if a[0].p == nil {
			m.nilDeref()
		}
		if m.load(lockTI, a[0]).n != 1 {
			m.strPanic("fatal error: sync: unlock of unlocked mutex")
		}
		m.release(a[0], 0)
		m.store(lockTI, a[0], Value{n: 0})
		m.schedPoint()
		return Value{}
	}
	natives["(*sync.Mutex).Lock"] = lock
	natives["(*sync.Mutex).Unlock"] = unlock
	natives["(*internal/sync.Mutex).Lock"] = lock
	natives["(*internal/sync.Mutex).Unlock"] = unlock
	natives["(*sync.Mutex).TryLock"] = func(m *Machine, a []Value) Value {
		m.schedPoint()
		if m.load(lockTI, a[0]).n != 0 {
			return Value{}
		}
		m.acquire(a[0], 0)
		m.store(lockTI, a[0], Value{n: 1})
		return mkBool(true)
	}
	// RWMutex: first slot: 0 free, k>0 readers, ^0 writer
	natives["(*sync.RWMutex).Lock"] = func(m *Machine, a []Value) Value {
		m.schedPoint()
		m.block(func() bool { return m.load(lockTI, a[0]).n == 0 }, "rwmutex lock")
		m.acquire(a[0], 0)
		m.acquire(a[0], 1)
		m.store(lockTI, a[0], Value{n: mask(32)})
		return Value{}
	}
	natives["(*sync.RWMutex).Unlock"] = func(m *Machine, a []Value) Value {
		if m.load(lockTI, a[0]).n != mask(32) {
			m.strPanic("fatal error: sync: Unlock of unlocked RWMutex")
		}
		m.release(a[0], 0)
		m.store(lockTI, a[0], Value{n: 0})
		m.schedPoint()
		return Value{}
	}
	natives["(*sync.RWMutex).RLock"] = func(m *Machine, a []Value) Value {
		m.schedPoint()
		m.block(func() bool { return m.load(lockTI, a[0]).n != mask(32) }, "rwmutex rlock")
		m.acquire(a[0], 0)
		m.store(lockTI, a[0], Value{n: m.load(lockTI, a[0]).n + 1})
		return Value{}
	}
	natives["(*sync.RWMutex).RUnlock"] = func(m *Machine, a []Value) Value {
		n := m.load(lockTI, a[0]).n
		if n == 0 || n == mask(32) {
			m.strPanic("fatal error: sync: RUnlock of unlocked RWMutex")
		}
		m.release(a[0], 1)
		m.store(lockTI, a[0], Value{n: n - 1})
		m.schedPoint()
		return Value{}
	}
	// WaitGroup: slot 0 as counter
	wgSlot := func(m *Machine, p Value) Value { return p }
	natives["(*sync.WaitGroup).Add"] = func(m *Machine, a []Value) Value {
		p := wgSlot(m, a[0])
		n := int64(m.load(lockTI, p).n) + int64(a[1].n)
		if n < 0 {
			m.strPanic("sync: negative WaitGroup counter")
		}
		if a[1].n>>63 == 1 {
			m.release(p, 0)
		}
		m.store(lockTI, p, Value{n: uint64(n)})
		m.schedPoint()
		return Value{}
	}
	natives["(*sync.WaitGroup).Done"] = func(m *Machine, a []Value) Value {
		return natives["(*sync.WaitGroup).Add"](m, []Value{a[0], {n: ^uint64(0)}})
	}
	natives["(*sync.WaitGroup).Wait"] = func(m *Machine, a []Value) Value {
		m.schedPoint()
		m.block(func() bool { return m.load(lockTI, a[0]).n == 0 }, "WaitGroup.Wait")
		m.acquire(a[0], 0)
		return Value{}
	}
	delete(natives, "(*sync.WaitGroup).Go")
	natives["(*sync.Pool).Get"] = func(m *Machine, a []Value) Value {
		o := a[0].p.(*Obj)
		// New is the last slot of sync.Pool
		for _, p := range m.eng.prog.AllPackages() {
			if p.Pkg.Path() == "sync" {
				pt := m.ti(p.Pkg.Scope().Lookup("Pool").Type())
				nf := o.s[int(a[0].n)+pt.slots-1]
				if nf.p == nil {
					return Value{}
				}
				return m.callClosure(nf, nil)
			}
		}
		return Value{}
	}
	natives["(*sync.Pool).Put"] = nop
	for _, n := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		for _, op := range []string{"Load", "Store", "Swap", "Add", "And", "Or", "CompareAndSwap"} {
			name := op + n
			natives["sync/atomic."+name] = func(m *Machine, a []Value) Value {
				v, ok := atomicNative(name, m, a)
				if !ok {
					m.unsupported("atomic %s", name)
				}
				return v
			}
		}
	}
	for n, tgt := range map[string]string{"Load": "LoadUint32", "Loadp": "LoadPointer", "Load64": "LoadUint64", "LoadAcq": "LoadUint32", "Cas": "CompareAndSwapUint32", "Store": "StoreUint32"} {
		tgt := tgt
		natives["internal/runtime/atomic."+n] = func(m *Machine, a []Value) Value { v, _ := atomicNative(tgt, m, a); return v }
	}
	natives["(*sync/atomic.Value).Load"] = func(m *Machine, a []Value) Value {
		m.schedPoint()
		m.acquire(a[0], 0)
		return m.load(m.tAny, a[0])
	}
	natives["(*sync/atomic.Value).Store"] = func(m *Machine, a []Value) Value {
		m.schedPoint()
		if a[1].p == nil {
			m.strPanic("sync/atomic: store of nil value into Value")
		}
		m.release(a[0], 0)
		m.store(m.tAny, a[0], a[1])
		return Value{}
	}
	// zzsvstub helpers
	natives["zzsvstub.hostFmt"] = func(m *Machine, a []Value) Value {
		plus := a[0].n != 0
		if a[1].p == nil {
			return mkStr("<nil>")
		}
		ifc := a[1].p.(*Iface)
		return m.fmtVal(ifc.ti, ifc.v, plus, true, 0)
	}
	natives["zzsvstub.hostFmtC"] = func(m *Machine, a []Value) Value {
		// concrete basic value with a full verb
		verb := m.goString(a[0])
		if a[1].p == nil {
			return mkStr(fmt.Sprintf(verb, nil))
		}
		ifc := a[1].p.(*Iface)
		switch ifc.ti.kind {
		case kInt:
			n := m.intConc(ifc.v, ifc.ti)
			if ifc.ti.signed {
				return mkStr(fmt.Sprintf(verb, n))
			}
			return mkStr(fmt.Sprintf(verb, uint64(n)))
		case kFloat:
			return mkStr(fmt.Sprintf(verb, fl(ifc.v)))
		case kBool:
			return mkStr(fmt.Sprintf(verb, m.truth(ifc.v)))
		case kString:
			return mkStr(fmt.Sprintf(verb, m.goString(ifc.v)))
		}
		return m.fmtVal(ifc.ti, ifc.v, false, true, 0)
	}
	natives["zzsvstub.typeName"] = func(m *Machine, a []Value) Value {
		if a[0].p == nil {
			return mkStr("<nil>")
		}
		return mkStr(a[0].p.(*Iface).ti.String())
	}
	natives["zzsvstub.ptrOf"] = func(m *Machine, a []Value) Value {
		if a[0].p == nil {
			return Value{}
		}
		return m.ptrID(a[0].p.(*Iface).v)
	}
	natives["zzsvstub.asTarget"] = func(m *Machine, a []Value) Value {
		if a[1].p == nil {
			m.strPanic("errors: target cannot be nil")
		}
		t := a[1].p.(*Iface)
		el := m.el(t.ti)
		e := a[0].p.(*Iface)
		if el.kind == kIface {
			if m.implements(e.ti, el) {
				m.store(el, t.v, a[0])
				return mkBool(true)
			}
			return Value{}
		}
		if e.ti == el {
			m.store(el, t.v, e.v)
			return mkBool(true)
		}
		return Value{}
	}
	natives["zzsvstub.comparable_"] = func(m *Machine, a []Value) Value {
		if a[0].p == nil {
			return mkBool(true)
		}
		return mkBool(comparable(a[0].p.(*Iface).ti))
	}
	initReflect()
	initJSON()
	initSV()
}

func (m *Machine) intConc(v Value, ti *TI) int64 {
	if v.p != nil {
		v = Value{n: m.concretize(m.term(v, ti.w), "formatted int")}
	}
	if ti.signed {
		return sext(v.n, ti.w)
	}
	return int64(v.n)
}

func bytesAsStr(v Value) Value { return v }

func runtimeFuncName(f *ssa.Function) string {
	// go/ssa: (*pkg.T).M, pkg.F, pkg.F$1  -> runtime: pkg.(*T).M, pkg.F, pkg.F.func1
	s := f.String()
	if f.Signature.Recv() != nil || strings.HasPrefix(s, "(") {
		if i := strings.Index(s, ")"); i > 0 && s[0] == '(' {
			in := s[1:i]
			rest := s[i+1:]
			ptr := strings.HasPrefix(in, "*")
			in = strings.TrimPrefix(in, "*")
			slash := strings.LastIndex(in, "/")
			dot := strings.Index(in[slash+1:], ".")
			pkg, typ := in[:slash+1+dot], in[slash+1+dot+1:]
			if k := strings.IndexByte(typ, '['); k >= 0 {
				typ = typ[:k] + "[...]"
			}
			if ptr {
				typ = "(*" + typ + ")"
			}
			suffix := ""
			if strings.HasSuffix(rest, "$bound") {
				rest = strings.TrimSuffix(rest, "$bound")
				suffix = "-fm"
			}
			s = pkg + "." + typ + rest + suffix
		}
	}
	first := true
	for {
		i := strings.IndexByte(s, '$')
		if i < 0 {
			break
		}
		if first {
			s = s[:i] + ".func" + s[i+1:]
		} else {
			s = s[:i] + "." + s[i+1:]
		}
		first = false
	}
	return s
}

func (m *Machine) rvLen(r *rval) Value {
	v := r.get(m)
	switch r.ti.kind {
	case kSlice:
		if v.p == nil {
			return Value{}
		}
		return mkInt(v.p.(*SliceV).len)
	case kString:
		return mkInt(strLen(v))
	case kMap:
		if v.p == nil {
			return Value{}
		}
		return mkInt(v.p.(*MapObj).n)
	case kArray:
		return mkInt(r.ti.n)
	case kChan:
		return mkInt(len(v.p.(*ChanObj).buf))
	}
	m.strPanic("reflect: call of reflect.Value.Len on " + r.ti.String() + " Value")
	return Value{}
}

var _ = os.Getenv
