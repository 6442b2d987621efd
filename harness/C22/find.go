package zzsv

//gosx:pkg runtime zzsv
//gosx:with ../common/rtsim.go.txt
//gosx:replace runtime/internal/runtime/runtime_link.go ../common/rtlink.go.txt

import (
	"context"
	"fmt"
	"reflect"
	"unsafe"

	"github.com/xhd2015/xgo/runtime/core"
	"github.com/xhd2015/xgo/runtime/functab"
	xrt "github.com/xhd2015/xgo/runtime/internal/runtime"
	"github.com/xhd2015/xgo/runtime/mock"
	"github.com/xhd2015/xgo/runtime/trace"
	"github.com/xhd2015/xgo/runtime/trap"
)

func c22Escape(s string) string {
	slash := -1
	for i := 0; i < len(s); i++ {
		if s[i] == '/' {
			slash = i
		}
	}
	var b []byte
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c <= ' ' || (c == '.' && i > slash) || c == '%' || c == '"' || c >= 0x7f {
			b = append(b, '%', "0123456789abcdef"[c>>4], "0123456789abcdef"[c&15])
		} else {
			b = append(b, c)
		}
	}
	return string(b)
}

var c22Args = []string{"int", "[]int", "map[string]p.K", "func(int) (string, error)", "ex.com/p/q%2ev2.K", "struct { X int \"a]b[(\" }", "p.Two[int,ex.com/q.K]"}

// SV_find: what is registered is found by its package and name, by its full
// name with type arguments, by its value or by its address, and nothing else is
// found instead of it.
//
//gosx:bounds 5 generic or interface entries and 3 similar ones of another package next to 10 functions, methods and variables, registered in 3 orders; package paths with 2 arbitrary bytes; full names with 1 of 7 lists of type arguments; the thing looked up is any of them
//gosx:budget quick=30s thorough=60s
func SV_find() {
	el := svStrIn("el", 2, "a._%v-")
	pkg := []string{"", "ex.com/", "ex.com/a.b/"}[svChoose("path", 3)] + "p" + el + "k"
	reg := []*core.FuncInfo{
		{Kind: core.Kind_Func, Pkg: pkg, IdentityName: "F", Name: "F", Generic: true, ArgNames: []string{"a"}},
		{Kind: core.Kind_Func, Pkg: pkg, IdentityName: "(*T).M", Name: "M", RecvType: "T", RecvPtr: true, Generic: true},
		{Kind: core.Kind_Func, Pkg: pkg, IdentityName: "T.V", Name: "V", RecvType: "T", Generic: true},
		{Kind: core.Kind_Func, Pkg: pkg, IdentityName: "I", Name: "I", RecvType: "I", Interface: true},
		{Kind: core.Kind_Func, Pkg: pkg, IdentityName: "M", Name: "M", Generic: true},
		// similar ones
		{Kind: core.Kind_Func, Pkg: pkg + "x", IdentityName: "F", Name: "F", Generic: true},
		{Kind: core.Kind_Func, Pkg: pkg + "x", IdentityName: "(*T).M", Name: "M", RecvType: "T", RecvPtr: true, Generic: true},
		{Kind: core.Kind_Func, Pkg: pkg + "x", IdentityName: "I", Name: "I", RecvType: "I", Interface: true},
	}
	k := svChoose("order", 3) * 3
	simSetup()
	before := len(functab.GetFuncs())
	for i := range reg[k%len(reg):] {
		functab.RegisterFunc(reg[k%len(reg)+i])
	}
	for i := range reg[:k%len(reg)] {
		functab.RegisterFunc(reg[i])
	}
	svAssert(len(functab.GetFuncs()) == before+len(reg), "each is listed once")

	sym := c22Escape(pkg)
	args := c22Args[svChoose("args", len(c22Args))]
	var full, byPkg string
	want := svChoose("want", 5)
	switch want {
	case 0:
		full, byPkg = sym+".F["+args+"]", "F"
	case 1:
		full, byPkg = sym+".(*T["+args+"]).M", "T.M"
	case 2:
		full, byPkg = sym+".T["+args+"].V", "T.V"
	case 3:
		full, byPkg = sym+".I.Do", "I"
	case 4:
		full, byPkg = sym+".M["+args+"]", "M"
	}
	info := reg[want]
	svAssert(functab.GetFuncByFullName(full) == info, "found by its full name")
	svAssert(functab.GetFuncByPkg(pkg, byPkg) == info, "found in the package")
	svAssert(functab.GetFuncByPkg(pkg, info.IdentityName) == info, "found by its name in the package")
	svAssert(functab.Info(pkg, info.IdentityName) == info, "found by its identity")
	svAssert(functab.Info(pkg+"x", "F") != info && functab.Info(pkg+"x", "T.V") == nil, "that of another package is not")
	svAssert(functab.GetFuncByPkg(pkg, "X."+info.Name) == nil && functab.GetFuncByPkg(pkg, "(X)."+info.Name) == nil, "that of another type is not")
	svAssert(functab.GetFuncByFullName(sym+".(*I).Do") == nil, "a pointer to an interface has no methods")
	svAssert(functab.GetFuncByFullName(sym+"x.V[int]") == nil && functab.GetFuncByFullName(sym+".Nope[int]") == nil, "nothing is found for others")
	svReach("end")
}

// SV_find_plain: functions, methods and variables are found by what they are and
// by their names, and described as they are.
//
//gosx:bounds 10 functions, methods and variables, any of them looked up
func SV_find_plain() {
	simSetup()
	var fn interface{}
	var info *core.FuncInfo
	var recv reflect.Type
	name := ""
	switch svChoose("what", 8) {
	case 0:
		fn, info, name = simF, infoF, "simF"
	case 1:
		fn, info, name = simH, infoH, "simH"
	case 2:
		fn, info, name, recv = (*simT).M, infoM, "simT.M", reflect.TypeOf(&simT{})
	case 3:
		fn, info, name, recv = (*simT).N, infoN, "(*simT).N", reflect.TypeOf(&simT{})
	case 4:
		fn, info, name, recv = simV.M, infoVal, "simV.M", reflect.TypeOf(simV{})
	case 5:
		fn, info, name = simG, infoG, "simG"
	case 6:
		fn, info, name = simC, infoC, "simC"
	case 7:
		fn, info, name, recv = simU.M, infoU, "simU.M", reflect.TypeOf(simU{})
	}
	svAssert(functab.InfoFunc(fn) == info, "found by value")
	svAssert(functab.InfoPC(reflect.ValueOf(fn).Pointer()) == info, "found by its code")
	svAssert(functab.GetFuncByPkg(simPkg, name) == info, "found by name")
	svAssert(functab.Info(simPkg, info.IdentityName) == info, "found by identity")
	svAssert(info.FullName == simPkg+"."+info.IdentityName && functab.GetFuncByFullName(info.FullName) == info, "found by its full name")
	svAssert(info.FirstArgCtx == (info == infoC), "first argument is a context")
	svAssert(info.LastResultErr == (info == infoC || info == infoG), "last result is an error")
	if recv != nil {
		svAssert(functab.GetTypeMethods(recv)[info.Name] == info, "found by the type of its receiver")
		svAssert(functab.GetTypeMethods(reflect.PtrTo(recv))[info.Name] == nil, "not by another type")
	}
	svAssert(functab.InfoVar(&simX) == infoX && functab.InfoVar(&simY) == infoY, "variables")
	other := 0
	svAssert(functab.InfoVar(&other) == nil && functab.InfoFunc(notGeneric) == nil, "others are not found")
	svReach("end")
}

func notGeneric() {}

type c22K struct{}

func (c22K) Ctx(ctx context.Context, n int) (int, error) { return n, nil }
func (*c22K) Err(n int, ctx context.Context) error       { return nil }
func (c22K) Last(ctx context.Context) (error, int)       { return nil, 0 }
func (*c22K) None()                                      {}

type c22Ctx struct{ context.Context }

func c22CtxImpl(c c22Ctx, n int) (*c22K, *c22E) { return nil, nil }

type c22E struct{}

func (*c22E) Error() string { return "" }

// SV_described: a registration says whether the function takes a context first,
// not counting its receiver, and whether it returns an error last.
//
//gosx:bounds 6 functions and methods
func SV_described() {
	var fn interface{}
	info := &core.FuncInfo{Kind: core.Kind_Func, Pkg: simPkg, RecvType: "c22K"}
	ctx, err := false, false
	switch svChoose("what", 6) {
	case 0:
		fn, info.Name, info.IdentityName, ctx, err = c22K.Ctx, "Ctx", "c22K.Ctx", true, true
	case 1:
		fn, info.Name, info.IdentityName, err = (*c22K).Err, "Err", "(*c22K).Err", true
	case 2:
		fn, info.Name, info.IdentityName, ctx = c22K.Last, "Last", "c22K.Last", true
	case 3:
		fn, info.Name, info.IdentityName = (*c22K).None, "None", "(*c22K).None"
	case 4:
		fn, info.Name, info.IdentityName, info.RecvType, ctx = c22CtxImpl, "c22CtxImpl", "c22CtxImpl", "", true
	case 5:
		fn, info.Name, info.IdentityName, info.RecvType = notGeneric, "notGeneric", "notGeneric", ""
	}
	info.Func = fn
	functab.RegisterFunc(info)
	svAssert(info.FirstArgCtx == ctx, "takes a context first")
	svAssert(info.LastResultErr == err, "returns an error last")
	svAssert(info.PC == reflect.ValueOf(fn).Pointer() && functab.InfoFunc(fn) == info, "found by its code")
	svAssert(info.FullName == simPkg+"."+info.IdentityName, "full name")
	svReach("end")
}

type c22A struct{ n int }
type c22B struct{ n int }

var infoShape = &core.FuncInfo{Kind: core.Kind_Func, Pkg: "ex.com/p.v1", IdentityName: "G", Name: "G", Generic: true, ArgNames: []string{"a", "n"}, ResNames: []string{"r"}}
var infoShapeM = &core.FuncInfo{Kind: core.Kind_Func, Pkg: "ex.com/p.v1", IdentityName: "(*T).M", Name: "M", RecvType: "T", RecvName: "t", RecvPtr: true, Generic: true, ArgNames: []string{"n"}, ResNames: []string{"r"}}

// shape is the code that the instances of a generic function with types of the
// same shape share; only the pointers it passes have the types of the instance.
//
//go:noinline
func shape(info *core.FuncInfo, recv interface{}, args []interface{}, results []interface{}, body func()) {
	post, stop := xrt.SvTrap(unsafe.Pointer(info), recv, args, results)
	if post != nil {
		defer post()
	}
	if stop {
		return
	}
	body()
}

//go:noinline
func shapeGA(a *c22A, n int) (r *c22A) {
	shape(infoShape, nil, []interface{}{&a, &n}, []interface{}{&r}, func() { r = &c22A{a.n + n} })
	return
}

//go:noinline
func shapeGB(a *c22B, n int) (r *c22B) {
	shape(infoShape, nil, []interface{}{&a, &n}, []interface{}{&r}, func() { r = &c22B{a.n + n} })
	return
}

type c22TA struct{ n int }
type c22TB struct{ n int }

//go:noinline
func (t *c22TA) M(n int) (r int) {
	shape(infoShapeM, &t, []interface{}{&n}, []interface{}{&r}, func() { r = t.n + n })
	return
}

//go:noinline
func (t *c22TB) M(n int) (r int) {
	shape(infoShapeM, &t, []interface{}{&n}, []interface{}{&r}, func() { r = t.n + n })
	return
}

// SV_instances: mocks, recorders and interceptors of an instance of a generic
// function or method see its calls, and no calls of other instances, though
// instances share their code.
//
//gosx:bounds 2 instances of a function, 2 of a method (mocked as such or for an object); 3 (thorough 4) steps that mock, intercept, record or cancel, calls of both instances after each; symbolic values; 1 of 7 lists of type arguments in their names
//gosx:budget quick=40s thorough=120s
func SV_instances() {
	functab.RegisterFunc(infoShape)
	functab.RegisterFunc(infoShapeM)
	simSetup()
	args := c22Args[svChoose("args", len(c22Args))]
	method := svChoose("what", 3) // 0: function, 1: method of the type, 2: method of an object
	full := "ex.com/p%2ev1.G[" + args + "]"
	switch method {
	case 1:
		full = "ex.com/p%2ev1.(*T[" + args + "]).M"
	case 2:
		full = "ex.com/p%2ev1.(*T[" + args + "]).M-fm"
	}
	xrt.SvPCName = func(pc uintptr) string { return full }
	n := svInt("n", -1000, 1000)
	ta, tb := &c22TA{1}, &c22TB{2}
	type handler struct {
		inst   int
		kind   int // 0: mock, 1: mocking interceptor, 2: recorder, 3: interceptor
		k      int
		cancel func()
		count  int
	}
	var active []*handler
	setup := func(s string) {
		h := &handler{inst: svChoose("inst"+s, 2), kind: svChoose("kind"+s, 4), k: svInt("k"+s, -1000, 1000)}
		var fn, rep, rec interface{}
		switch method {
		case 0:
			if h.inst == 0 {
				fn = shapeGA
				rep = func(a *c22A, m int) *c22A { return &c22A{7*m + h.k} }
				rec = func(a *c22A, m int, r *c22A) { h.count++; svAssert(a.n == 1 && m == n, "recorded values") }
			} else {
				fn = shapeGB
				rep = func(a *c22B, m int) *c22B { return &c22B{7*m + h.k} }
				rec = func(a *c22B, m int, r *c22B) { h.count++; svAssert(a.n == 2 && m == n, "recorded values") }
			}
		case 1:
			if h.inst == 0 {
				fn = (*c22TA).M
				rep = func(t *c22TA, m int) int { return 7*m + h.k }
				rec = func(t *c22TA, m int, r int) { h.count++; svAssert(t.n == 1 && m == n, "recorded values") }
			} else {
				fn = (*c22TB).M
				rep = func(t *c22TB, m int) int { return 7*m + h.k }
				rec = func(t *c22TB, m int, r int) { h.count++; svAssert(t.n == 2 && m == n, "recorded values") }
			}
		case 2:
			if h.inst == 0 {
				fn = ta.M
			} else {
				fn = tb.M
			}
			rep = func(m int) int { return 7*m + h.k }
			rec = func(m int, r int) { h.count++; svAssert(m == n, "recorded values") }
		}
		switch h.kind {
		case 0:
			h.cancel = mock.Patch(fn, rep)
		case 1:
			h.cancel = mock.Mock(fn, func(ctx context.Context, f *core.FuncInfo, args core.Object, results core.Object) error {
				m := args.GetField("n").Value().(int)
				switch {
				case method > 0:
					results.GetFieldIndex(0).Set(7*m + h.k)
				case h.inst == 0:
					results.GetFieldIndex(0).Set(&c22A{7*m + h.k})
				default:
					results.GetFieldIndex(0).Set(&c22B{7*m + h.k})
				}
				return nil
			})
		case 2:
			h.cancel = trace.RecordCall(fn, rec)
		case 3:
			h.cancel = trap.AddFuncInterceptor(fn, &trap.Interceptor{Pre: func(ctx context.Context, f *core.FuncInfo, args core.Object, results core.Object) (interface{}, error) {
				h.count++
				svAssert(args.GetField("n").Value().(int) == n, "argument")
				return nil, nil
			}})
		}
		active = append(active, h)
	}
	call := func(inst int) {
		var got int
		switch {
		case method == 0 && inst == 0:
			got = shapeGA(&c22A{1}, n).n
		case method == 0:
			got = shapeGB(&c22B{2}, n).n
		case inst == 0:
			got = ta.M(n)
		default:
			got = tb.M(n)
		}
		want := n + 1 + inst
		for _, h := range active {
			if h.inst == inst && h.kind <= 1 {
				want = 7*n + h.k
			}
		}
		svAssert(got == want, "the result is that of the mock of the instance, or its own")
	}
	steps := 3
	if svTier() > 0 {
		steps = 4
	}
	for i := 0; i < steps; i++ {
		s := fmt.Sprint(i)
		if len(active) > 0 && svChoose("op"+s, 2) == 1 {
			j := svChoose("which"+s, len(active))
			active[j].cancel()
			active = append(active[:j:j], active[j+1:]...)
		} else {
			setup(s)
		}
		for inst := 0; inst < 2; inst++ {
			for _, h := range active {
				h.count = 0
			}
			call(inst)
			for _, h := range active {
				want := 0
				if h.inst == inst && h.kind >= 2 {
					want = 1
				}
				svAssert(h.count == want, "recorders and interceptors of the instance are called, others are not")
			}
		}
	}
	svReach("end")
}

// SV_by_name: what has no code of its own cannot be mocked by name.
//
//gosx:bounds a generic function, a generic method and an interface, by their names; a symbolic argument
func SV_by_name() {
	functab.RegisterFunc(infoShape)
	functab.RegisterFunc(infoShapeM)
	functab.RegisterFunc(&core.FuncInfo{Kind: core.Kind_Func, Pkg: "ex.com/p.v1", IdentityName: "I", Name: "I", RecvType: "I", Interface: true})
	simSetup()
	n := svInt("n", -1000, 1000)
	called := false
	var err interface{}
	func() {
		defer func() { err = recover() }()
		switch svChoose("what", 4) {
		case 0:
			mock.PatchByName("ex.com/p.v1", "G", func(a *c22A, n int) *c22A { called = true; return nil })
		case 1:
			mock.PatchByName("ex.com/p.v1", "(*T).M", func(t *c22TA, n int) int { called = true; return 0 })
		case 2:
			mock.PatchByName("ex.com/p.v1", "I", func() { called = true })
		case 3:
			mock.MockByName("ex.com/p.v1", "T.M", func(ctx context.Context, f *core.FuncInfo, args core.Object, results core.Object) error {
				called = true
				return nil
			})
		}
	}()
	svAssert(err != nil, "refused")
	svAssert(shapeGA(&c22A{1}, n).n == n+1 && (&c22TA{1}).M(n) == n+1 && !called, "nothing is mocked")
	svReach("end")
}
