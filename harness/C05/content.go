package zzsv

//gosx:pkg runtime zzsv
//gosx:with ../common/rtsim.go.txt
//gosx:with ../common/rttrace.go.txt
//gosx:replace runtime/internal/runtime/runtime_link.go ../common/rtlink.go.txt

import (
	"context"
	"runtime"
	"strings"
	"unsafe"

	"github.com/xhd2015/xgo/runtime/core"
	"github.com/xhd2015/xgo/runtime/functab"
	xrt "github.com/xhd2015/xgo/runtime/internal/runtime"
	"github.com/xhd2015/xgo/runtime/mock"
	"github.com/xhd2015/xgo/runtime/trace"
	"github.com/xhd2015/xgo/runtime/trace/stack_model"
)

var (
	infoC05CE = &core.FuncInfo{Kind: core.Kind_Func, Pkg: simPkg, IdentityName: "c05CtxErr", Name: "c05CtxErr", File: "/some/a.go", Line: 12, ArgNames: []string{"ctx", "a", "b"}, ResNames: []string{"r", "err"}, FirstArgCtx: true, LastResultErr: true}
	infoC05C2 = &core.FuncInfo{Kind: core.Kind_Func, Pkg: simPkg, IdentityName: "c05Ctx2", Name: "c05Ctx2", File: "/some/a.go", Line: 20, ArgNames: []string{"a", "ctx"}, ResNames: []string{"err", "r"}}
	infoC05OC = &core.FuncInfo{Kind: core.Kind_Func, Pkg: simPkg, IdentityName: "c05OnlyCtx", Name: "c05OnlyCtx", File: "/some/a.go", Line: 31, ArgNames: []string{"ctx"}, ResNames: []string{"err"}, FirstArgCtx: true, LastResultErr: true}
	infoC05NO = &core.FuncInfo{Kind: core.Kind_Func, Pkg: simPkg, IdentityName: "c05None", Name: "c05None", File: "/some/b.go", Line: 1}
	infoC05MM = &core.FuncInfo{Kind: core.Kind_Func, Pkg: simPkg, IdentityName: "(*c05T).M", Name: "M", RecvType: "c05T", RecvPtr: true, RecvName: "t", File: "/some/b.go", Line: 5, ArgNames: []string{"ctx", "a"}, ResNames: []string{"r"}, FirstArgCtx: true}
	infoC05MV = &core.FuncInfo{Kind: core.Kind_Func, Pkg: simPkg, IdentityName: "c05T.V", Name: "V", RecvType: "c05T", RecvName: "v", File: "/some/b.go", Line: 9, ArgNames: []string{"a"}, ResNames: []string{"r"}}
	infoC05PA = &core.FuncInfo{Kind: core.Kind_Func, Pkg: simPkg, IdentityName: "c05panics", Name: "c05panics", File: "/some/b.go", Line: 15, ArgNames: []string{"a"}, ResNames: []string{"r"}}
)

// c05T is a receiver in JSON.
type c05T struct{ Id int }

//go:noinline
func c05CtxErr(ctx context.Context, a int, b string) (r int, err error) {
	post, stop := xrt.SvTrap(unsafe.Pointer(infoC05CE), nil, []interface{}{&ctx, &a, &b}, []interface{}{&r, &err})
	if post != nil {
		defer post()
	}
	if stop {
		return
	}
	if a == 2 {
		return a, errSim
	}
	return a + 10, nil
}

//go:noinline
func c05Ctx2(a int, ctx context.Context) (err error, r int) {
	post, stop := xrt.SvTrap(unsafe.Pointer(infoC05C2), nil, []interface{}{&a, &ctx}, []interface{}{&err, &r})
	if post != nil {
		defer post()
	}
	if stop {
		return
	}
	return nil, a + 20
}

//go:noinline
func c05OnlyCtx(ctx context.Context) (err error) {
	post, stop := xrt.SvTrap(unsafe.Pointer(infoC05OC), nil, []interface{}{&ctx}, []interface{}{&err})
	if post != nil {
		defer post()
	}
	if stop {
		return
	}
	return errSim
}

//go:noinline
func c05None() {
	post, stop := xrt.SvTrap(unsafe.Pointer(infoC05NO), nil, []interface{}{}, []interface{}{})
	if post != nil {
		defer post()
	}
	if stop {
		return
	}
}

//go:noinline
func (t *c05T) M(ctx context.Context, a int) (r int) {
	post, stop := xrt.SvTrap(unsafe.Pointer(infoC05MM), &t, []interface{}{&ctx, &a}, []interface{}{&r})
	if post != nil {
		defer post()
	}
	if stop {
		return
	}
	return a + t.Id
}

//go:noinline
func (v c05T) V(a int) (r int) {
	post, stop := xrt.SvTrap(unsafe.Pointer(infoC05MV), &v, []interface{}{&a}, []interface{}{&r})
	if post != nil {
		defer post()
	}
	if stop {
		return
	}
	return a - v.Id
}

var c05file string
var c05line int

//go:noinline
func c05panics(a int) (r int) {
	post, stop := xrt.SvTrap(unsafe.Pointer(infoC05PA), nil, []interface{}{&a}, []interface{}{&r})
	if post != nil {
		defer post()
	}
	if stop {
		return
	}
	_, c05file, c05line, _ = runtime.Caller(0)
	if a == 2 {
		c05line += 4
		xrt.SvSetPanic("two")
		panic("two")
	}
	c05line += 8
	xrt.SvSetPanic("one")
	panic("one")
}

// reads of variables become calls of such functions
func c05get() int {
	v := simX
	xrt.SvVarTrap(unsafe.Pointer(infoX), &simX, &v)
	return v
}

func c05getAddr() *int {
	v := &simX
	xrt.SvVarPtrTrap(unsafe.Pointer(infoX), &simX, &v)
	return v
}

func c05read() int {
	_, c05file, c05line, _ = runtime.Caller(0)
	return c05get()
}

func c05readAddr() *int {
	_, c05file, c05line, _ = runtime.Caller(0)
	return c05getAddr()
}

var c05cRegistered bool

// What an entry says about the call.
//
//gosx:budget quick=60s thorough=120s
//gosx:bounds calls of functions and methods of 8 signatures, reads of a variable, 2 values, mocked or not; 1 (thorough 2) entries
func SV_entry_content() {
	simTraceSetup()
	if !c05cRegistered {
		c05cRegistered = true
		infoC05CE.Func = c05CtxErr
		infoC05C2.Func = c05Ctx2
		infoC05OC.Func = c05OnlyCtx
		infoC05NO.Func = c05None
		infoC05MM.Func = (*c05T).M
		infoC05MV.Func = c05T.V
		infoC05PA.Func = c05panics
		for _, f := range []*core.FuncInfo{infoC05CE, infoC05C2, infoC05OC, infoC05NO, infoC05MM, infoC05MV, infoC05PA} {
			functab.RegisterFunc(f)
		}
	}
	ctx := context.Background()
	type want struct {
		f             *core.FuncInfo
		args, results string
		err           string
		panicked      bool
		file          string
		line          int
	}
	var wants []want
	var stack *stack_model.Stack
	simTrace(trace.Config{OnFinish: func(s stack_model.IStack) { stack = s.Data() }}, nil, func() (interface{}, error) {
		for i := 0; i < 1+svTier(); i++ {
			a := 1 + svPick("a", 2)
			t := &c05T{a + 4}
			digit := string(rune('0' + a))
			mocked := svPick("mocked", 2) == 1
			var w want
			cancel := func() {}
			switch svChoose("kind", 9) {
			case 0:
				w = want{f: infoC05CE, args: `{"a":` + digit + `,"b":"x"}`, results: `{"r":1` + digit + `}`}
				if a == 2 {
					w.results, w.err = `{"r":2}`, "sim error"
				}
				if mocked {
					cancel = mock.Patch(c05CtxErr, func(ctx context.Context, a int, b string) (int, error) { return 5, errSim })
					w.results, w.err = `{"r":5}`, "sim error"
				}
				c05CtxErr(ctx, a, "x")
			case 1:
				w = want{f: infoC05C2, args: `{"a":` + digit + `,"ctx":{}}`, results: `{"err":null,"r":2` + digit + `}`}
				c05Ctx2(a, ctx)
			case 2:
				w = want{f: infoC05OC, args: `{}`, results: `{}`, err: "sim error"}
				if mocked {
					cancel = mock.Patch(c05OnlyCtx, func(ctx context.Context) error { return nil })
					w.err = ""
				}
				c05OnlyCtx(ctx)
			case 3:
				w = want{f: infoC05NO, args: `{}`, results: `{}`}
				c05None()
			case 4:
				w = want{f: infoC05MM, args: `{"t":{"Id":` + string(rune('4'+a)) + `},"a":3}`, results: `{"r":` + string(rune('7'+a)) + `}`}
				if mocked {
					cancel = mock.Patch(t.M, func(ctx context.Context, a int) int { return 1 })
					w.results = `{"r":1}`
				}
				t.M(ctx, 3)
			case 5:
				w = want{f: infoC05MV, args: `{"v":{"Id":` + string(rune('4'+a)) + `},"a":9}`, results: `{"r":` + string(rune('5'-a)) + `}`}
				t.V(9)
			case 6:
				w = want{f: infoC05PA, args: `{"a":` + digit + `}`, panicked: true, err: "one"}
				if a == 2 {
					w.err = "two"
				}
				func() {
					defer func() { simRecover(recover()) }()
					c05panics(a)
				}()
				w.line = c05line
			case 7:
				w = want{f: infoX, results: "100"}
				if mocked {
					cancel = mock.Patch(&simX, func() int { return 70 + a })
					w.results = "7" + digit
				}
				c05read()
				w.file, w.line = c05file, c05line+1
			case 8:
				w = want{f: infoX, results: "100"}
				if mocked {
					cancel = mock.Patch(&simX, func() *int { v := 70 + a; return &v })
					w.results = "7" + digit
				}
				c05readAddr()
				w.file, w.line = c05file, c05line+1
			}
			cancel()
			wants = append(wants, w)
		}
		return nil, nil
	})
	kids := stack.Children[0].Children
	svAssert(len(kids) == len(wants), "each call is in the trace")
	for i, w := range wants {
		g, f := kids[i], kids[i].FuncInfo
		svAssert(f.Name == w.f.IdentityName && f.Pkg == w.f.Pkg, "the function of an entry")
		svAssert(f.RecvName == w.f.RecvName && strings.Join(f.ArgNames, ",") == strings.Join(w.f.ArgNames, ",") && strings.Join(f.ResNames, ",") == strings.Join(w.f.ResNames, ","), "the names of parameters of an entry")
		svAssert(f.FirstArgCtx == w.f.FirstArgCtx && f.LastResultErr == w.f.LastResultErr, "the context and error of an entry")
		svAssert(c05json(g.Args) == w.args, "the arguments of an entry")
		svAssert(w.results == "" || c05json(g.Results) == w.results, "the results of an entry")
		svAssert(g.Error == w.err && g.Panic == w.panicked, "the error of an entry")
		if w.panicked {
			svAssert(g.PanicLine == w.line, "the line of a panic")
		}
		if w.f == infoX {
			svAssert(f.Kind == stack_model.FuncKind_Var, "the kind of a variable")
			svAssert(f.File == w.file && f.Line == w.line, "where a variable was read")
		} else {
			svAssert(f.Kind == stack_model.FuncKind_Func, "the kind of a function")
			svAssert(f.File == w.f.File && f.Line == w.f.Line, "where a function is declared")
		}
	}
	svReach("end")
}
