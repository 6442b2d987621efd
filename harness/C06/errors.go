package zzsv

//gosx:pkg runtime zzsv
//gosx:with ../common/rtsim.go.txt
//gosx:with ../common/rttrace.go.txt
//gosx:replace runtime/internal/runtime/runtime_link.go ../common/rtlink.go.txt

import (
	"encoding/json"
	"unsafe"

	"github.com/xhd2015/xgo/runtime/core"
	"github.com/xhd2015/xgo/runtime/functab"
	xrt "github.com/xhd2015/xgo/runtime/internal/runtime"
	"github.com/xhd2015/xgo/runtime/trace"
	"github.com/xhd2015/xgo/runtime/trace/stack_model"
)

// c06err is an error whose message may not be available.
type c06err struct {
	mode int
	text string
}

func (e *c06err) Error() string {
	switch e.mode {
	case 1:
		panic(e.text)
	case 2:
		panic(errSim)
	case 3:
		simF(1)
	}
	return e.text
}

var infoC06E = &core.FuncInfo{Kind: core.Kind_Func, Pkg: simPkg, IdentityName: "c06e", Name: "c06e", ArgNames: []string{"a", "e"}, ResNames: []string{"r", "err"}}

//go:noinline
func c06e(a simBox, e error) (r simBox, err error) {
	post, stop := xrt.SvTrap(unsafe.Pointer(infoC06E), nil, []interface{}{&a, &e}, []interface{}{&r, &err})
	if post != nil {
		defer post()
	}
	if stop {
		return
	}
	if a.V < 0 {
		simPanic(e)
	}
	return simBox{a.V + 1}, e
}

var c06eRegistered bool

// Errors and panics reach the caller whatever their Error method does.
//
//gosx:budget quick=60s thorough=120s
//gosx:bounds a traced function which returns or panics with an error, nil, a nil pointer, or one whose Error method panics or calls traced functions; also as the outcome of the trace; any value, messages of 1 (thorough 2) bytes
func SV_errors() {
	simTraceSetup()
	if !c06eRegistered {
		c06eRegistered = true
		infoC06E.Func = c06e
		functab.RegisterFunc(infoC06E)
	}
	text := svStr("text", 1+svTier())
	var e error
	kind := svChoose("kind", 6)
	switch kind {
	case 0:
		e = nil
	case 1:
		e = (*c06err)(nil)
	default:
		e = &c06err{kind - 2, text}
	}
	a := simBox{svInt("a", -1000, 1000)}
	svAssume(a.V >= 0 || e != nil)
	caught := svChoose("caught", 2) == 1
	var stack stack_model.IStack
	inner := func() (r simBox, err error, p interface{}) {
		defer func() { p = recover(); simRecover(p) }()
		r, err = c06e(a, e)
		return
	}
	var resp interface{}
	var err error
	var p interface{}
	func() {
		defer func() { p = recover(); simRecover(p) }()
		resp, err = simTrace(trace.Config{OnFinish: func(s stack_model.IStack) { stack = s }}, "req", func() (interface{}, error) {
			if !caught {
				r, err := c06e(a, e)
				return r, err
			}
			r, err, p := inner()
			if a.V < 0 {
				svAssert(p == interface{}(e), "the panic inside the trace")
			} else {
				svAssert(p == nil && r.V == a.V+1 && err == e, "the error inside the trace")
			}
			simB(simBox{1})
			return r, err
		})
	}()
	if a.V < 0 && !caught {
		svAssert(p == interface{}(e), "the panic of the trace")
	} else {
		svAssert(p == nil, "no panic but those of the program")
		if a.V >= 0 {
			svAssert(err == e && resp == interface{}(simBox{a.V + 1}), "the error of the trace")
		}
	}
	svAssert(stack != nil, "the trace is finished")
	data, err := stack.JSON()
	svAssert(err == nil && json.Valid(data), "the trace has a JSON representation")
	kids := stack.Data().Children[0].Children
	svAssert(len(kids) >= 1 && kids[0].FuncInfo.Name == "c06e", "the call is in the trace")
	svAssert(kids[0].Panic == (a.V < 0), "the panic is in the trace")
	if kind == 2 {
		svAssert(kids[0].Error == text, "the message is in the trace")
	}
	svAssert((kids[0].Error != "") == (kind != 0), "the error is in the trace")
	after := 1
	if caught {
		svAssert(kids[len(kids)-1].FuncInfo.Name == "simB", "the call after is in the trace")
		after++
	}
	svAssert(len(kids) == after, "nothing else is in the trace")
	svReach("end")
}
