package zzsv

//gosx:pkg runtime zzsv
//gosx:with ../common/rtsim.go.txt
//gosx:with ../common/rttrace.go.txt
//gosx:replace runtime/internal/runtime/runtime_link.go ../common/rtlink.go.txt
//gosx:const runtime/internal/trap/object.go DEFAULT_SIZE_LIMIT 40

import (
	"encoding/json"
	"errors"
	"strings"
	"unsafe"

	"github.com/xhd2015/xgo/runtime/core"
	"github.com/xhd2015/xgo/runtime/functab"
	xrt "github.com/xhd2015/xgo/runtime/internal/runtime"
	"github.com/xhd2015/xgo/runtime/trace"
	"github.com/xhd2015/xgo/runtime/trace/stack_model"
)

// c05val decides itself how it becomes JSON.
type c05val struct {
	mode int
	text string
}

func (v c05val) MarshalJSON() ([]byte, error) {
	switch v.mode {
	case 1:
		return nil, errors.New(v.text)
	case 2:
		panic(v.text)
	case 3:
		panic(errors.New(v.text))
	case 4:
		return []byte(v.text), nil
	case 5:
		return json.Marshal(strings.Repeat("-", 39) + v.text)
	}
	return json.Marshal(v.text)
}

var infoC05V = &core.FuncInfo{Kind: core.Kind_Func, Pkg: simPkg, IdentityName: "c05v", Name: "c05v", ArgNames: []string{"n", "v", ""}, ResNames: []string{"m", "r"}}
var infoC05X = &core.FuncInfo{Kind: core.Kind_Var, Pkg: simPkg, IdentityName: "c05x", Name: "c05x", ResNames: []string{"c05x"}}

//go:noinline
func c05v(n int, v c05val, o int) (m int, r c05val) {
	post, stop := xrt.SvTrap(unsafe.Pointer(infoC05V), nil, []interface{}{&n, &v, &o}, []interface{}{&m, &r})
	if post != nil {
		defer post()
	}
	if stop {
		return
	}
	return n + 1, v
}

var c05x c05val

func c05readX() c05val {
	v := c05x
	xrt.SvVarTrap(unsafe.Pointer(infoC05X), &c05x, &v)
	return v
}

var c05vRegistered bool

// Arguments, results and variables are in the trace whatever they are; one that
// has no JSON representation does not affect the others.
//
//gosx:budget quick=60s thorough=200s
//gosx:bounds values whose MarshalJSON returns a string, an error, any bytes, panics with a string or an error, or is longer than the limit (here 40); texts of 1 (thorough 2) bytes
func SV_values() {
	simTraceSetup()
	if !c05vRegistered {
		c05vRegistered = true
		infoC05V.Func = c05v
		infoC05X.Var = &c05x
		functab.RegisterFunc(infoC05V)
		functab.RegisterFunc(infoC05X)
	}
	v := c05val{svChoose("mode", 6), svStr("text", 1+svTier())}
	variable := svChoose("variable", 2) == 1
	c05x = v
	var stack stack_model.IStack
	simTrace(trace.Config{OnFinish: func(s stack_model.IStack) { stack = s }}, nil, func() (interface{}, error) {
		simF(3)
		if variable {
			got := c05readX()
			svAssert(got == v, "a read variable")
		} else {
			m, got := c05v(7, v, 9)
			svAssert(m == 8 && got == v, "results")
		}
		simF(4)
		return nil, nil
	})
	data, err := stack.JSON()
	svAssert(err == nil && json.Valid(data), "a trace has a JSON representation")
	var s struct {
		Children []struct {
			Children []struct {
				FuncInfo *stack_model.FuncInfo
				Args     json.RawMessage
				Results  json.RawMessage
			}
		}
	}
	err = json.Unmarshal(data, &s)
	svAssert(err == nil, "the JSON of a trace can be read")
	svAssert(len(s.Children) == 1 && len(s.Children[0].Children) == 3, "the JSON has all calls")
	kids := s.Children[0].Children
	svAssert(string(kids[0].Args) == `{"a":3}` && string(kids[0].Results) == `{"r":1003}`, "the call before")
	svAssert(string(kids[2].Args) == `{"a":4}` && string(kids[2].Results) == `{"r":1004}`, "the call after")
	args, results := string(kids[1].Args), string(kids[1].Results)
	want := ""
	if v.mode == 0 {
		w, _ := json.Marshal(v.text)
		want = string(w)
	}
	if variable {
		svAssert(want == "" || results == want, "the value of the variable")
		svReach("variable")
		return
	}
	svAssert(strings.HasPrefix(args, `{"n":7,"v":`) && strings.HasSuffix(args, `,"__field_2":9}`), "the other arguments")
	svAssert(strings.HasPrefix(results, `{"m":8,"r":`), "the other results")
	if want != "" {
		svAssert(args == `{"n":7,"v":`+want+`,"__field_2":9}`, "the arguments")
		svAssert(results == `{"m":8,"r":`+want+`}`, "the results")
	}
	if v.mode == 5 {
		svAssert(strings.Contains(args, `,"v":"\"---------------------------------------`), "the begin of a long argument")
	}
	svReach("function")
}
