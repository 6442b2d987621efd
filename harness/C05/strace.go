package zzsv

//gosx:pkg runtime zzsv
//gosx:with ../common/rtsim.go.txt
//gosx:with ../common/rttrace.go.txt
//gosx:replace runtime/internal/runtime/runtime_link.go ../common/rtlink.go.txt
//gosx:const runtime/internal/flags/flags.go COLLECT_TEST_TRACE true
//gosx:const runtime/internal/flags/flags.go COLLECT_TEST_TRACE_DIR "out/dir"
//gosx:const runtime/internal/constants/constants.go TESTING_RUNNER "github.com/xhd2015/xgo/runtime/zzsv.c05runner"

import (
	"encoding/json"
	"os"
	"path/filepath"
	"reflect"
	"testing"
	"unsafe"

	"github.com/xhd2015/xgo/runtime/core"
	"github.com/xhd2015/xgo/runtime/functab"
	xrt "github.com/xhd2015/xgo/runtime/internal/runtime"
	"github.com/xhd2015/xgo/runtime/mock"
	"github.com/xhd2015/xgo/runtime/trace"
	"github.com/xhd2015/xgo/runtime/trace/stack_model"
)

var (
	infoC05TT = &core.FuncInfo{Kind: core.Kind_Func, Pkg: simPkg, IdentityName: "c05Test", Name: "c05Test", ArgNames: []string{"t"}}
	infoC05TH = &core.FuncInfo{Kind: core.Kind_Func, Pkg: simPkg, IdentityName: "c05Help", Name: "c05Help", ArgNames: []string{"t"}}
	infoC05TR = &core.FuncInfo{Kind: core.Kind_Func, Pkg: simPkg, IdentityName: "c05TestR", Name: "c05TestR", ArgNames: []string{"t"}, ResNames: []string{"r"}}
	infoC05T2 = &core.FuncInfo{Kind: core.Kind_Func, Pkg: simPkg, IdentityName: "c05Test2", Name: "c05Test2", ArgNames: []string{"t", "a"}}
	infoC05TI = &core.FuncInfo{Kind: core.Kind_Func, Pkg: simPkg, IdentityName: "c05TestInt", Name: "c05TestInt", ArgNames: []string{"a"}}
	infoC05TM = &core.FuncInfo{Kind: core.Kind_Func, Pkg: simPkg, IdentityName: "(*c05Suite).Test", Name: "Test", RecvType: "c05Suite", RecvPtr: true, RecvName: "s", ArgNames: []string{"t"}}
)

type c05Suite struct{ N int }

// c05runner is where the test runner calls a test.
//
//go:noinline
func c05runner(kind int, t *testing.T) {
	defer func() {
		e := recover()
		if e != nil && e != "test panics" {
			panic(e)
		}
		xrt.SvSetPanic(nil)
	}()
	switch kind {
	case 2:
		c05TestR(t)
	case 3:
		c05Test2(t, 1)
	case 4:
		c05TestInt(1)
	case 5:
		(&c05Suite{}).Test(t)
	case 6:
		c05calls(t)
	default:
		c05Test(t)
	}
}

//go:noinline
func c05calls(t *testing.T) {
	c05Help(t)
}

var c05body func()

//go:noinline
func c05Test(t *testing.T) {
	post, stop := xrt.SvTrap(unsafe.Pointer(infoC05TT), nil, []interface{}{&t}, []interface{}{})
	if post != nil {
		defer post()
	}
	if stop {
		return
	}
	c05body()
}

//go:noinline
func c05Help(t *testing.T) {
	post, stop := xrt.SvTrap(unsafe.Pointer(infoC05TH), nil, []interface{}{&t}, []interface{}{})
	if post != nil {
		defer post()
	}
	if stop {
		return
	}
	simF(1)
}

//go:noinline
func c05TestR(t *testing.T) (r int) {
	post, stop := xrt.SvTrap(unsafe.Pointer(infoC05TR), nil, []interface{}{&t}, []interface{}{&r})
	if post != nil {
		defer post()
	}
	if stop {
		return
	}
	c05body()
	return 1
}

//go:noinline
func c05Test2(t *testing.T, a int) {
	post, stop := xrt.SvTrap(unsafe.Pointer(infoC05T2), nil, []interface{}{&t, &a}, []interface{}{})
	if post != nil {
		defer post()
	}
	if stop {
		return
	}
	c05body()
}

//go:noinline
func c05TestInt(a int) {
	post, stop := xrt.SvTrap(unsafe.Pointer(infoC05TI), nil, []interface{}{&a}, []interface{}{})
	if post != nil {
		defer post()
	}
	if stop {
		return
	}
	c05body()
}

//go:noinline
func (s *c05Suite) Test(t *testing.T) {
	post, stop := xrt.SvTrap(unsafe.Pointer(infoC05TM), &s, []interface{}{&t}, []interface{}{})
	if post != nil {
		defer post()
	}
	if stop {
		return
	}
	c05body()
}

var c05tRegistered bool

// c05named is a test of a name.
func c05named(name string) *testing.T {
	t := &testing.T{}
	f := reflect.ValueOf(t).Elem().FieldByName("common").FieldByName("name")
	reflect.NewAt(f.Type(), f.Addr().UnsafePointer()).Elem().SetString(name)
	return t
}

// With --strace each test called by the runner leaves its trace in a file, and
// nothing else does.
//
//gosx:budget quick=60s thorough=120s
//gosx:bounds the runner calls a test of 3 names, a function of 5 other shapes, or a test through another function, and then maybe a test again; the test calls up to 2 (thorough 3, the second time 1) of: a function, a helper with the test as argument, a trace of its own, a mocked function; and may panic
func SV_strace() {
	simTraceSetup()
	if !c05tRegistered {
		c05tRegistered = true
		infoC05TT.Func = c05Test
		infoC05TH.Func = c05Help
		infoC05TR.Func = c05TestR
		infoC05T2.Func = c05Test2
		infoC05TI.Func = c05TestInt
		infoC05TM.Func = (*c05Suite).Test
		for _, f := range []*core.FuncInfo{infoC05TT, infoC05TH, infoC05TR, infoC05T2, infoC05TI, infoC05TM} {
			functab.RegisterFunc(f)
		}
	}
	dir := svTempDir()
	wd, err := os.Getwd()
	svAssert(err == nil && os.Chdir(dir) == nil, "setup")
	defer os.Chdir(wd)
	name := []string{"TestA", "TestA/sub", "TestA/a/b"}[svPick("name", 3)]
	file := filepath.Join(dir, "out", "dir", name+".json")
	runs := 1 + svChoose("runs", 2)
	svAssume(runs == 1 || name == "TestA")
	old := runs == 2
	if old {
		svAssert(os.MkdirAll(filepath.Dir(file), 0755) == nil && os.WriteFile(file, []byte("old"), 0644) == nil, "setup")
	}
	for i := 0; i < runs; i++ {
		os.Remove(file)
		var want []string
		x := svInt("x", 3, 4)
		kind, calls := 0, 1
		if i == 0 {
			kind, calls = svPick("kind", 6), 2+svTier()
			if kind > 0 {
				kind, calls = kind+1, 0
			}
		}
		panics := kind == 0 && i == 0 && svChoose("panics", 2) == 1
		inner := 0
		c05body = func() {
			for n := svChoose("calls", 1+calls); n > 0; n-- {
				switch svChoose("call", 4) {
				case 0:
					svAssert(simF(x) == x+1000, "the traced function returns something else")
					want = append(want, "simF")
				case 1:
					c05Help(&testing.T{})
					want = append(want, "c05Help", "simF")
				case 2:
					simTrace(trace.Config{OnFinish: func(s stack_model.IStack) { inner++ }}, nil, func() (interface{}, error) {
						simF(1)
						return nil, nil
					})
					want = append(want, "Trace", "simF")
				case 3:
					cancel := mock.Patch(simF, func(a int) int { return 5 })
					svAssert(simF(x) == 5, "a mock is not called")
					cancel()
					want = append(want, "simF")
				}
			}
			if panics {
				xrt.SvSetPanic("test panics")
				panic("test panics")
			}
		}
		t := c05named(name)
		// a new goroutine runs each test
		xrt.SvReset(true)
		c05runner(kind, t)
		data, err := os.ReadFile(file)
		if kind > 1 {
			svAssert(err != nil, "something else leaves a trace")
			_, err := os.Stat(filepath.Join(dir, "out"))
			svAssert(old || err != nil, "something else leaves a file")
			continue
		}
		svAssert(err == nil, "a test leaves no trace")
		var st stack_model.Stack
		svAssert(json.Unmarshal(data, &st) == nil && st.Format == "stack", "the trace is no stack")
		svAssert(len(st.Children) == 1 && st.Children[0].FuncInfo.Name == "c05Test", "the trace is not that of the test")
		top := st.Children[0]
		svAssert(top.Panic == panics && (top.Error == "test panics") == panics, "the panic of a test is not told")
		var got []string
		var walk func(l []*stack_model.StackEntry)
		walk = func(l []*stack_model.StackEntry) {
			for _, e := range l {
				got = append(got, e.FuncInfo.Name)
				walk(e.Children)
			}
		}
		walk(top.Children)
		svAssert(len(got) == len(want), "a call is missing, or added")
		for j := range got {
			svAssert(got[j] == want[j], "another call is recorded")
		}
		svReach("test")
	}
	svReach("end")
}
