package zzsv

//gosx:pkg runtime zzsv
//gosx:with ../common/rtsim.go.txt
//gosx:with ../common/rttrace.go.txt
//gosx:replace runtime/internal/runtime/runtime_link.go ../common/rtlink.go.txt

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"path/filepath"

	"github.com/xhd2015/xgo/runtime/core"
	xrt "github.com/xhd2015/xgo/runtime/internal/runtime"
	"github.com/xhd2015/xgo/runtime/mock"
	"github.com/xhd2015/xgo/runtime/trace"
	"github.com/xhd2015/xgo/runtime/trace/stack_model"
)

func c06names(es []*stack_model.StackEntry) string {
	s := ""
	for _, e := range es {
		s += e.FuncInfo.Name
		if len(e.Children) > 0 {
			s += "(" + c06names(e.Children) + ")"
		}
		s += ";"
	}
	return s
}

// Tracing does not change what the traced function returns, whether it panics,
// or which mocks are active during and after it.
//
//gosx:budget quick=60s thorough=200s
//gosx:bounds any int results; success, error or panic; with OnFinish, OutputFile, both or none; mocked before, during or after; 1-2 traces
func SV_transparent() {
	simTraceSetup()
	dir := svTempDir()
	k := svInt("k", -1000, 1000)
	boom := errors.New("boom")
	mockedBefore, mockedInside := svBool("before"), svBool("inside")
	want := func(a int, mocked bool) int {
		if mocked {
			return k
		}
		return a + 1000
	}
	if mockedBefore {
		mock.Patch(simB, func(simBox) simBox { return simBox{k} })
	}
	mocked := mockedBefore
	traces := 1 + svChoose("n", 2)
	for i := 0; i < traces; i++ {
		mode := svChoose("mode", 4)
		outcome := svChoose("outcome", 3)
		a := svInt("a", -1000, 1000)
		cfg := trace.Config{}
		finished := 0
		if mode&1 != 0 {
			cfg.OnFinish = func(stack stack_model.IStack) {
				finished++
				svAssert(c06names(stack.Data().Children) == "Trace(simB;);", "the trace has exactly the calls made in it")
			}
		}
		file := filepath.Join(dir, fmt.Sprintf("out%d.json", i))
		if mode&2 != 0 {
			cfg.OutputFile = file
		}
		var resp interface{}
		var err error
		p := func() (e interface{}) {
			defer func() { e = recover(); simRecover(e) }()
			resp, err = simTrace(cfg, "req", func() (interface{}, error) {
				if mockedInside && i == 0 {
					mock.Patch(simB, func(simBox) simBox { return simBox{k} })
					mocked = true
				}
				r := simB(simBox{a})
				switch outcome {
				case 1:
					return r, boom
				case 2:
					simPanic(boom)
				}
				return r, nil
			})
			return nil
		}()
		if outcome == 2 {
			svAssert(p == boom, "a panic passes through the trace")
		} else {
			svAssert(p == nil && resp.(simBox).V == want(a, mocked), "the traced function's result, computed with the mocks active")
			svAssert((err == boom) == (outcome == 1) && (err == nil) == (outcome == 0), "the traced function's error")
		}
		svAssert(simB(simBox{a}).V == want(a, mocked), "mocks stay in effect after the trace")
		svAssert(finished == mode&1, "OnFinish is called exactly once if given")
		_, serr := os.Stat(file)
		svAssert((serr == nil) == (mode&2 != 0), "the output file is written if given")
		svAssert(xrt.SvDepth() == 0, "the goroutine is not left in trapping state")
	}
	svReach("end")
}

// FilterTrace leaves calls out of the trace; their callees take their place.
//
//gosx:budget quick=60s thorough=300s
//gosx:bounds call programs of 5 (thorough 7) steps in up to 2 goroutines at a time, any subset of them filtered
func SV_filter() {
	simTraceSetup()
	steps := 5
	if svTier() == 1 {
		steps = 7
	}
	step := 0
	keepNode, keepX, keepF := svChoose("keepNode", 2) == 1, svChoose("keepX", 2) == 1, svChoose("keepF", 2) == 1
	want := "Trace("
	empty := true
	leaf := func(name string, keep bool) {
		if keep {
			want += name + ";"
			empty = false
		}
	}
	simBody = func(id int, errp *error) (int, error) {
		for step < steps {
			step++
			switch svChoose(fmt.Sprintf("op%d", step), 5) {
			case 4: // calls in a goroutine that is started and ended here
				parent := xrt.SvCurG()
				want += "go("
				n := len(want)
				xrt.SvSetG(xrt.SvGo())
				simReadX()
				leaf("simX", keepX)
				simF(1)
				leaf("simF", keepF)
				xrt.SvExit()
				xrt.SvSetG(parent)
				if len(want) == n {
					want = want[:n-1]
				} else {
					want += ")"
				}
				want += ";"
				empty = false
			case 0:
				if keepNode {
					want += "simNode("
					n := len(want)
					simNode(context.Background(), step)
					if len(want) == n {
						want = want[:n-1]
					} else {
						want += ")"
					}
					want += ";"
					empty = false
				} else {
					simNode(context.Background(), step)
				}
			case 1:
				return 0, nil
			case 2:
				leaf("simX", keepX)
				simReadX()
			case 3:
				leaf("simF", keepF)
				simF(1)
			}
		}
		return 0, nil
	}
	got := ""
	simTrace(trace.Config{
		FilterTrace: func(f *core.FuncInfo) bool {
			switch f.Name {
			case "simNode":
				return keepNode
			case "simX":
				return keepX
			case "simF":
				return keepF
			}
			return true
		},
		OnFinish: func(stack stack_model.IStack) { got = c06names(stack.Data().Children) },
	}, nil, func() (interface{}, error) { return simBody(0, new(error)) })
	if empty {
		want = want[:len(want)-1]
	} else {
		want += ")"
	}
	want += ";"
	svAssert(got == want, "the trace consists of the calls the filter accepts, nested as they were called")
	svReach("end")
}

// The output file is the JSON of the trace given to OnFinish.
//
//gosx:bounds call programs of 3 (thorough 4) steps with errors and panics
func SV_output_file() {
	simTraceSetup()
	xrt.SvStep = 3
	file := filepath.Join(svTempDir(), "o.json")
	steps := 3
	if svTier() == 1 {
		steps = 4
	}
	step := 0
	simBody = func(id int, errp *error) (int, error) {
		for step < steps {
			step++
			switch svChoose(fmt.Sprintf("op%d", step), 4) {
			case 0:
				func() {
					defer func() { simRecover(recover()) }()
					simNode(context.Background(), step)
				}()
			case 1:
				return step, errSim
			case 2:
				simG(step, "a\"b")
			case 3:
				simPanic("boom")
			}
		}
		return 0, nil
	}
	var data *stack_model.Stack
	var text []byte
	func() {
		defer func() { simRecover(recover()) }()
		simTrace(trace.Config{OutputFile: file, OnFinish: func(stack stack_model.IStack) {
			data = stack.Data()
			text, _ = stack.JSON()
			again, err := stack.JSON()
			svAssert(err == nil && string(again) == string(text), "JSON gives the same each time")
		}}, map[string]int{"x": 1}, func() (interface{}, error) { return simBody(0, new(error)) })
	}()
	b, err := os.ReadFile(file)
	svAssert(err == nil && string(b) == string(text), "the file is the trace's JSON")
	var back stack_model.Stack
	svAssert(json.Unmarshal(b, &back) == nil, "valid JSON")
	svAssert(back.Format == "stack" && back.Begin == data.Begin, "header")
	c06same(back.Children, data.Children)
	svReach("end")
}

func c06same(a, b []*stack_model.StackEntry) {
	svAssert(len(a) == len(b), "same entries")
	for i := range a {
		x, y := a[i], b[i]
		svAssert(x.FuncInfo.Name == y.FuncInfo.Name && x.FuncInfo.Pkg == y.FuncInfo.Pkg && x.FuncInfo.Kind == y.FuncInfo.Kind, "same function")
		svAssert(x.BeginNs == y.BeginNs && x.EndNs == y.EndNs && x.Panic == y.Panic && x.Error == y.Error, "same times and outcome")
		xr, _ := json.Marshal(x.Results)
		yr, _ := json.Marshal(y.Results)
		svAssert(len(xr) > 0 && string(xr) == string(yr) || y.Results == nil, "same results")
		c06same(x.Children, y.Children)
	}
}

var _ = core.Kind_Func

// A trace started inside another one, in the same goroutine or one started by
// it, is a part of the outer one.
//
//gosx:bounds any of the options of both traces, inner one in the same or another goroutine, 3 nested traces
func SV_nested() {
	simTraceSetup()
	dir := svTempDir()
	k := svInt("k", -1000, 1000)
	mock.Patch(simB, func(b simBox) simBox { return simBox{b.V + k} })
	names := []string{}
	finished := [3]int{}
	shape := ""
	var run func(level int)
	run = func(level int) {
		a := svInt("a", -1000, 1000)
		mode := svChoose("mode", 4)
		other := level > 0 && svChoose("go", 2) == 1
		cfg := trace.Config{}
		if level == 0 || mode&1 != 0 {
			cfg.OnFinish = func(stack stack_model.IStack) {
				finished[level]++
				names = append(names, c06names(stack.Data().Children))
			}
		}
		if mode&2 != 0 {
			cfg.OutputFile = filepath.Join(dir, fmt.Sprintf("n%d.json", level))
		}
		parent := xrt.SvCurG()
		if other {
			shape += "go("
			xrt.SvSetG(xrt.SvGo())
		}
		shape += "Trace("
		resp, err := simTrace(cfg, level, func() (interface{}, error) {
			shape += "simB;"
			r := simB(simBox{a})
			if level < 2 {
				run(level + 1)
			}
			shape += "simB;"
			simB(r)
			return simB2(r), nil
		})
		shape += ");"
		svAssert(err == nil && resp.(simBox).V == a+k, "result of the traced function")
		if other {
			shape += ");"
			xrt.SvExit()
			xrt.SvSetG(parent)
		}
		_, serr := os.Stat(filepath.Join(dir, fmt.Sprintf("n%d.json", level)))
		svAssert((serr == nil) == (level == 0 && mode&2 != 0), "the outermost trace writes its file, at its end")
	}
	run(0)
	svAssert(finished[0] == 1 && finished[1] == 0 && finished[2] == 0, "the outermost trace finishes, once")
	svAssert(names[0] == shape, "it contains all calls")
	svReach("end")
}

func simB2(b simBox) simBox { return b }
