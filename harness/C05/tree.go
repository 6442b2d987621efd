package zzsv

//gosx:pkg runtime zzsv
//gosx:with ../common/rtsim.go.txt
//gosx:with ../common/rttrace.go.txt
//gosx:replace runtime/internal/runtime/runtime_link.go ../common/rtlink.go.txt

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"

	"github.com/xhd2015/xgo/runtime/core"
	xrt "github.com/xhd2015/xgo/runtime/internal/runtime"
	"github.com/xhd2015/xgo/runtime/mock"
	"github.com/xhd2015/xgo/runtime/trace"
	"github.com/xhd2015/xgo/runtime/trace/stack_model"
)

// c05n is an expected entry.
type c05n struct {
	name     string
	args     string
	results  string
	err      string
	panicked bool
	kids     []*c05n
}

func c05json(v interface{}) string {
	if r, ok := v.(json.RawMessage); ok {
		return string(r)
	}
	return ""
}

var c05times bool

func c05check(got []*stack_model.StackEntry, want []*c05n, lo, hi int64) {
	svAssert(len(got) == len(want), "each call appears exactly once, below its caller")
	prev := lo
	for i, w := range want {
		g := got[i]
		svAssert(g.FuncInfo != nil && g.FuncInfo.Name == w.name, "calls appear in the order they were made")
		svAssert(g.Panic == w.panicked, "an entry is marked as panicked exactly if the call panicked")
		svAssert(g.Error == w.err, "the error or panic of the call")
		if w.args != "" {
			svAssert(c05json(g.Args) == w.args, "arguments of the call")
		}
		if w.results != "" {
			svAssert(c05json(g.Results) == w.results, "results of the call")
		}
		c05times = svAnd(c05times, svAnd(prev <= g.BeginNs, svAnd(g.BeginNs <= g.EndNs, g.EndNs <= hi)))
		c05check(g.Children, w.kids, g.BeginNs, g.EndNs)
		prev = g.EndNs
	}
}

// Any shape of calls: each step calls, returns, returns an error, panics, reads
// a variable, or calls a mocked function.
//
//gosx:budget quick=100s thorough=500s
//gosx:bounds programs of 5 (thorough 7) steps, panics of functions and mocks recovered 1 or 2 levels up, any clock advance
func SV_call_tree() {
	simTraceSetup()
	steps := 5
	if svTier() == 1 {
		steps = 7
	}
	mock.Patch(simH, func(a int) int {
		if a < 0 {
			simPanic("bad")
		}
		return 7
	})
	step := 0
	var cur *c05n
	simBody = func(id int, errp *error) (int, error) {
		me := cur
		defer func() { cur = me }()
		for step < steps {
			s := step
			step++
			xrt.SvTick(int64(svInt(fmt.Sprintf("t%d", s), 0, 1000)))
			switch svChoose(fmt.Sprintf("op%d", s), 8) {
			case 0: // call
				k := &c05n{name: "simNode", args: fmt.Sprintf(`{"id":%d}`, s)}
				me.kids = append(me.kids, k)
				cur = k
				func() {
					defer func() { simRecover(recover()) }()
					simNode(context.Background(), s)
				}()
				cur = me
			case 1: // call without recovering
				k := &c05n{name: "simNode", args: fmt.Sprintf(`{"id":%d}`, s)}
				me.kids = append(me.kids, k)
				cur = k
				me.panicked, me.err = true, "boom" // unless it returns
				simNode(context.Background(), s)
				me.panicked, me.err = false, ""
				cur = me
			case 2: // return
				me.results = fmt.Sprintf(`{"r":%d}`, s)
				return s, nil
			case 3: // return an error
				me.results, me.err = `{"r":0}`, "sim error"
				return 0, errSim
			case 4:
				me.panicked, me.err = true, "boom"
				*errp = errSim
				simPanic("boom")
			case 5:
				me.kids = append(me.kids, &c05n{name: "simX"})
				simReadX()
			case 6: // a mocked function
				me.kids = append(me.kids, &c05n{name: "simH", args: fmt.Sprintf(`{"a":%d}`, s), results: `{"r":7}`})
				simH(s)
			case 7: // a mock that panics
				me.kids = append(me.kids, &c05n{name: "simH", args: fmt.Sprintf(`{"a":%d}`, -s-1), panicked: true, err: "bad"})
				func() {
					defer func() { simRecover(recover()) }()
					simH(-s - 1)
				}()
			}
		}
		me.results = `{"r":-1}`
		return -1, nil
	}
	root := &c05n{name: "Trace"}
	finished := 0
	var out *stack_model.Stack
	func() {
		defer func() { simRecover(recover()) }()
		simTrace(trace.Config{OnFinish: func(stack stack_model.IStack) {
			finished++
			out = stack.Data()
		}}, nil, func() (interface{}, error) {
			k := &c05n{name: "simNode", args: `{"id":-5}`}
			root.kids = append(root.kids, k)
			cur = k
			root.panicked, root.err = true, "boom"
			_, err := simNode(context.Background(), -5)
			root.panicked, root.err = false, ""
			if err != nil {
				root.err = err.Error()
			}
			return nil, err
		})
	}()
	svAssert(finished == 1, "the trace is finished exactly once")
	svAssert(out != nil && len(out.Children) == 1, "one root")
	c05times = true
	c05check(out.Children, []*c05n{root}, 0, 1<<40)
	svAssert(c05times, "the time of a call lies within that of its caller, after the calls before it")
	// after the trace, nothing is traced
	simF(1)
	svAssert(finished == 1, "calls after the trace do not finish it again")
	svReach("end")
}

var _ = errors.New
var _ = core.Kind_Func
