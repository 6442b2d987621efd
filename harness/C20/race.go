package zzsv

//gosx:pkg runtime zzsv
//gosx:replace runtime/internal/runtime/runtime_link.go ../common/rtlinkgo.go.txt
//gosx:race

import (
	"context"
	"unsafe"

	"github.com/xhd2015/xgo/runtime/core"
	"github.com/xhd2015/xgo/runtime/functab"
	xrt "github.com/xhd2015/xgo/runtime/internal/runtime"
	"github.com/xhd2015/xgo/runtime/mock"
	"github.com/xhd2015/xgo/runtime/tls"
	"github.com/xhd2015/xgo/runtime/trace"
	"github.com/xhd2015/xgo/runtime/trace/stack_model"
	"github.com/xhd2015/xgo/runtime/trap"
)

const rcPkg = "github.com/xhd2015/xgo/runtime/zzsv"

var (
	infoRTrace = &core.FuncInfo{Kind: core.Kind_Func, Pkg: "github.com/xhd2015/xgo/runtime/trace", IdentityName: "Trace", Name: "Trace", ArgNames: []string{"config", "request", "fn"}, ResNames: []string{"response", "err"}}
	infoRF     = &core.FuncInfo{Kind: core.Kind_Func, Pkg: rcPkg, IdentityName: "rcF", Name: "rcF", ArgNames: []string{"a"}, ResNames: []string{"r"}}
	infoRN     = &core.FuncInfo{Kind: core.Kind_Func, Pkg: rcPkg, IdentityName: "rcN", Name: "rcN", ArgNames: []string{"fn"}}
	infoRM     = &core.FuncInfo{Kind: core.Kind_Func, Pkg: rcPkg, IdentityName: "(*rcT).M", Name: "M", RecvType: "rcT", RecvPtr: true, RecvName: "t", ArgNames: []string{"a"}, ResNames: []string{"r"}}
	infoRX     = &core.FuncInfo{Kind: core.Kind_Var, Pkg: rcPkg, IdentityName: "rcX", Name: "rcX", ResNames: []string{"rcX"}}
)

// rcBox's value does not appear in traces.
type rcBox struct {
	V int `json:"-"`
}

//go:noinline
func rcTrace(config trace.Config, request interface{}, fn func() (interface{}, error)) (response interface{}, err error) {
	post, stop := xrt.SvTrap(unsafe.Pointer(infoRTrace), nil, []interface{}{&config, &request, &fn}, []interface{}{&response, &err})
	if post != nil {
		defer post()
	}
	if stop {
		return
	}
	return trace.Trace(config, request, fn)
}

//go:noinline
func rcF(a rcBox) (r rcBox) {
	post, stop := xrt.SvTrap(unsafe.Pointer(infoRF), nil, []interface{}{&a}, []interface{}{&r})
	if post != nil {
		defer post()
	}
	if stop {
		return
	}
	return rcBox{a.V + 1000}
}

//go:noinline
func rcN(fn func()) {
	post, stop := xrt.SvTrap(unsafe.Pointer(infoRN), nil, []interface{}{&fn}, []interface{}{})
	if post != nil {
		defer post()
	}
	if stop {
		return
	}
	fn()
}

type rcT struct{ id int }

//go:noinline
func (t *rcT) M(a rcBox) (r rcBox) {
	post, stop := xrt.SvTrap(unsafe.Pointer(infoRM), &t, []interface{}{&a}, []interface{}{&r})
	if post != nil {
		defer post()
	}
	if stop {
		return
	}
	return rcBox{a.V + t.id}
}

var rcX = rcBox{100}

//go:noinline
func rcReadX() rcBox {
	v := rcX
	xrt.SvVarTrap(unsafe.Pointer(infoRX), &rcX, &v)
	return v
}

var rcRegistered bool

func rcSetup() {
	if !rcRegistered {
		rcRegistered = true
		infoRTrace.Func = rcTrace
		infoRF.Func = rcF
		infoRN.Func = rcN
		infoRM.Func = (*rcT).M
		infoRX.Var = &rcX
		for _, f := range []*core.FuncInfo{infoRTrace, infoRF, infoRN, infoRM, infoRX} {
			functab.RegisterFunc(f)
		}
		xrt.SvGor = svGor
	}
	xrt.SvReset(true)
}

// Goroutines started in a trace call functions, mock and read variables while
// the trace is exported, and after.
//
//gosx:budget quick=90s thorough=300s
//gosx:bounds a trace starting 1 goroutine of 2 steps (thorough also 2 goroutines) of 4 kinds, besides a call, up to 1 (thorough 2) preemptions at locks, any values
//gosx:tries 20
func SV_trace_races() {
	rcSetup()
	k := svInt("k", -1000, 1000)
	n, m, preempt := 1, 1, 2
	switch svChoose("shape", 2+svTier()) {
	case 1:
		m, preempt = 2, 1+svTier()
	case 2:
		n, preempt = 2, 1
	}
	steps := make([][]int, n)
	for g := range steps {
		for len(steps[g]) < m {
			steps[g] = append(steps[g], svPick("step", 4))
		}
	}
	svPreempt(preempt)
	svRaces()
	own := 1000 + k
	goroutine := func(g int) {
		for _, s := range steps[g] {
			switch s {
			case 0:
				svAssert(rcF(rcBox{k}).V == own, "a function called in a goroutine")
			case 1:
				rcN(func() {
					svAssert(rcF(rcBox{k}).V == own, "a function called in a function in a goroutine")
					svAssert(rcReadX().V == 100, "a variable read in a goroutine")
				})
			case 2:
				t := &rcT{k}
				svAssert(t.M(rcBox{1}).V == 1+k, "a method called in a goroutine")
				mock.PatchMethodByName(t, "M", func(a rcBox) rcBox { return rcBox{7} })
				svAssert(t.M(rcBox{1}).V == 7, "a method mocked in a goroutine")
			case 3:
				rcN(func() {
					xrt.SvStart(func() {
						svAssert(rcF(rcBox{k}).V == own, "a function called in a goroutine of a goroutine")
					})
				})
			}
		}
	}
	ended := false
	rcTrace(trace.Config{OnFinish: func(s stack_model.IStack) {
		ended = true
		svAssert(len(s.Data().Children) == 1 && len(s.Data().Children[0].Children) == n+1, "the trace has its goroutines and calls")
		s.JSON()
	}}, nil, func() (interface{}, error) {
		for g := 0; g < n; g++ {
			g := g
			xrt.SvStart(func() { goroutine(g) })
		}
		svAssert(rcF(rcBox{k}).V == own, "a function called besides the goroutines")
		return nil, nil
	})
	svAssert(ended, "the trace is finished")
	svAssert(rcF(rcBox{k}).V == own, "a function called after the trace")
	xrt.SvWait()
	svReach("end")
}

// Goroutines inherit mocks and recorders of the goroutine starting them, and
// each adds and cancels its own.
//
//gosx:budget quick=90s thorough=300s
//gosx:bounds a goroutine with a mock of a function, of a variable or a recorder, or all, starts another; then it does 1 and the other 1 (thorough 2) of: mock and cancel, record and cancel, mock a variable and cancel, cancel the first; up to 1 preemption at locks, any values
//gosx:tries 20
func SV_mock_races() {
	rcSetup()
	k := svInt("k", -1000, 1000)
	own := rcActs{k: k, f: 1000 + k, x: 100}
	kind := svChoose("kind", 4)
	if kind == 0 || kind == 3 {
		own.cancel = append(own.cancel, mock.Patch(rcF, func(a rcBox) rcBox { return rcBox{k} }))
		own.f = k
	}
	if kind == 1 || kind == 3 {
		own.cancel = append(own.cancel, mock.Patch(&rcX, func() rcBox { return rcBox{k + 1} }))
		own.x = k + 1
	}
	if kind == 2 || kind == 3 {
		// runs in both goroutines
		own.cancel = append(own.cancel, trace.RecordCall(rcF, func(a, r rcBox) {}))
		own.cancel = append(own.cancel, trace.RecordResult(&rcX, func(x rcBox) {}))
		for i := 0; i < 3; i++ {
			own.cancel = append(own.cancel, trap.AddInterceptor(&trap.Interceptor{
				Pre: func(ctx context.Context, f *core.FuncInfo, args core.Object, result core.Object) (interface{}, error) {
					return nil, nil
				},
			}))
		}
	}
	child := rcActs{k: k, f: own.f, x: own.x}
	m := 1 + svTier()
	steps := make([]int, m+1)
	for i := range steps {
		steps[i] = svPick("step", 5)
	}
	svPreempt(1)
	svRaces()
	xrt.SvStart(func() { child.do(steps[:m]) })
	own.do(steps[m:])
	xrt.SvWait()
	svReach("end")
}

// rcActs is what a goroutine sees, and its mocks.
type rcActs struct {
	k      int
	f, x   int
	cancel []func()
}

func (a *rcActs) do(steps []int) {
	a.check()
	k := a.k
	for _, s := range steps {
		switch s {
		case 0:
			cancel := mock.Patch(rcF, func(a rcBox) rcBox { return rcBox{k + 7} })
			svAssert(rcF(rcBox{k}).V == k+7, "a function mocked by a goroutine")
			cancel()
		case 1:
			cancel := mock.Patch(&rcX, func() rcBox { return rcBox{k + 8} })
			svAssert(rcReadX().V == k+8, "a variable mocked by a goroutine")
			cancel()
		case 2:
			n := 0
			cancel := trace.RecordCall(rcF, func(a, r rcBox) { n++ })
			svAssert(rcF(rcBox{k}).V == a.f && n == 1, "a function recorded by a goroutine")
			cancel()
		case 3:
			n := 0
			cancel := trap.AddInterceptor(&trap.Interceptor{
				Post: func(ctx context.Context, f *core.FuncInfo, args core.Object, result core.Object, data interface{}) error {
					n++
					return nil
				},
			})
			svAssert(rcF(rcBox{k}).V == a.f && n == 1, "a function intercepted by a goroutine")
			cancel()
		case 4:
			for i := len(a.cancel) - 1; i >= 0; i-- {
				a.cancel[i]()
			}
			if a.cancel != nil {
				a.cancel = nil
				a.f, a.x = 1000+k, 100
			}
		}
		a.check()
	}
}

func (a *rcActs) check() {
	svAssert(rcF(rcBox{a.k}).V == a.f, "what a function returns in a goroutine")
	svAssert(rcReadX().V == a.x, "what a variable reads in a goroutine")
}

var rcKey = tls.DeclareInherit("rc")

// Goroutine local values and keys may be used from all goroutines.
//
//gosx:budget quick=30s thorough=120s
//gosx:bounds 2 goroutines of 2 and 1 (thorough 2) steps, which declare a key, set and get one declared before or start another goroutine, 1 preemption, any values
//gosx:tries 20
func SV_tls_races() {
	rcSetup()
	k := svInt("k", -1000, 1000)
	rcKey.Set(k)
	var steps []int
	for i := 0; i < 4; i++ {
		s := svPick("step", 3)
		svAssume(svTier() > 0 || i < 3 || s == 1)
		steps = append(steps, s)
	}
	svPreempt(1)
	svRaces()
	for g := 0; g < 2; g++ {
		g := g
		xrt.SvStart(func() {
			own := k
			for _, s := range steps[2*g : 2*g+2] {
				switch s {
				case 0:
					key := tls.Declare("own")
					svAssert(key.Get() == nil, "a new key has no value")
					key.Set(g)
					svAssert(key.Get() == g, "the value of a new key")
				case 1:
					svAssert(rcKey.Get() == own, "an inherited value")
					own = k + g + 1
					rcKey.Set(own)
				case 2:
					want := own
					xrt.SvStart(func() {
						svAssert(rcKey.Get() == want, "a value inherited once more")
					})
				}
			}
			svAssert(rcKey.Get() == own, "the value of a goroutine stays")
		})
	}
	svAssert(rcKey.Get() == k, "the value in the parent stays")
	xrt.SvWait()
	svReach("end")
}

// The stack given to OnFinish may be used from several goroutines.
//
//gosx:budget quick=30s thorough=60s
//gosx:bounds 2 goroutines asking for the data and the JSON of a trace with 1 call up to twice each, 1 (thorough 2) preemptions at locks and atomics, any values
//gosx:tries 20
func SV_export_races() {
	rcSetup()
	k := svInt("k", -1000, 1000)
	n := 1 + svPick("times", 2)
	var stack stack_model.IStack
	rcTrace(trace.Config{OnFinish: func(s stack_model.IStack) { stack = s }}, nil, func() (interface{}, error) {
		svAssert(rcF(rcBox{k}).V == 1000+k, "a function called in a trace")
		return nil, nil
	})
	svPreempt(1 + svTier())
	svRaces()
	use := func() {
		for i := 0; i < n; i++ {
			data, err := stack.JSON()
			svAssert(err == nil && len(data) > 0, "a stack has a JSON representation")
			svAssert(len(stack.Data().Children) == 1, "a stack has its calls")
		}
	}
	xrt.SvStart(use)
	use()
	xrt.SvWait()
	svReach("end")
}
