package zzsv

//gosx:pkg runtime zzsv
//gosx:with ../common/rtsim.go.txt
//gosx:with ../common/rttrace.go.txt
//gosx:replace runtime/internal/runtime/runtime_link.go ../common/rtlink.go.txt

import (
	"context"
	"fmt"

	"github.com/xhd2015/xgo/runtime/core"
	xrt "github.com/xhd2015/xgo/runtime/internal/runtime"
	"github.com/xhd2015/xgo/runtime/mock"
	"github.com/xhd2015/xgo/runtime/trace"
	"github.com/xhd2015/xgo/runtime/trap"
)

type c03h struct {
	id       int
	kind     int // 0 recorder on simF, 1 func interceptor on simF, 2 general interceptor
	pre      bool
	post     bool
	stop     bool
	active   bool
	cancel   func()
	lastData int
}

var c03log []string

func c03ev(kind string, id int) { c03log = append(c03log, fmt.Sprintf("%s%d", kind, id)) }

// c03add installs handler h. Its data is a fresh number the post must get back.
func c03add(h *c03h, a int) {
	h.active = true
	if h.kind == 0 {
		pre := func(ga int, r int) {
			svAssert(ga == a, "recorder pre sees the argument")
			c03ev("pre", h.id)
		}
		post := func(ga int, r int) {
			svAssert(ga == a, "recorder post sees the argument")
			c03ev("post", h.id)
		}
		if h.pre && h.post {
			h.cancel = trace.Record(simF, pre, post)
		} else if h.pre {
			h.cancel = trace.RecordCall(simF, pre)
		} else {
			h.cancel = trace.RecordResult(simF, post)
		}
		return
	}
	ic := &trap.Interceptor{}
	if h.pre {
		ic.Pre = func(ctx context.Context, f *core.FuncInfo, args core.Object, result core.Object) (interface{}, error) {
			c03ev("pre", h.id)
			svAssert(args.GetField("a").Value().(int) == a, "interceptor pre sees the argument")
			if h.stop {
				result.GetFieldIndex(0).Set(h.id)
				return nil, trap.ErrMocked
			}
			return h.id*10 + 7, nil
		}
	}
	if h.post {
		ic.Post = func(ctx context.Context, f *core.FuncInfo, args core.Object, result core.Object, data interface{}) error {
			c03ev("post", h.id)
			if h.pre {
				svAssert(data.(int) == h.id*10+7, "post gets the data of its own pre")
			} else {
				svAssert(data == nil, "post without pre gets no data")
			}
			return nil
		}
	}
	if h.kind == 1 {
		h.cancel = trap.AddFuncInterceptor(simF, ic)
	} else {
		h.cancel = trap.AddInterceptor(ic)
	}
}

// c03want is the protocol: the events of one call, whether the original body is
// skipped and by whom.
func c03want(hs []*c03h, isF bool) (evs []string, stoppedBy int) {
	var order []*c03h
	for _, h := range hs {
		if h.active && h.kind != 2 && isF {
			order = append(order, h)
		}
	}
	for _, h := range hs {
		if h.active && h.kind == 2 {
			order = append(order, h)
		}
	}
	var ran []*c03h
	stoppedBy = -1
	for _, h := range order {
		if h.pre {
			evs = append(evs, fmt.Sprintf("pre%d", h.id))
			if h.stop {
				stoppedBy = h.id
				break
			}
		}
		ran = append(ran, h)
	}
	for i := len(ran) - 1; i >= 0; i-- {
		if ran[i].post {
			evs = append(evs, fmt.Sprintf("post%d", ran[i].id))
		}
	}
	return evs, stoppedBy
}

func c03same(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func c03handlers(n int, a int) []*c03h {
	var hs []*c03h
	for i := 0; i < n; i++ {
		h := &c03h{id: i, kind: svPick(fmt.Sprintf("kind%d", i), 3)}
		switch svPick(fmt.Sprintf("shape%d", i), 3) {
		case 0:
			h.pre, h.post = true, true
		case 1:
			h.pre = true
		default:
			h.post = true
		}
		switch h.kind {
		case 0:
			h.kind = 0
		case 1:
			h.kind = 1
		default:
			h.kind = 2
		}
		if h.kind != 0 && h.pre {
			h.stop = svBool(fmt.Sprintf("stop%d", i))
			if h.stop {
				h.stop = true
			} else {
				h.stop = false
			}
		}
		c03add(h, a)
		hs = append(hs, h)
	}
	return hs
}

func c03checkCall(hs []*c03h, a int) {
	c03log = nil
	n := simCalls["F"]
	got := simF(a)
	want, by := c03want(hs, true)
	svAssert(c03same(c03log, want), "handlers run in order before, and in reverse order after the call")
	if by >= 0 {
		svAssert(got == by && simCalls["F"] == n, "ErrMocked skips the function and keeps the results that were set")
	} else {
		svAssert(got == a+1000 && simCalls["F"] == n+1, "the function runs once")
	}
	c03log = nil
	n = simCalls["H"]
	got = simH(a)
	want, by = c03want(hs, false)
	svAssert(c03same(c03log, want), "another function only sees general interceptors")
	if by >= 0 {
		svAssert(got == by && simCalls["H"] == n, "ErrMocked skips the other function")
	} else {
		svAssert(got == a+2000 && simCalls["H"] == n+1, "the other function runs once")
	}
}

// Order, pairing, stopping and cancelling of handlers.
//
//gosx:budget quick=100s thorough=700s
//gosx:bounds 3 handlers (thorough: 4) of any kind and shape, any of them stopping, one cancelled; any int argument
func SV_protocol() {
	simSetup()
	a := svInt("a", -100, 100)
	n := 3
	if svTier() == 1 {
		n = 4
	}
	hs := c03handlers(n, a)
	c03checkCall(hs, a)
	i := svPick("cancel", n)
	for j, h := range hs {
		if i == j {
			h.cancel()
			h.active = false
		}
	}
	c03checkCall(hs, a)
	svReach("end")
}

// Three general interceptors / recorders, one cancelled at a time until none is left.
//
//gosx:budget quick=60s thorough=200s
//gosx:bounds 4 handlers of one kind with pre and post, cancelled in any order; any int argument
func SV_cancel_orders() {
	simSetup()
	a := svInt("a", -100, 100)
	kind := svPick("kind", 3)
	for k := 0; k < 3; k++ {
		if k == kind {
			kind = k
			break
		}
	}
	var hs []*c03h
	for i := 0; i < 4; i++ {
		h := &c03h{id: i, kind: kind, pre: true, post: true}
		c03add(h, a)
		hs = append(hs, h)
	}
	for s := 0; s < 4; s++ {
		c03checkCall(hs, a)
		i := svPick(fmt.Sprintf("cancel%d", s), 4)
		for j, h := range hs {
			if i == j {
				svAssume(h.active)
				h.active = false
				h.cancel()
			}
		}
	}
	c03checkCall(hs, a)
	svAssert(len(c03log) == 0, "nothing is called once all are cancelled")
	svReach("end")
}

// A handler that cancels itself or another one affects later calls, not the
// handlers of the call being processed.
//
//gosx:bounds 3 handlers of one kind, any one of them cancelling any one
func SV_cancel_inside() {
	simSetup()
	general := svBool("general")
	n := 3
	who, whom := svPick("who", 3), svPick("whom", 3)
	var cancels [3]func()
	count := [3]int{}
	done := false
	for i := 0; i < n; i++ {
		i := i
		pre := func() {
			count[i]++
			if !done && i == who {
				done = true
				for j := 0; j < n; j++ {
					if j == whom {
						cancels[j]()
					}
				}
			}
		}
		if general {
			cancels[i] = trap.AddInterceptor(&trap.Interceptor{Pre: func(ctx context.Context, f *core.FuncInfo, args core.Object, result core.Object) (interface{}, error) {
				pre()
				return nil, nil
			}})
		} else {
			cancels[i] = trace.RecordCall(simF, func(a int, r int) { pre() })
		}
	}
	simF(1)
	for j := 0; j < n; j++ {
		svAssert(count[j] == 1, "every handler set up when the call began runs exactly once")
	}
	simF(1)
	for j := 0; j < n; j++ {
		if j == whom {
			svAssert(count[j] == 1, "the cancelled handler is not called again")
		} else {
			svAssert(count[j] == 2, "the others are")
		}
	}
	svReach("end")
}

// Calls made by a handler are not intercepted again; mocks do apply in them,
// and the depth is restored whatever happens.
//
//gosx:bounds interceptor pre/post calling functions; panicking or not; mocked or not
func SV_reentrancy() {
	simSetup()
	a := svInt("a", -100, 100)
	k := svInt("k", -100, 100)
	mocked, boom, inPost := svBool("mocked"), svBool("boom"), svBool("inpost")
	if mocked {
		mock.Patch(simH, func(x int) int { return k })
	}
	count := 0
	body := func() {
		count++
		if count > 3 {
			svAssert(false, "an interceptor is called for calls of its own")
		}
		h := simH(a)
		if mocked {
			svAssert(h == k, "a mock applies inside an interceptor")
		} else {
			svAssert(h == a+2000, "the original runs inside an interceptor")
		}
		simReadX()
		if boom {
			panic("boom")
		}
	}
	ic := &trap.Interceptor{}
	if inPost {
		ic.Post = func(ctx context.Context, f *core.FuncInfo, args core.Object, result core.Object, data interface{}) error {
			body()
			return nil
		}
	} else {
		ic.Pre = func(ctx context.Context, f *core.FuncInfo, args core.Object, result core.Object) (interface{}, error) {
			body()
			return nil, nil
		}
	}
	cancel := trap.AddInterceptor(ic)
	call := func() (r int, e interface{}) {
		defer func() { e = recover() }()
		return simF(a), nil
	}
	r, e := call()
	svAssert(count == 1, "called once for the call itself")
	svAssert((e != nil) == boom, "a handler's panic reaches the caller")
	if !boom {
		svAssert(r == a+1000, "result")
	}
	call()
	svAssert(count == 2, "called again for the next call")
	cancel()
	call()
	svAssert(count == 2, "not called after cancelling")
	svReach("end")
}

// Method recorders and interceptors bound to an instance see only that instance.
//
//gosx:bounds 2 instances, recorders bound to one, to the other, or to the type
func SV_bound_recorders() {
	simSetup()
	t1, t2 := &simT{1}, &simT{2}
	a := svInt("a", -100, 100)
	var n1, n2, nt int
	c1 := trace.Record(t1.M, func(x int, r int) { n1++ }, func(x int, r int) {
		svAssert(x == a && r == a+1, "bound recorder sees argument and result")
	})
	c2 := trap.AddFuncInterceptor(t2.M, &trap.Interceptor{Pre: func(ctx context.Context, f *core.FuncInfo, args core.Object, result core.Object) (interface{}, error) {
		n2++
		svAssert(args.NumField() == 1 && args.GetField("a").Value().(int) == a, "arguments without the receiver")
		return nil, nil
	}})
	ct := trap.AddFuncInterceptor((*simT).M, &trap.Interceptor{Pre: func(ctx context.Context, f *core.FuncInfo, args core.Object, result core.Object) (interface{}, error) {
		nt++
		svAssert(args.NumField() == 2 && args.GetField("t").Value().(*simT) != nil && args.GetField("a").Value().(int) == a, "receiver and arguments")
		return nil, nil
	}})
	e1, e2, et := 0, 0, 0
	a1, a2, at := true, true, true
	for s := 0; s < 3; s++ {
		if svBool(fmt.Sprintf("one%d", s)) {
			svAssert(t1.M(a) == a+1, "result")
			if a1 {
				e1++
			}
		} else {
			svAssert(t2.M(a) == a+2, "result")
			if a2 {
				e2++
			}
		}
		if at {
			et++
		}
		svAssert(n1 == e1 && n2 == e2 && nt == et, "each recorder sees exactly the calls of what it is bound to")
		switch svPick(fmt.Sprintf("c%d", s), 4) {
		case 0:
			if a1 {
				c1()
				a1 = false
			}
		case 1:
			if a2 {
				c2()
				a2 = false
			}
		case 2:
			if at {
				ct()
				at = false
			}
		}
	}
	svReach("end")
}

// The handlers of a call are paired also when the mock or the function panics.
//
//gosx:bounds 3 handlers that may lack a pre or post, a function or mock that returns or panics
func SV_panicking_call() {
	simTraceSetup()
	mocked, boom := svChoose("mocked", 2) == 1, svBool("boom")
	k := svInt("k", -100, 100)
	if mocked {
		mock.Patch(simNode, func(ctx context.Context, id int) (int, error) {
			if boom {
				simPanic("boom")
			}
			return k, nil
		})
	}
	simBody = func(id int, errp *error) (int, error) {
		if boom {
			simPanic("boom")
		}
		return k, nil
	}
	want, got := "", ""
	for i := 0; i < 3; i++ {
		name := string(rune('a' + i))
		ic := &trap.Interceptor{}
		shape := svChoose("shape"+name, 3)
		if shape != 1 {
			ic.Pre = func(ctx context.Context, f *core.FuncInfo, args core.Object, result core.Object) (interface{}, error) {
				got += "<" + name
				return name, nil
			}
		}
		if shape != 2 {
			want = ">" + name + want
			ic.Post = func(ctx context.Context, f *core.FuncInfo, args core.Object, result core.Object, data interface{}) error {
				got += ">" + name
				svAssert((data == nil) == (shape == 1), "post gets the data of its pre")
				return nil
			}
		}
		if svChoose("kind"+name, 2) == 0 {
			trap.AddFuncInterceptor(simNode, ic)
		} else {
			trap.AddInterceptor(ic)
		}
	}
	var r int
	var e interface{}
	func() {
		defer func() { e = recover(); simRecover(e) }()
		r, _ = simNode(context.Background(), 1)
	}()
	svAssert((e != nil) == boom, "the panic reaches the caller")
	svAssert(boom || r == k, "result")
	posts := ""
	for i := 0; i+1 < len(got); i += 2 {
		if got[i] == '>' {
			posts += got[i : i+2]
		}
	}
	svAssert(len(posts) == len(want), "every post handler runs once")
	svAssert(xrt.SvDepth() == 0, "the goroutine is not left in trapping state")
	svReach("end")
}
