package zzsv

//gosx:pkg runtime zzsv
//gosx:with ../common/rtsim.go.txt
//gosx:replace runtime/internal/runtime/runtime_link.go ../common/rtlink.go.txt

import (
	"context"

	"github.com/xhd2015/xgo/runtime/core"
	xrt "github.com/xhd2015/xgo/runtime/internal/runtime"
	"github.com/xhd2015/xgo/runtime/mock"
	"github.com/xhd2015/xgo/runtime/trace"
	"github.com/xhd2015/xgo/runtime/trap"
)

// c04kinds are the kinds of handlers, mocks first.
const c04kinds = 10

type c04log struct{ ids []int }

func (l *c04log) mk(kind int, t *simT, id int) func() {
	ev := func() { l.ids = append(l.ids, id) }
	pre := &trap.Interceptor{Pre: func(ctx context.Context, f *core.FuncInfo, args core.Object, result core.Object) (interface{}, error) {
		ev()
		return nil, nil
	}}
	post := &trap.Interceptor{Post: func(ctx context.Context, f *core.FuncInfo, args core.Object, result core.Object, data interface{}) error {
		ev()
		return nil
	}}
	switch kind {
	case 0:
		return mock.Patch(t.M, func(int) int { ev(); return 0 })
	case 1:
		return mock.Patch(&simX, func() int { ev(); return 0 })
	case 2:
		return mock.Patch(&simX, func() *int { ev(); return nil })
	case 3:
		return trace.RecordCall(t.M, func(a int, r int) { ev() })
	case 4:
		return trace.RecordCall(&simX, func(v int) { ev() })
	case 5:
		return trace.RecordResult(&simX, func(v **int) { ev() })
	case 6:
		return trap.AddFuncInterceptor(simH, pre)
	case 7:
		return trap.AddFuncInterceptor(&simX, post)
	case 8:
		return trap.AddInterceptor(pre)
	}
	return trap.AddInterceptor(post)
}

func (l *c04log) call(kind int, t *simT) []int {
	l.ids = nil
	switch kind {
	case 0, 3:
		t.M(1)
	case 1, 4, 7:
		simReadX()
	case 2, 5:
		simAddrX()
	default:
		simH(1)
	}
	return l.ids
}

// c04once tells if got is want in any order.
func c04once(got []int, want []int) bool {
	if len(got) != len(want) {
		return false
	}
	n := map[int]int{}
	for _, id := range got {
		n[id]++
	}
	for _, id := range want {
		if n[id] != 1 {
			return false
		}
	}
	return true
}

// Handlers set up during package initialisation, of each kind and any number of
// them, work in every goroutine together with its own ones; mocks of them are a
// fallback.
//
//gosx:budget quick=60s thorough=200s
//gosx:bounds 10 kinds of handlers, 0-2 set up during initialisation, 0-2 later in the main goroutine, 0-1 in one started after, one of the later ones cancelled or not; a call in each goroutine
func SV_init_handlers() {
	simSetup()
	xrt.SvReset(false)
	t := &simT{1}
	l := &c04log{}
	kind := svChoose("kind", c04kinds)
	var undo []func()
	defer func() {
		xrt.SvReset(false)
		for i := len(undo); i > 0; i-- {
			undo[i-1]()
		}
	}()
	var global, main []int
	for i := svChoose("global", 3); i > 0; i-- {
		undo = append(undo, l.mk(kind, t, len(global)))
		global = append(global, len(global))
	}
	want := func(own []int) []int {
		if kind > 2 {
			return append(append([]int(nil), own...), global...)
		}
		if len(own) > 0 {
			return own[len(own)-1:]
		}
		if len(global) > 0 {
			return global[len(global)-1:]
		}
		return nil
	}
	if svBool("call") {
		svAssert(c04once(l.call(kind, t), want(nil)), "handlers work during initialisation")
	}
	xrt.SvFinishInit()
	g := xrt.SvCurG()
	before := xrt.SvGo()
	var cancels []func()
	for i := svChoose("local", 3); i > 0; i-- {
		cancels = append(cancels, l.mk(kind, t, 100+len(main)))
		main = append(main, 100+len(main))
	}
	after := xrt.SvGo()
	child := append([]int(nil), main...)
	xrt.SvSetG(after)
	if svBool("child") {
		l.mk(kind, t, 200)
		child = append(child, 200)
	}
	xrt.SvSetG(g)
	if len(main) > 0 && svBool("cancel") {
		i := svChoose("which", len(main))
		cancels[i]()
		main = append(append([]int(nil), main[:i]...), main[i+1:]...)
	}
	svAssert(c04once(l.call(kind, t), want(main)), "a goroutine has its own handlers and those set up during initialisation")
	xrt.SvSetG(after)
	svAssert(c04once(l.call(kind, t), want(child)), "a goroutine has the inherited handlers and those set up during initialisation")
	xrt.SvSetG(before)
	svAssert(c04once(l.call(kind, t), want(nil)), "a goroutine without own handlers has those set up during initialisation")
	xrt.SvSetG(xrt.SvNewG())
	svAssert(c04once(l.call(kind, t), want(nil)), "a goroutine of the runtime has those set up during initialisation")
	svReach("end")
}
