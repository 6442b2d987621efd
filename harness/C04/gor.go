package zzsv

//gosx:pkg runtime zzsv
//gosx:with ../common/rtsim.go.txt
//gosx:replace runtime/internal/runtime/runtime_link.go ../common/rtlink.go.txt

import (
	"context"
	"fmt"

	"github.com/xhd2015/xgo/runtime/core"
	xrt "github.com/xhd2015/xgo/runtime/internal/runtime"
	"github.com/xhd2015/xgo/runtime/mock"
	"github.com/xhd2015/xgo/runtime/tls"
	"github.com/xhd2015/xgo/runtime/trace"
	"github.com/xhd2015/xgo/runtime/trap"
)

type c04m struct {
	id     int
	target int // 0 simF, 1 simX, 2 *simX
	k      int
}

type c04g struct {
	g     *xrt.G
	mocks []c04m // active in this goroutine, oldest first
}

func (g *c04g) want(target, orig int) int {
	for i := len(g.mocks) - 1; i >= 0; i-- {
		if g.mocks[i].target == target {
			return g.mocks[i].k
		}
	}
	return orig
}

func (g *c04g) remove(id int) {
	var r []c04m
	for _, m := range g.mocks {
		if m.id != id {
			r = append(r, m)
		}
	}
	g.mocks = r
}

// Any history of mocking, cancelling and starting goroutines.
//
//gosx:budget quick=100s thorough=700s
//gosx:bounds histories of 5 (thorough 6) steps over up to 3 goroutines, mocks of a function, a variable and a variable address
func SV_goroutine_history() {
	simSetup()
	type handle struct {
		owner  *c04g
		id     int
		cancel func()
		done   bool
	}
	gs := []*c04g{{g: xrt.SvCurG()}}
	cur := gs[0]
	var hs []*handle
	steps := 5
	if svTier() == 1 {
		steps = 6
	}
	for s := 0; s < steps; s++ {
		k := svInt(fmt.Sprintf("k%d", s), -1000, 1000)
		add := func(target int, cancel func()) {
			cur.mocks = append(cur.mocks, c04m{s, target, k})
			hs = append(hs, &handle{cur, s, cancel, false})
		}
		switch svPick(fmt.Sprintf("op%d", s), 6) {
		case 0:
			add(0, mock.Patch(simF, func(int) int { return k }))
		case 1:
			add(1, mock.Patch(&simX, func() int { return k }))
		case 2:
			add(2, mock.Patch(&simX, func() *int { return &k }))
		case 3: // start a goroutine
			svAssume(len(gs) < 3)
			gs = append(gs, &c04g{g: xrt.SvGo(), mocks: append([]c04m(nil), cur.mocks...)})
		case 4: // run another goroutine
			i := svPick(fmt.Sprintf("g%d", s), 3)
			svAssume(i < len(gs))
			for j := range gs {
				if i == j {
					svAssume(gs[j] != cur)
					cur = gs[j]
					xrt.SvSetG(cur.g)
				}
			}
		default: // cancel, possibly from another goroutine than the one that mocked
			i := svPick(fmt.Sprintf("c%d", s), 6)
			svAssume(i < len(hs))
			for j, h := range hs {
				if i == j {
					svAssume(!h.done)
					h.done = true
					h.owner.remove(h.id)
					h.cancel()
				}
			}
		}
	}
	for _, g := range gs {
		xrt.SvSetG(g.g)
		a := svInt("a", -100, 100)
		svAssert(simF(a) == g.want(0, a+1000), "a goroutine calls its own latest mock: inherited at its start, or set up in it")
		svAssert(simReadX() == g.want(1, 100), "variable mocks are per goroutine")
		svAssert(*simAddrX() == g.want(2, 100), "variable address mocks are per goroutine")
	}
	svReach("end")
}

// Recorders and interceptors are inherited like mocks, with their bound instance.
//
//gosx:budget quick=60s thorough=200s
//gosx:bounds 4 kinds of handlers set up before or after starting a goroutine, cancelled or not in the parent
func SV_inherit_handlers() {
	simSetup()
	t1, t2 := &simT{1}, &simT{2}
	parent := xrt.SvCurG()
	n := 0
	kind := svPick("kind", 5)
	before, cancelled := svBool("before"), svBool("cancelled")
	var child *xrt.G
	if !before {
		child = xrt.SvGo()
	}
	ic := &trap.Interceptor{Pre: func(ctx context.Context, f *core.FuncInfo, args core.Object, result core.Object) (interface{}, error) {
		n++
		return nil, nil
	}}
	var cancel func()
	switch kind {
	case 0:
		cancel = trace.RecordCall(simF, func(a int, r int) { n++ })
	case 1:
		cancel = trace.RecordCall(t1.M, func(a int, r int) { n++ })
	case 2:
		cancel = trap.AddFuncInterceptor(t1.M, ic)
	case 3:
		cancel = trap.AddInterceptor(ic)
	default:
		cancel = trace.RecordCall(&simX, func(v int) { n++ })
	}
	if before {
		child = xrt.SvGo()
	}
	run := func() int {
		n = 0
		switch kind {
		case 0:
			simF(1)
		case 1, 2:
			t1.M(1)
		case 3:
			simH(1)
		default:
			simReadX()
		}
		return n
	}
	svAssert(run() == 1, "works in the goroutine that set it up")
	if cancelled {
		cancel()
		svAssert(run() == 0, "cancelled in the goroutine that set it up")
	}
	xrt.SvSetG(child)
	want := 0
	if before {
		want = 1
	}
	svAssert(run() == want, "a goroutine has the handlers that were active when it was started")
	if kind == 1 || kind == 2 {
		n = 0
		t2.M(1)
		svAssert(n == 0, "an inherited handler stays bound to its instance")
	}
	// handlers of the child do not leak into the parent
	m := 0
	trace.RecordCall(simH, func(a int, r int) { m++ })
	simH(1)
	svAssert(m == 1, "child's own handler")
	xrt.SvSetG(parent)
	simH(1)
	svAssert(m == 1, "child's handler is not called in the parent")
	svReach("end")
}

// Each goroutine has its own lists: any number of handlers of a kind before the
// start, and then more set up and cancelled on both sides, in either order.
//
//gosx:budget quick=60s thorough=200s
//gosx:bounds 9 kinds of handlers, 0-5 before the start, 1-2 on each side after it, one of the inherited cancelled or not
func SV_independent_lists() {
	simSetup()
	t1 := &simT{1}
	kind := svPick("kind", 9)
	var log []int
	mk := func(id int) func() {
		ic := &trap.Interceptor{Pre: func(ctx context.Context, f *core.FuncInfo, args core.Object, result core.Object) (interface{}, error) {
			log = append(log, id)
			return nil, nil
		}}
		switch kind {
		case 0:
			return mock.Patch(simF, func(int) int { log = append(log, id); return 0 })
		case 1:
			return mock.Patch(&simX, func() int { log = append(log, id); return 0 })
		case 2:
			return mock.Patch(&simX, func() *int { log = append(log, id); return nil })
		case 3:
			return trace.RecordCall(t1.M, func(a int, r int) { log = append(log, id) })
		case 4:
			return trace.RecordCall(&simX, func(v int) { log = append(log, id) })
		case 5:
			return trap.AddFuncInterceptor(simF, ic)
		case 7:
			return trace.RecordResult(&simX, func(v **int) { log = append(log, id) })
		case 8:
			return trap.AddFuncInterceptor(&simX, ic)
		}
		return trap.AddInterceptor(ic)
	}
	call := func() []int {
		log = nil
		switch kind {
		case 0, 5, 6:
			simF(1)
		case 1, 4, 8:
			simReadX()
		case 2, 7:
			simAddrX()
		case 3:
			t1.M(1)
		}
		return log
	}
	want := func(ids []int) []int {
		if kind <= 2 && len(ids) > 0 { // mocks: only the last one runs
			return ids[len(ids)-1:]
		}
		return ids
	}
	parent := xrt.SvCurG()
	var pids, cids []int
	var cancels []func()
	n := svPick("n", 6)
	for i := 0; i < n; i++ {
		cancels = append(cancels, mk(i))
		pids = append(pids, i)
	}
	cids = append(cids, pids...)
	child := xrt.SvGo()
	childFirst := svBool("childFirst")
	inParent := func() {
		xrt.SvSetG(parent)
		if n > 0 && svBool("cancel") {
			c := svPick("which", 5)
			svAssume(c < n)
			for i := range cancels {
				if i == c {
					cancels[i]()
					pids = append(append([]int(nil), pids[:i]...), pids[i+1:]...)
				}
			}
		}
		np := 1 + svPick("np", 2)
		for i := 0; i < np; i++ {
			mk(100 + i)
			pids = append(pids, 100+i)
		}
	}
	if !childFirst {
		inParent()
	}
	xrt.SvSetG(child)
	nc := 1 + svPick("nc", 2)
	var undo []func()
	for i := 0; i < nc; i++ {
		undo = append(undo, mk(200+i))
		cids = append(cids, 200+i)
	}
	if childFirst {
		inParent()
	}
	xrt.SvSetG(parent)
	svAssert(c04same(call(), want(pids)), "the parent runs the handlers set up in it")
	xrt.SvSetG(child)
	svAssert(c04same(call(), want(cids)), "the child runs those active at its start and its own")
	for i := len(undo) - 1; i >= 0; i-- {
		undo[i]()
	}
	svAssert(c04same(call(), want(cids[:n])), "cancelling its own leaves the inherited ones")
	xrt.SvSetG(parent)
	svAssert(c04same(call(), want(pids)), "the parent is not affected by the child's cancelling")
	svReach("end")
}

func c04same(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// Handlers set up during package initialisation apply to every goroutine.
//
//gosx:budget quick=60s thorough=200s
//gosx:bounds mocks of a function and an instance during init; optional local mocks; 2 goroutines
func SV_init_mocks() {
	simSetup()
	xrt.SvReset(false)
	t1, t2 := &simT{1}, &simT{2}
	k0, k1, k2 := svInt("k0", -1000, 1000), svInt("k1", -1000, 1000), svInt("k2", -1000, 1000)
	undo := []func(){
		mock.Patch(simF, func(int) int { return k0 }),
		mock.Patch(t1.M, func(int) int { return k0 }),
		mock.Patch(&simX, func() int { return k0 }),
	}
	nrec := 0
	undo = append(undo, trace.RecordCall(simH, func(a int, r int) { nrec++ }))
	order := ""
	undo = append(undo, trap.AddFuncInterceptor(simH, &trap.Interceptor{Pre: func(ctx context.Context, f *core.FuncInfo, args core.Object, result core.Object) (interface{}, error) {
		order += "g"
		return nil, nil
	}}))
	defer func() {
		xrt.SvReset(false)
		for _, u := range undo {
			u()
		}
	}()
	xrt.SvFinishInit()
	main := xrt.SvCurG()
	other := xrt.SvNewG()
	checkGlobal := func() {
		svAssert(simF(1) == k0, "a function mocked during init is mocked in every goroutine")
		svAssert(t1.M(1) == k0 && t2.M(1) == 3, "an instance mocked during init is mocked in every goroutine")
		svAssert(simReadX() == k0, "a variable mocked during init is mocked in every goroutine")
	}
	checkGlobal()
	local, inst := svBool("local"), svBool("inst")
	var c1, c2 func()
	if local {
		c1 = mock.Patch(simF, func(int) int { return k1 })
		svAssert(simF(1) == k1, "a local mock hides the global one")
	}
	if inst {
		c2 = mock.Patch(t2.M, func(int) int { return k2 })
		svAssert(t2.M(1) == k2 && t1.M(1) == k0, "a local mock of another instance keeps the global one")
	}
	simH(1)
	svAssert(nrec == 1 && order == "g", "global recorders run once")
	c3 := trace.RecordCall(simH, func(a int, r int) { order += "l" })
	order = ""
	simH(1)
	svAssert(nrec == 2 && order == "lg", "local and global recorders both run")
	c3()
	xrt.SvSetG(other)
	checkGlobal()
	nrec = 0
	simH(1)
	svAssert(nrec == 1, "global recorder in another goroutine")
	xrt.SvSetG(main)
	if local {
		c1()
	}
	if inst {
		c2()
	}
	checkGlobal()
	p := func() (e interface{}) {
		defer func() { e = recover() }()
		undo[0]()
		return nil
	}()
	svAssert(p != nil, "cancelling a global mock after init panics")
	checkGlobal()
	svReach("end")
}

// Goroutine-local values: set per goroutine, inherited keys copied at start.
//
//gosx:budget quick=60s thorough=400s
//gosx:bounds 2 keys, histories of 5 (thorough 7) set/start/switch steps over up to 3 goroutines, any int values
func SV_tls() {
	simSetup()
	ki, kn := tls.DeclareInherit("i"), tls.New().Name("n").Declare()
	type st struct {
		g          *xrt.G
		vi, vn     int
		hasi, hasn bool
	}
	gs := []*st{{g: xrt.SvCurG()}}
	cur := gs[0]
	steps := 5
	if svTier() == 1 {
		steps = 7
	}
	for s := 0; s < steps; s++ {
		v := svInt(fmt.Sprintf("v%d", s), -1000, 1000)
		switch svPick(fmt.Sprintf("op%d", s), 4) {
		case 0:
			ki.Set(v)
			cur.vi, cur.hasi = v, true
		case 1:
			kn.Set(v)
			cur.vn, cur.hasn = v, true
		case 2:
			svAssume(len(gs) < 3)
			gs = append(gs, &st{g: xrt.SvGo(), vi: cur.vi, hasi: cur.hasi})
		default:
			i := svPick(fmt.Sprintf("g%d", s), 3)
			svAssume(i < len(gs))
			for j := range gs {
				if i == j {
					svAssume(gs[j] != cur)
					cur = gs[j]
					xrt.SvSetG(cur.g)
				}
			}
		}
	}
	for _, g := range gs {
		xrt.SvSetG(g.g)
		x, ok := ki.GetOK()
		svAssert(ok == g.hasi, "inherited key is set exactly if it was set here, or in the parent at the start")
		if ok {
			svAssert(x.(int) == g.vi && ki.Get().(int) == g.vi, "inherited value")
		} else {
			svAssert(ki.Get() == nil, "unset")
		}
		x, ok = kn.GetOK()
		svAssert(ok == g.hasn, "a key that is not inherited is set only where it was set")
		if ok {
			svAssert(x.(int) == g.vn, "own value")
		}
	}
	svReach("end")
}
