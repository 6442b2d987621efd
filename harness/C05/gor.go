package zzsv

//gosx:pkg runtime zzsv
//gosx:with ../common/rtsim.go.txt
//gosx:with ../common/rttrace.go.txt
//gosx:replace runtime/internal/runtime/runtime_link.go ../common/rtlink.go.txt

import (
	"context"
	"fmt"
	"unsafe"

	xrt "github.com/xhd2015/xgo/runtime/internal/runtime"
	"github.com/xhd2015/xgo/runtime/trace"
	"github.com/xhd2015/xgo/runtime/trace/stack_model"
)

// c05enter starts a call in the current goroutine, to be ended by the result.
func c05enter(id int) func() {
	var ctx context.Context = context.Background()
	var r int
	var err error
	post, _ := xrt.SvTrap(unsafe.Pointer(infoNode), nil, []interface{}{&ctx, &id}, []interface{}{&r, &err})
	return post
}

type c05t struct {
	name    string
	running bool
	g       *c05g // of a "go" entry
	kids    []*c05t
}

type c05g struct {
	g      *xrt.G
	roots  []*c05t
	open   []*c05t
	posts  []func()
	exited bool
}

func (g *c05g) add(t *c05t) {
	if n := len(g.open); n > 0 {
		g.open[n-1].kids = append(g.open[n-1].kids, t)
	} else {
		g.roots = append(g.roots, t)
	}
}

func c05same(got []*stack_model.StackEntry, want []*c05t) {
	svAssert(len(got) == len(want), "each call and goroutine start appears exactly once, at its place")
	for i, w := range want {
		name, kids := w.name, w.kids
		running := w.running
		if w.g != nil {
			kids = w.g.roots
			running = !w.g.exited
		}
		if running {
			name += " (running)"
		}
		svAssert(got[i].FuncInfo.Name == name, "entries are in order, those not ended yet are marked as running")
		svAssert(got[i].BeginNs <= got[i].EndNs, "no entry ends before it begins")
		if w.g == nil {
			last := got[i].BeginNs
			for _, k := range got[i].Children {
				svAssert(last <= k.BeginNs, "calls are in the order of their times")
				last = k.BeginNs
			}
		} else if len(got[i].Children) > 0 {
			svAssert(got[i].BeginNs <= got[i].Children[0].BeginNs, "calls of a goroutine come after its start")
		}
		c05same(got[i].Children, kids)
	}
}

// Calls of several goroutines, interleaved in any way while a trace runs.
//
//gosx:budget quick=100s thorough=600s
//gosx:bounds schedules of 6 (thorough 8) steps over up to 3 goroutines: enter, leave, read a variable, start a goroutine, exit, switch
func SV_goroutine_tree() {
	simTraceSetup()
	xrt.SvStep = 1
	steps := 6
	if svTier() == 1 {
		steps = 8
	}
	var out *stack_model.Stack
	finished := 0
	var config interface{} = trace.Config{OnFinish: func(stack stack_model.IStack) {
		finished++
		out = stack.Data()
	}}
	cfg := config.(trace.Config)
	var req interface{}
	var fn func() (interface{}, error)
	var resp interface{}
	var err error
	end, _ := xrt.SvTrap(unsafe.Pointer(infoTrace), nil, []interface{}{&cfg, &req, &fn}, []interface{}{&resp, &err})
	root := &c05t{name: "Trace"}
	gs := []*c05g{{g: xrt.SvCurG(), roots: []*c05t{root}, open: []*c05t{root}, posts: []func(){nil}}}
	cur := gs[0]
	for s := 0; s < steps; s++ {
		switch svChoose(fmt.Sprintf("op%d", s), 6) {
		case 0:
			t := &c05t{name: "simNode", running: true}
			cur.add(t)
			cur.open = append(cur.open, t)
			cur.posts = append(cur.posts, c05enter(s))
		case 1:
			n := len(cur.open)
			svAssume(n > 0 && cur.posts[n-1] != nil)
			cur.open[n-1].running = false
			cur.posts[n-1]()
			cur.open, cur.posts = cur.open[:n-1], cur.posts[:n-1]
		case 2:
			cur.add(&c05t{name: "simX"})
			simReadX()
		case 3:
			svAssume(len(gs) < 3)
			g := &c05g{g: xrt.SvGo()}
			cur.add(&c05t{name: "go", g: g})
			gs = append(gs, g)
		case 4:
			svAssume(len(cur.open) == 0 && !cur.exited)
			cur.exited = true
			xrt.SvExit()
			cur = gs[0]
			xrt.SvSetG(cur.g)
		default:
			i := svChoose(fmt.Sprintf("g%d", s), 3)
			svAssume(i < len(gs) && gs[i] != cur && !gs[i].exited)
			cur = gs[i]
			xrt.SvSetG(cur.g)
		}
	}
	xrt.SvSetG(gs[0].g)
	g0 := gs[0]
	for n := len(g0.open); n > 1; n-- {
		g0.open[n-1].running = false
		g0.posts[n-1]()
		g0.open = g0.open[:n-1]
	}
	end()
	svAssert(finished == 1 && len(out.Children) == 1, "the trace is finished once")
	root.running = false
	// the goroutine the trace was started on is the tree itself
	c05same(out.Children, []*c05t{root})
	for _, g := range gs[1:] {
		xrt.SvSetG(g.g)
		for n := len(g.posts); n > 0; n-- {
			g.posts[n-1]()
		}
	}
	svAssert(finished == 1, "calls of other goroutines that end later do not finish it again")
	svReach("end")
}
