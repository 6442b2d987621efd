package zzsv

//gosx:pkg runtime zzsv
//gosx:with ../common/rtsim.go.txt
//gosx:replace runtime/internal/runtime/runtime_link.go ../common/rtlink.go.txt

import (
	"context"
	"fmt"

	"github.com/xhd2015/xgo/runtime/core"
	xrt "github.com/xhd2015/xgo/runtime/internal/runtime"
	"github.com/xhd2015/xgo/runtime/mock"
	"github.com/xhd2015/xgo/runtime/trace"
	"github.com/xhd2015/xgo/runtime/trap"
)

type c02h struct {
	id     int
	kind   int // 0 func(T), 1 func(*T), 2 interceptor, 3 func(**T): of the address, 4 general interceptor
	global bool
	pre    bool
	post   bool
	active bool
	cancel func()
}

var (
	c02log          []string
	c02pre, c02post []int
)

func c02ev(h *c02h, what string, v int) {
	c02log = append(c02log, fmt.Sprintf("%s%d", what, h.id))
	if what == "pre" {
		c02pre = append(c02pre, v)
	} else {
		c02post = append(c02post, v)
	}
}

func c02add(h *c02h) {
	h.active = true
	var pre, post interface{}
	switch h.kind {
	case 0:
		if h.pre {
			pre = func(v int) { c02ev(h, "pre", v) }
		}
		if h.post {
			post = func(v int) { c02ev(h, "post", v) }
		}
	case 1:
		if h.pre {
			pre = func(v *int) { c02ev(h, "pre", *v) }
		}
		if h.post {
			post = func(v *int) { c02ev(h, "post", *v) }
		}
	case 3:
		if h.pre {
			pre = func(v **int) { c02ev(h, "pre", **v) }
		}
		if h.post {
			post = func(v **int) { c02ev(h, "post", **v) }
		}
	default:
		val := func(o core.Object) int {
			switch v := o.GetFieldIndex(0).Value().(type) {
			case int:
				return v
			case *int:
				return *v
			}
			panic("other type")
		}
		ic := &trap.Interceptor{}
		if h.pre {
			ic.Pre = func(ctx context.Context, f *core.FuncInfo, args core.Object, res core.Object) (interface{}, error) {
				c02ev(h, "pre", val(res))
				return h.id + 40, nil
			}
		}
		if h.post {
			ic.Post = func(ctx context.Context, f *core.FuncInfo, args core.Object, res core.Object, data interface{}) error {
				c02ev(h, "post", val(res))
				if h.pre {
					svAssert(data == h.id+40, "a post handler gets the data of its own pre handler")
				} else {
					svAssert(data == nil, "no data without a pre handler")
				}
				return nil
			}
		}
		if h.kind == 2 {
			h.cancel = trap.AddFuncInterceptor(&simX, ic)
		} else {
			h.cancel = trap.AddInterceptor(ic)
		}
		return
	}
	switch {
	case h.pre && h.post:
		h.cancel = trace.Record(&simX, pre, post)
	case h.pre:
		h.cancel = trace.RecordCall(&simX, pre)
	default:
		h.cancel = trace.RecordResult(&simX, post)
	}
}

// c02want gives the pre and post handlers of a read, in order.
func c02want(hs []*c02h, addr bool) (r []string) {
	for _, what := range []string{"pre", "post"} {
		for k := 0; k < 4; k++ {
			for _, h := range hs {
				of := h.kind == 3
				if h.kind == 4 {
					of = addr
				}
				if h.active && of == addr && (h.kind == 4) == (k >= 2) && h.global == (k%2 == 1) && (h.pre && what == "pre" || h.post && what == "post") {
					r = append(r, fmt.Sprintf("%s%d", what, h.id))
				}
			}
		}
	}
	return r
}

// Recorders of the value, of the address, and general interceptors around reads
// and address-takings of a variable: each exactly once, in order, until
// cancelled, also those set up during package initialisation.
//
//gosx:budget quick=60s thorough=300s
//gosx:bounds 3 handlers of 5 kinds (the general ones see all variables) with pre, post or both, up to 2 of them set up during initialisation, one of the others cancelled; variable mocked or not; any int values
func SV_recorders_around() {
	simSetup()
	xrt.SvReset(false)
	var undo []func()
	defer func() {
		xrt.SvReset(false)
		for _, u := range undo {
			u()
		}
	}()
	nGlobal := svChoose("global", 3)
	var hs []*c02h
	for i := 0; i < 3; i++ {
		if i == nGlobal {
			xrt.SvFinishInit()
		}
		h := &c02h{id: i, kind: svChoose("kind", 5), global: i < nGlobal}
		shape := 0
		if i > 0 {
			shape = svChoose("shape", 3)
		}
		h.pre, h.post = shape != 1, shape != 2
		c02add(h)
		if h.global {
			undo = append(undo, h.cancel)
		}
		hs = append(hs, h)
	}
	simX = svInt("x", -1000, 1000)
	simY = svInt("y", -1000, 1000)
	x, v, p := simX, simX, simX
	if svBool("mocked") {
		v, p = svInt("v", -1000, 1000), svInt("p", -1000, 1000)
		mock.Patch(&simX, func() int { return v })
		mock.Patch(&simX, func() *int { return &p })
	}
	for round := 0; round < 2; round++ {
		if round == 1 {
			i := svChoose("cancel", 3)
			if i < nGlobal {
				return
			}
			hs[i].cancel()
			hs[i].active = false
		}
		for _, addr := range []bool{false, true} {
			c02log, c02pre, c02post = nil, nil, nil
			want := v
			if addr {
				want = p
				svAssert(*simAddrX() == p, "the address is that of the latest mock")
			} else {
				svAssert(simReadX() == v, "the value is that of the latest mock")
			}
			svAssert(c02sameLog(c02log, c02want(hs, addr)), "each handler of the variable runs once around a read, in order")
			for _, g := range c02pre {
				svAssert(g == x, "handlers before the read see the variable")
			}
			for _, g := range c02post {
				svAssert(g == want, "handlers after the read see what the reader gets")
			}
		}
		c02log = nil
		svAssert(simReadY() == simY, "another variable")
		n := 0
		for _, h := range hs {
			if h.active && h.kind == 4 {
				if h.pre {
					n++
				}
				if h.post {
					n++
				}
			}
		}
		svAssert(len(c02log) == n, "only general interceptors see other variables")
	}
	svReach("end")
}

func c02sameLog(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
