package zzsv

//gosx:pkg runtime zzsv
//gosx:with ../common/rtsim.go.txt
//gosx:replace runtime/internal/runtime/runtime_link.go ../common/rtlink.go.txt

import (
	"context"
	"fmt"

	"github.com/xhd2015/xgo/runtime/core"
	xrt "github.com/xhd2015/xgo/runtime/internal/runtime"
	"github.com/xhd2015/xgo/runtime/mock"
	"github.com/xhd2015/xgo/runtime/trace"
	"github.com/xhd2015/xgo/runtime/trap"
)

type c02mock struct {
	target int // 0 simX by value, 1 simY by value, 2 &simX by pointer
	k      int
	cancel func()
	active bool
}

// Any history of mocking variables by value and by pointer, and cancelling.
//
//gosx:budget quick=60s thorough=600s
//gosx:bounds histories of 4 (thorough 5) steps over 2 variables and value/pointer mocks through all entry points, any int values
func SV_var_history() {
	simSetup()
	var mocks []*c02mock
	want := func(target int, orig int) int {
		for i := len(mocks) - 1; i >= 0; i-- {
			if mocks[i].active && mocks[i].target == target {
				return mocks[i].k
			}
		}
		return orig
	}
	simX = svInt("x", -1000, 1000)
	simY = svInt("y", -1000, 1000)
	x, y := simX, simY
	steps := 4
	if svTier() == 1 {
		steps = 5
	}
	for s := 0; s < steps; s++ {
		k := svInt(fmt.Sprintf("k%d", s), -1000, 1000)
		val := func() int { return k }
		ptr := func() *int { return &k }
		set := func(ctx context.Context, fn *core.FuncInfo, args core.Object, results core.Object) error {
			results.GetFieldIndex(0).Set(k)
			return nil
		}
		setPtr := func(ctx context.Context, fn *core.FuncInfo, args core.Object, results core.Object) error {
			results.GetFieldIndex(0).Set(&k)
			return nil
		}
		var target int
		var cancel func()
		switch svPick(fmt.Sprintf("op%d", s), 9) {
		case 0:
			target, cancel = 0, mock.Patch(&simX, val)
		case 1:
			target, cancel = 1, mock.Patch(&simY, val)
		case 2:
			target, cancel = 2, mock.Patch(&simX, ptr)
		case 3:
			target, cancel = 0, mock.Mock(&simX, set)
		case 4:
			target, cancel = 0, mock.PatchByName(simPkg, "simX", val)
		case 5:
			target, cancel = 2, mock.PatchByName(simPkg, "*simX", ptr)
		case 6:
			target, cancel = 1, mock.MockByName(simPkg, "simY", set)
		case 7:
			target, cancel = 2, mock.MockByName(simPkg, "*simX", setPtr)
		default:
			i := svPick(fmt.Sprintf("c%d", s), 8)
			svAssume(i < len(mocks))
			for j, m := range mocks {
				if i == j {
					svAssume(m.active)
					m.active = false
					m.cancel()
				}
			}
		}
		if cancel != nil {
			mocks = append(mocks, &c02mock{target, k, cancel, true})
		}
		svAssert(simReadX() == want(0, x), "reading simX gives its latest active value mock, or the variable")
		svAssert(simReadY() == want(1, y), "reading simY gives its latest active value mock, or the variable")
		p := simAddrX()
		svAssert(*p == want(2, x), "taking the address of simX gives its latest active pointer mock, or the variable")
		has := false
		for _, m := range mocks {
			has = has || (m.active && m.target == 2)
		}
		if !has {
			svAssert(p == &simX, "without a pointer mock the real address is given")
		}
		svAssert(simX == x && simY == y, "the variables themselves are never changed")
	}
	svReach("end")
}

// A write to a mocked variable is kept, and visible once the mock is cancelled.
//
//gosx:bounds any int values
func SV_write_through() {
	simSetup()
	k, x2 := svInt("k", -1000, 1000), svInt("x2", -1000, 1000)
	cancel := mock.Patch(&simX, func() int { return k })
	svAssert(simReadX() == k, "mocked")
	simX = x2
	svAssert(simReadX() == k, "still mocked")
	cancel()
	svAssert(simReadX() == x2, "the written value")
	svReach("end")
}

// An error of a variable interceptor panics, ErrMocked does not.
//
//gosx:bounds nil, ErrMocked and other errors of mocks (of the value, also by name, of the address) and of interceptors before and after the read
func SV_var_error() {
	simSetup()
	k := svInt("k", -1000, 1000)
	which := svPick("err", 3)
	way := svChoose("way", 5)
	fail := func() error {
		switch which {
		case 1:
			return trap.ErrMocked
		case 2:
			return errSim
		}
		return nil
	}
	icpt := func(ctx context.Context, fn *core.FuncInfo, args core.Object, results core.Object) error {
		svAssert(results.NumField() == 1 && args.NumField() == 0, "a variable has one result")
		if way == 2 {
			results.GetFieldIndex(0).Set(&k)
		} else {
			results.GetField("simX").Set(k)
		}
		return fail()
	}
	want := k
	var cancel func()
	switch way {
	case 0:
		cancel = mock.Mock(&simX, icpt)
	case 1:
		cancel = mock.MockByName(simPkg, "simX", icpt)
	case 2:
		cancel = mock.MockByName(simPkg, "*simX", icpt)
	case 3:
		want = simX
		cancel = trap.AddFuncInterceptor(&simX, &trap.Interceptor{Pre: func(ctx context.Context, f *core.FuncInfo, args core.Object, result core.Object) (interface{}, error) {
			return nil, fail()
		}})
	default:
		want = simX
		svAssume(which != 1)
		cancel = trap.AddFuncInterceptor(&simX, &trap.Interceptor{Post: func(ctx context.Context, f *core.FuncInfo, args core.Object, result core.Object, data interface{}) error {
			return fail()
		}})
	}
	panicked := func() (e interface{}) {
		defer func() { e = recover() }()
		if way == 2 {
			svAssert(*simAddrX() == want, "mocked address")
		} else {
			svAssert(simReadX() == want, "mocked value")
		}
		return nil
	}()
	svAssert((panicked != nil) == (which == 2), "only an error other than ErrMocked panics")
	if which == 2 {
		svAssert(panicked == errSim, "with that error")
	}
	svAssert(xrt.SvDepth() == 0, "the goroutine is not left in trapping state")
	cancel()
	svAssert(simReadX() == 100 && *simAddrX() == 100, "the variable can be read after the panic")
	svReach("end")
}

// Variable recorders see the value read, in order, until they are cancelled.
//
//gosx:bounds two recorders, value or pointer, pre and post, any int values
func SV_var_recorders() {
	simSetup()
	simX = svInt("x", -1000, 1000)
	var log []string
	var seen []int
	rec := func(tag string) func(v int) {
		return func(v int) { log = append(log, tag); seen = append(seen, v) }
	}
	c1 := trace.Record(&simX, rec("a-pre"), rec("a-post"))
	c2 := trace.Record(&simX, rec("b-pre"), rec("b-post"))
	k := svInt("k", -1000, 1000)
	mocked := svBool("mocked")
	v := simX
	if mocked {
		mock.Patch(&simX, func() int { return k })
		v = k
	}
	svAssert(simReadX() == v, "value read")
	svAssert(fmt.Sprint(log) == "[a-pre b-pre a-post b-post]", "each recorder runs once before and once after")
	svAssert(seen[0] == simX && seen[1] == simX && seen[2] == v && seen[3] == v, "recorders see the value before and after mocking")
	log, seen = nil, nil
	if svBool("first") {
		c1()
		simReadX()
		svAssert(fmt.Sprint(log) == "[b-pre b-post]", "only the remaining recorder")
	} else {
		c2()
		simReadX()
		svAssert(fmt.Sprint(log) == "[a-pre a-post]", "only the remaining recorder")
	}
	log = nil
	simReadY()
	svAssert(len(log) == 0, "other variables are not recorded")
	svReach("end")
}
