package zzsv

//gosx:pkg runtime zzsv
//gosx:with ../common/rtsim.go.txt
//gosx:replace runtime/internal/runtime/runtime_link.go ../common/rtlink.go.txt

import (
	"context"
	"fmt"

	"github.com/xhd2015/xgo/runtime/core"
	"github.com/xhd2015/xgo/runtime/mock"
	"github.com/xhd2015/xgo/runtime/trace"
	"github.com/xhd2015/xgo/runtime/trap"
)

// notInstrumented and notVar are unknown to xgo.
//
//go:noinline
func notInstrumented(a int) int { return a }

var notVar int

type c19int int

type c19T simT

func c19try(f func() func()) (cancel func(), refused bool) {
	defer func() {
		if e := recover(); e != nil {
			cancel, refused = nil, true
		}
	}()
	return f(), false
}

// c19plain asserts that nothing is mocked.
func c19plain(t *simT) {
	a := svInt("a", -1000, 1000)
	svAssert(simF(a) == a+1000, "after a refusal the function is not mocked")
	svAssert(simH(a) == a+2000, "nor is another one")
	svAssert(t.M(a) == a+t.id, "nor is a method")
	svAssert(simReadX() == simX, "nor is a variable")
	svAssert(simAddrX() == &simX, "nor its address")
}

var c19calls int

// c19replacers are possible replacers and the things (by index into c19things) they fit.
var c19replacers = []struct {
	v   interface{}
	fit string
}{
	{func(a int) int { c19calls++; return 1 }, "func methodOf"},
	{func(t *simT, a int) int { c19calls++; return 1 }, "method"},
	{func() int { c19calls++; return 1 }, "var"},
	{func() *int { c19calls++; return nil }, "addr"},
	{func(a int) int64 { c19calls++; return 1 }, ""},
	{func(a int) c19int { c19calls++; return 1 }, ""},
	{func(a c19int) int { c19calls++; return 1 }, ""},
	{func(a interface{}) int { c19calls++; return 1 }, ""},
	{func(t *c19T, a int) int { c19calls++; return 1 }, ""},
	{func() c19int { c19calls++; return 1 }, ""},
	{func() *c19int { c19calls++; return nil }, ""},
	{func(a int64) int { c19calls++; return 1 }, ""},
	{func(a int, b int) int { c19calls++; return 1 }, ""},
	{func(a int) (int, error) { c19calls++; return 1, nil }, ""},
	{func(a int) { c19calls++ }, ""},
	{func(t simT, a int) int { c19calls++; return 1 }, ""},
	{func() int64 { c19calls++; return 1 }, ""},
	{func() **int { c19calls++; return nil }, ""},
	{func() (int, error) { c19calls++; return 1, nil }, ""},
	{(func(a int) int)(nil), ""},
	{(func() int)(nil), ""},
	{(func() *int)(nil), ""},
	{5, ""},
	{"f", ""},
	{nil, ""},
	{&simX, ""},
}

// A replacer is accepted exactly if it has the type of what it replaces; else
// it is refused and nothing is mocked.
//
//gosx:budget quick=30s thorough=60s
//gosx:bounds 13 ways to name a function, method, variable or address, or something that cannot be mocked; 26 replacers; any int argument
func SV_replacer_types() {
	simSetup()
	simX = svInt("x", -1000, 1000)
	t := &simT{id: svInt("id", -1000, 1000)}
	c19calls = 0
	r := c19replacers[svChoose("replacer", len(c19replacers))]
	way := svChoose("way", 13)
	var wants []string
	cancel, refused := c19try(func() func() {
		switch way {
		case 0:
			wants = []string{"func"}
			return mock.Patch(simF, r.v)
		case 1:
			wants = []string{"func"}
			return mock.PatchByName(simPkg, "simF", r.v)
		case 2:
			wants = []string{"method"}
			return mock.Patch((*simT).M, r.v)
		case 3:
			wants = []string{"methodOf"}
			return mock.Patch(t.M, r.v)
		case 4:
			wants = []string{"method"}
			return mock.PatchByName(simPkg, "(*simT).M", r.v)
		case 5:
			wants = []string{"methodOf"}
			return mock.PatchMethodByName(t, "M", r.v)
		case 6:
			wants = []string{"var", "addr"}
			return mock.Patch(&simX, r.v)
		case 7:
			wants = []string{"var", "addr"}
			return mock.PatchByName(simPkg, "simX", r.v)
		case 8:
			wants = []string{"addr"}
			return mock.PatchByName(simPkg, "*simX", r.v)
		case 9:
			return mock.Patch(notInstrumented, r.v)
		case 10:
			return mock.Patch(&notVar, r.v)
		case 11:
			return mock.PatchByName(simPkg, "notInstrumented", r.v)
		}
		return mock.PatchMethodByName(t, "Q", r.v)
	})
	fits := false
	for _, w := range wants {
		for _, f := range c19words(r.fit) {
			fits = fits || f == w
		}
	}
	svAssert(refused == !fits, "a replacer is accepted exactly if its type fits")
	if refused {
		c19plain(t)
		svAssert(c19calls == 0, "a refused replacer is never called")
		svReach("refused")
		return
	}
	simF(1)
	t.M(1)
	simReadX()
	simAddrX()
	svAssert(c19calls == 1, "an accepted one is")
	cancel()
	c19plain(t)
	_, again := c19try(func() func() { cancel(); return nil })
	svAssert(again, "cancelling again is refused")
	c19plain(t)
	svReach("accepted")
}

func c19words(s string) (r []string) {
	for s != "" {
		i := 0
		for i < len(s) && s[i] != ' ' {
			i++
		}
		r = append(r, s[:i])
		for i < len(s) && s[i] == ' ' {
			i++
		}
		s = s[i:]
	}
	return r
}

// c19recorders are possible recorders and what they fit.
var c19recorders = []struct {
	v   interface{}
	fit string
}{
	{func(a int, r int) { c19calls++ }, "func methodOf"},
	{func(a *int, r *int) { c19calls++ }, "func methodOf"},
	{func(a int, r *int) { c19calls++ }, "func methodOf"},
	{func(t *simT, a int, r int) { c19calls++ }, "method"},
	{func(t **simT, a *int, r *int) { c19calls++ }, "method"},
	{func(v int) { c19calls++ }, "var"},
	{func(v *int) { c19calls++ }, "var"},
	{func(v **int) { c19calls++ }, "addr"},
	{func(a int, r int64) { c19calls++ }, ""},
	{func(a int, r c19int) { c19calls++ }, ""},
	{func(a *c19int, r int) { c19calls++ }, ""},
	{func(a int, r interface{}) { c19calls++ }, ""},
	{func(t *c19T, a int, r int) { c19calls++ }, ""},
	{func(v *c19int) { c19calls++ }, ""},
	{func(v interface{}) { c19calls++ }, ""},
	{func(a int) { c19calls++ }, "var"},
	{func(a int, r int, err error) { c19calls++ }, ""},
	{func(a string, r int) { c19calls++ }, ""},
	{func(a int, r **int) { c19calls++ }, ""},
	{func(t simT, a int, r int) { c19calls++ }, ""},
	{func(v string) { c19calls++ }, ""},
	{func(v ***int) { c19calls++ }, ""},
	{func() { c19calls++ }, ""},
	{5, ""},
	{&simX, ""},
}

// A recorder is accepted exactly if it takes the parameters and results, or
// pointers to them; else it is refused and never called.
//
//gosx:budget quick=30s thorough=60s
//gosx:bounds 6 recorded things, 25 recorders as pre, post or, with one that fits or itself, both; any int argument
func SV_recorder_types() {
	simSetup()
	simX = svInt("x", -1000, 1000)
	t := &simT{id: svInt("id", -1000, 1000)}
	c19calls = 0
	r := c19recorders[svChoose("recorder", len(c19recorders))]
	var what interface{}
	var wants []string
	switch svChoose("what", 6) {
	case 0:
		what, wants = simF, []string{"func"}
	case 1:
		what, wants = t.M, []string{"methodOf"}
	case 2:
		what, wants = (*simT).M, []string{"method"}
	case 3:
		what, wants = &simX, []string{"var", "addr"}
	case 4:
		what = notInstrumented
	default:
		what = &notVar
	}
	n := 1
	cancel, refused := c19try(func() func() {
		switch svChoose("as", 3) {
		case 0:
			return trace.RecordCall(what, r.v)
		case 1:
			return trace.RecordResult(what, r.v)
		}
		n = 2
		return trace.Record(what, r.v, r.v)
	})
	fits := false
	for _, w := range wants {
		for _, f := range c19words(r.fit) {
			fits = fits || f == w
		}
	}
	svAssert(refused == !fits, "a recorder is accepted exactly if its type fits")
	c19plain(t)
	if refused {
		svAssert(c19calls == 0, "a refused recorder is never called")
		svReach("refused")
		return
	}
	svAssert(c19calls == n, "an accepted one is called")
	cancel()
	c19plain(t)
	svAssert(c19calls == n, "until it is cancelled")
	_, again := c19try(func() func() { cancel(); return nil })
	svAssert(again, "cancelling again is refused")
	svReach("accepted")
}

// Interceptors: nil ones, of things that are not instrumented or do not exist,
// and recorders of both kinds missing or of different types, are refused.
//
//gosx:bounds 30 kinds of misuse, with or without a proper mock of the same function and variable before; any int argument
func SV_refused() {
	simSetup()
	t := &simT{id: 7}
	before := svBool("before")
	k := svInt("k", -1000, 1000)
	if before {
		mock.Patch(simF, func(a int) int { return k })
		mock.Patch(&simX, func() int { return k })
	}
	ok := func(ctx context.Context, fn *core.FuncInfo, args core.Object, results core.Object) error { return nil }
	ic := &trap.Interceptor{Pre: func(ctx context.Context, f *core.FuncInfo, args core.Object, res core.Object) (interface{}, error) {
		return nil, nil
	}}
	rec := func(a int, r int) {}
	misuse := []func() func(){
		func() func() { return mock.Mock(simF, nil) },
		func() func() { return mock.Mock(t.M, nil) },
		func() func() { return mock.Mock(&simX, nil) },
		func() func() { return mock.MockByName(simPkg, "simF", nil) },
		func() func() { return mock.MockByName(simPkg, "simX", nil) },
		func() func() { return mock.MockByName(simPkg, "*simX", nil) },
		func() func() { return mock.MockMethodByName(t, "M", nil) },
		func() func() { return mock.Mock(notInstrumented, ok) },
		func() func() { return mock.Mock(&notVar, ok) },
		func() func() { return mock.Mock(simF(1), ok) },
		func() func() { return mock.Mock(nil, ok) },
		func() func() { return mock.MockByName(simPkg, "simQ", ok) },
		func() func() { return mock.MockByName("example.com/other", "simF", ok) },
		func() func() { return mock.MockByName(simPkg, "*simQ", ok) },
		func() func() { return mock.MockByName(simPkg, "simT.Q", ok) },
		func() func() { return mock.MockMethodByName(t, "Q", ok) },
		func() func() { return mock.MockMethodByName(5, "M", ok) },
		func() func() { return trap.AddInterceptor(&trap.Interceptor{}) },
		func() func() { return trap.AddFuncInterceptor(simF, &trap.Interceptor{}) },
		func() func() { return trap.AddFuncInterceptor(&simX, &trap.Interceptor{}) },
		func() func() { return trap.AddFuncInterceptor(notInstrumented, ic) },
		func() func() { return trap.AddFuncInterceptor(&notVar, ic) },
		func() func() { return trap.AddFuncInterceptor(5, ic) },
		func() func() { return trace.Record(simF, nil, nil) },
		func() func() { return trace.Record(&simX, nil, nil) },
		func() func() { return trace.Record(&simX, func(int) {}, func(*int) {}) },
		func() func() { return trace.Record(simF, rec, 5) },
		func() func() { return trace.Record(simF, 5, rec) },
		func() func() { return trace.RecordCall(notInstrumented, rec) },
		func() func() { return trace.RecordCall(5, rec) },
	}
	i := svChoose("misuse", len(misuse))
	_, refused := c19try(misuse[i])
	svAssert(refused, fmt.Sprintf("misuse %d is refused", i))
	a := svInt("a", -1000, 1000)
	svAssert(simH(a) == a+2000 && t.M(a) == a+7, "other functions are untouched")
	svAssert(simAddrX() == &simX, "the address is untouched")
	if before {
		svAssert(simF(a) == k && simReadX() == k, "the mocks before stay")
	} else {
		svAssert(simF(a) == a+1000 && simReadX() == simX, "nothing is mocked")
	}
	svReach("end")
}
