package zzsv

//gosx:pkg runtime zzsv
//gosx:with ../common/rtsim.go.txt
//gosx:replace runtime/internal/runtime/runtime_link.go ../common/rtlink.go.txt

import (
	"context"
	"fmt"

	"github.com/xhd2015/xgo/runtime/core"
	"github.com/xhd2015/xgo/runtime/mock"
)

// A mock the reference model knows about.
type c01mock struct {
	target int // which thing is mocked
	k      int // its replacement returns 7*a + k
	cancel func()
	active bool
}

type c01model struct {
	mocks []*c01mock
}

// want is the reference: the latest active mock whose target covers obj.
func (c *c01model) want(a int, orig int, covers func(target int) bool) int {
	for i := len(c.mocks) - 1; i >= 0; i-- {
		m := c.mocks[i]
		if m.active && covers(m.target) {
			return 7*a + m.k
		}
	}
	return orig
}

func (c *c01model) add(target int, k int, cancel func()) {
	c.mocks = append(c.mocks, &c01mock{target, k, cancel, true})
}

// cancelSome cancels a symbolically chosen active mock.
func (c *c01model) cancelSome(name string) {
	i := svPick(name, 8)
	for j, m := range c.mocks {
		if i == j {
			svAssume(m.active)
			m.active = false
			m.cancel()
			return
		}
	}
	svAssume(false)
}

func c01interceptor(k int) mock.Interceptor {
	return func(ctx context.Context, fn *core.FuncInfo, args core.Object, results core.Object) error {
		a := args.GetField("a").Value().(int)
		results.GetFieldIndex(0).Set(7*a + k)
		return nil
	}
}

// Any history of mocking and cancelling two functions, through all entry points.
//
//gosx:budget quick=60s thorough=600s
//gosx:bounds histories of 5 (thorough 6) mock/cancel steps over 2 functions, 3 ways to mock, any int arguments and results
func SV_func_history() {
	simSetup()
	c := &c01model{}
	steps := 5
	if svTier() == 1 {
		steps = 6
	}
	for s := 0; s < steps; s++ {
		k := svInt(fmt.Sprintf("k%d", s), -1000, 1000)
		switch svPick(fmt.Sprintf("op%d", s), 6) {
		case 0:
			c.add(0, k, mock.Patch(simF, func(a int) int { return 7*a + k }))
		case 1:
			c.add(1, k, mock.Patch(simH, func(a int) int { return 7*a + k }))
		case 2:
			c.add(0, k, mock.Mock(simF, c01interceptor(k)))
		case 3:
			c.add(1, k, mock.PatchByName(simPkg, "simH", func(a int) int { return 7*a + k }))
		case 4:
			c.add(0, k, mock.MockByName(simPkg, "simF", c01interceptor(k)))
		default:
			c.cancelSome(fmt.Sprintf("cancel%d", s))
		}
		a := svInt(fmt.Sprintf("a%d", s), -1000, 1000)
		n := simCalls["F"]
		wantF := c.want(a, a+1000, func(t int) bool { return t == 0 })
		gotF := simF(a)
		svAssert(gotF == wantF, "simF returns what its latest active mock, or the original, computes")
		ran := simCalls["F"] - n
		mocked := false
		for _, m := range c.mocks {
			mocked = mocked || (m.active && m.target == 0)
		}
		svAssert((ran == 0) == mocked, "the original body runs exactly when no mock is active")
		wantH := c.want(a, a+2000, func(t int) bool { return t == 1 })
		svAssert(simH(a) == wantH, "simH returns what its latest active mock, or the original, computes")
	}
	svObsI("f", simF(3))
	svReach("end")
}

// Any history over methods: bound instances, the type, and by name.
//
//gosx:budget quick=60s thorough=600s
//gosx:bounds histories of 4 (thorough 5) steps over 2 pointer instances, the method expression and an unrelated method; any int arguments
func SV_method_history() {
	simSetup()
	t1, t2 := &simT{11}, &simT{22}
	c := &c01model{}
	steps := 4
	if svTier() == 1 {
		steps = 5
	}
	for s := 0; s < steps; s++ {
		k := svInt(fmt.Sprintf("k%d", s), -1000, 1000)
		repl := func(a int) int { return 7*a + k }
		switch svPick(fmt.Sprintf("op%d", s), 9) {
		case 0:
			c.add(1, k, mock.Patch(t1.M, repl))
		case 1:
			c.add(2, k, mock.Patch(t2.M, repl))
		case 2:
			c.add(0, k, mock.Patch((*simT).M, func(t *simT, a int) int { return 7*a + k }))
		case 3:
			c.add(1, k, mock.Mock(t1.M, c01interceptor(k)))
		case 4:
			c.add(2, k, mock.MockMethodByName(t2, "M", c01interceptor(k)))
		case 5:
			c.add(2, k, mock.PatchMethodByName(t2, "M", repl))
		case 6:
			c.add(0, k, mock.MockByName(simPkg, "(*simT).M", c01interceptor(k)))
		case 7:
			c.add(5, k, mock.Patch(t1.N, repl))
		default:
			c.cancelSome(fmt.Sprintf("cancel%d", s))
		}
		a := svInt(fmt.Sprintf("a%d", s), -1000, 1000)
		svAssert(t1.M(a) == c.want(a, a+11, func(t int) bool { return t == 0 || t == 1 }), "t1.M: latest active mock of t1 or of the type")
		svAssert(t2.M(a) == c.want(a, a+22, func(t int) bool { return t == 0 || t == 2 }), "t2.M: latest active mock of t2 or of the type")
		svAssert(t1.N(a) == c.want(a, a+22, func(t int) bool { return t == 5 }), "t1.N: only its own mocks")
		svAssert(t2.N(a) == a+44, "t2.N is never mocked")
	}
	svReach("end")
}

// Value receivers: an instance is identified by its value.
//
//gosx:budget quick=60s thorough=200s
//gosx:bounds 2 symbolic value receivers, 3 mocks, every cancel order, any int arguments
func SV_value_receivers() {
	simSetup()
	i1, i2 := svInt("id1", 0, 50), svInt("id2", 0, 50)
	v1, v2 := simV{i1}, simV{i2}
	k1, k2 := svInt("k1", -100, 100), svInt("k2", -100, 100)
	c := &c01model{}
	c.add(1, k1, mock.Patch(v1.M, func(a int) int { return 7*a + k1 }))
	if svBool("second") {
		c.add(2, k2, mock.Mock(v2.M, c01interceptor(k2)))
	}
	same := i1 == i2
	check := func() {
		a := svInt("a", -100, 100)
		svAssert(v1.M(a) == c.want(a, a+i1, func(t int) bool { return t == 1 || same && t == 2 }), "v1.M")
		svAssert(v2.M(a) == c.want(a, a+i2, func(t int) bool { return t == 2 || same && t == 1 }), "v2.M")
	}
	check()
	c.cancelSome("c1")
	check()
	svReach("end")
}

// A receiver that cannot be compared with == must not blow up the program.
//
//gosx:bounds receivers holding a slice of one symbolic element
func SV_uncomparable_receiver() {
	simSetup()
	i1, i2 := svInt("id1", 0, 50), svInt("id2", 0, 50)
	svAssume(i1 != i2)
	v1, v2 := simU{[]int{i1}}, simU{[]int{i2}}
	k := svInt("k", -100, 100)
	cancel := mock.Patch(v1.M, func(a int) int { return 7*a + k })
	a := svInt("a", -100, 100)
	svAssert(v1.M(a) == 7*a+k, "the bound instance is mocked")
	svAssert(v2.M(a) == a+i2, "another instance is not")
	cancel()
	svAssert(v1.M(a) == a+i1, "cancelled")
	svReach("end")
}

// Arguments, results, errors and panics pass through unchanged.
//
//gosx:bounds any int arguments, strings of up to 2 bytes, 0-2 variadic arguments
func SV_values() {
	simSetup()
	a, b := svInt("a", -1000, 1000), svStr("b", svPick("blen", 3))
	var c []int
	n := svPick("nc", 3)
	for i := 0; i < n; i++ {
		c = append(c, svInt(fmt.Sprintf("c%d", i), -10, 10))
	}
	rx, ry := svInt("rx", -1000, 1000), svStr("ry", 1)
	fail := svBool("fail")
	seen := 0
	var rerr error
	if fail {
		rerr = errSim
	}
	var cancel func()
	way := svPick("way", 3)
	check := func(ga int, gb string, gc []int) {
		seen++
		svAssert(ga == a && gb == b && len(gc) == len(c), "the mock sees the caller's arguments")
		for i := range gc {
			svAssert(gc[i] == c[i], "variadic argument")
		}
	}
	icpt := func(ctx context.Context, fn *core.FuncInfo, args core.Object, results core.Object) error {
		svAssert(args.NumField() == 3 && results.NumField() == 3, "fields")
		check(args.GetField("a").Value().(int), args.GetFieldIndex(1).Value().(string), args.GetField("c").Value().([]int))
		results.GetField("x").Set(rx)
		results.GetField("y").Set(ry)
		return rerr
	}
	switch way {
	case 0:
		cancel = mock.Patch(simG, func(ga int, gb string, gc ...int) (int, string, error) {
			check(ga, gb, gc)
			return rx, ry, rerr
		})
	case 1:
		cancel = mock.Mock(simG, icpt)
	default:
		cancel = mock.MockByName(simPkg, "simG", icpt)
	}
	x, y, err := simG(a, b, c...)
	svAssert(seen == 1, "the mock runs exactly once")
	svAssert(x == rx && y == ry && err == rerr, "the caller gets the mock's results")
	svAssert(simCalls["G"] == 0, "the original does not run")
	cancel()
	x, y, err = simG(a, b, c...)
	w := a
	for _, v := range c {
		w += v
	}
	svAssert(seen == 1 && x == w && y == b && (err != nil) == (a < 0), "after cancelling the original runs with the caller's arguments")
	svReach("end")
}

// A context argument reaches the interceptor; an error becomes the function's
// error result, and panics when the function has none.
//
//gosx:bounds any int arguments; error or not; function with and without error result
func SV_ctx_and_error() {
	simSetup()
	type key struct{}
	a := svInt("a", -1000, 1000)
	r := svInt("r", -1000, 1000)
	fail, preset := svBool("fail"), svBool("preset")
	other := fmt.Errorf("set in the error result")
	ctx := context.WithValue(context.Background(), key{}, a)
	cancel := mock.Mock(simC, func(c context.Context, fn *core.FuncInfo, args core.Object, results core.Object) error {
		svAssert(c.Value(key{}).(int) == a, "the interceptor gets the caller's context")
		svAssert(args.GetField("a").Value().(int) == a, "argument")
		svAssert(fn.Name == "simC", "info")
		results.GetField("r").Set(r)
		if preset {
			results.GetField("err").Set(other)
		}
		if fail {
			return errSim
		}
		return nil
	})
	got, err := simC(ctx, a)
	svAssert(got == r, "result")
	if fail {
		svAssert(err == errSim, "the interceptor's error is the function's error")
	} else if preset {
		svAssert(err == other, "the error the interceptor set is the function's error")
	} else {
		svAssert(err == nil, "no error")
	}
	cancel()
	got, err = simC(ctx, a)
	svAssert(got == a+3000 && err == nil, "original again")

	cancel = mock.Mock(simF, func(c context.Context, fn *core.FuncInfo, args core.Object, results core.Object) error {
		results.GetField("r").Set(r)
		if fail {
			return errSim
		}
		return nil
	})
	panicked := func() (e interface{}) {
		defer func() { e = recover() }()
		svAssert(simF(a) == r, "mock result")
		return nil
	}()
	svAssert((panicked != nil) == fail, "an error without an error result panics")
	cancel()
	svAssert(simF(a) == a+1000, "usable after the panic")
	svReach("end")
}
