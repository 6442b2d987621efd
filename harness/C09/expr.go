//gosx:pkg . instrument/instrument_var
//gosx:with lib.go.txt
package instrument_var

import (
	"strings"
)

// Declarations of the package variable V.
var svVarDecls = []string{
	"var V int",
	"var V = 3",
	"var V string",
	"var V []int",
	"var V [3]int",
	"var V map[string]int",
	"var V S",
	"var V = S{}",
	"var V *S",
	"var V = &S{}",
	"var V [2]S",
	"var V []S",
	"var V map[string]*S",
	"var V func(int) int",
	"var V interface{}",
	"var V I",
	"var V chan int",
	"var V *[3]int",
	"var V N",
	"var V *N",
	"var V E",
	"var V *E",
	"var V struct { S; N N }",
	"var V struct { f int; s *S }",
	"var V G[int]",
	"var V **S",
	"var V error",
	"var V F",
	"var V A2",
	"var V = [2]In{}",
	"var V = new(S)",
	"var V = make([]S, 1)",
	"var V = mkS()",
	"var V = mkP()",
	"var V = func(x int) int { return x }",
	"var V = N(2)",
	"var V, W = S{}, 1",
	"var (\n\tV S\n\tW = V\n)",
	"var V Rec",
	"var V *Rec",
	"var V [2]Rec",
	"var V Al",
}

// Uses of V; those that are not legal for its type are left out.
var svUses = []string{
	"x := V; _ = x",
	"_ = &V",
	"_ = &(V)",
	"_ = (V)",
	"_ = *V",
	"_ = &*V",
	"_ = V[0]",
	"_ = V[\"a\"]",
	"_ = &V[0]",
	"_ = V[:]",
	"_ = V[1:2]",
	"_ = V[0:1:2]",
	"_ = V.f",
	"_ = &V.f",
	"_ = &V.a[0]",
	"_ = V.a[:]",
	"_ = V.a[0]",
	"_ = &V.in.f",
	"_ = V.in.f",
	"_ = &V.p.f",
	"_ = V.p.f",
	"V.m()",
	"V.pm()",
	"V.in.m()",
	"V.in.pm()",
	"V.p.pm()",
	"V.N.pm()",
	"_ = V.m",
	"_ = V.pm",
	"(V).pm()",
	"(&V).pm()",
	"V.a[0]++",
	"V[0].pm()",
	"V[0].m()",
	"_ = V[0].f",
	"_ = &V[0].f",
	"V[0].f = 1",
	"V.f = 1",
	"V.f++",
	"V.em()",
	"V.epm()",
	"_ = V.ef",
	"_ = &V.ef",
	"_ = V.E.ef",
	"V.E.epm()",
	"_ = &V.E",
	"V(1)",
	"_ = V(V(1))",
	"_ = V.(int)",
	"switch x := V.(type) { case int: _ = x }",
	"switch V.(type) { case int: }",
	"V <- 1",
	"<-V",
	"close(V)",
	"for range V { }",
	"for i := range V { _ = i }",
	"for i, x := range V { _, _ = i, x }",
	"for i, x := range &V { _, _ = i, x }",
	"for i := range V { V[i] = 0 }",
	"_ = len(V)",
	"const n = len(V); _ = [n]int{}",
	"_ = [len(V)]int{}",
	"_ = [...]int{len(V): 1}",
	"const n = len(V.a) + cap(V.ar); _ = [n]int{}",
	"_ = [...]int{len(V.r().a): 1}",
	"_ = len(V.r().a)",
	"_ = len(V.a)",
	"_ = len(V[0].a)",
	"V.r().in.pm()",
	"V.p.m()",
	"_ = V.r().a[:]",
	"_ = append(V, V...)",
	"V = append(V, 1)",
	"copy(V[1:], V[:])",
	"delete(V, \"a\")",
	"_ = V + V",
	"_ = V == V",
	"_ = -V",
	"V += V",
	"V++",
	"V, V = V, V",
	"_, V = 1, V",
	"_ = []interface{}{V, &V}",
	"_ = map[interface{}]interface{}{1: V}",
	"_ = S{f: V}",
	"_ = S{V, V, V, V}",
	"_ = [...]int{V}",
	"_ = [...]interface{}{2: V}",
	"_ = func() interface{} { return V }",
	"defer func() { _ = V }()",
	"V.r().pm()",
	"_ = V.r().f",
	"_ = g(V)",
	"_ = g[int](V)",
	"_ = interface{}(V)",
	"_ = [](int)(V)",
	"_ = N(V)",
	"_ = V.n.n.n.f",
	"_ = &V.n.n.n.f",
	"V.n.n.pm()",
	"(*V).pm()",
	"_ = (*V).f",
	"_ = &(*V).f",
	"_ = (*V)[:]",
	"_ = (*V).pm",
	"switch V { case V: }",
	"if x := V; x == V { }",
	"func(x interface{}) {}(V)",
	"go V(1)",
	"y := &V; _ = *y",
	"y := V; _ = &y.f",
	"y := V; y.pm()",
	"y := V; _ = y.a[:]",
	"y := V.in; y.pm()",
	"V.s.pm()",
	"_ = &V.s.f",
	"_ = V.s.f",
	"_ = struct{ x interface{} }{V}",
	"type T struct{ x [len(V)]int }",
	"_ = V.G.f",
	"V.gm()",
	"V.gpm()",
	"_ = V.gf",
	"_ = &V.gf",
	"return; _ = V",
	"_ = g2[int, int](V, 1)",
	"_ = cap(V) + len(V[0:])",
	"var y = V; _ = y",
	"var y interface{} = V; _ = y",
	"_ = unsafeSizeof(V)",
	"V.im()",
	"_ = V.Error()",
	"_ = (V).f",
	"_ = &(V).f",
	"_ = &(V.f)",
	"_ = (V.a)[:]",
	"_ = &((V).in).f",
	"V.fn(1)",
	"_ = V.mp[1]",
	"V.mp[1] = 2",
	"V.sl[0].pm()",
	"_ = &V.sl[0]",
	"V.ar[0].pm()",
	"_ = V.ar[0].f",
	"V.r2().a[0] = 1",
	"_ = V.r2().a[:]",
	"func(x *S) {}(&V)",
	"f := V.f; _ = f",
	"f := V; _ = f",
	"if V := V; true { _ = V }",
}

const svExprPrelude = `package p

type N int

func (n N) m()   {}
func (n *N) pm() {}

type In struct{ f int }

func (n In) m()   {}
func (n *In) pm() {}

type E struct{ ef int }

func (e E) em()   {}
func (e *E) epm() {}

type S struct {
	f  int
	a  [3]int
	in In
	p  *In
	E
	n  *S
	fn func(int) int
	mp map[int]int
	sl []In
	ar [2]In
}

func (s S) m()    {}
func (s *S) pm()  {}
func (s S) r() *S { return nil }
func (s *S) r2() *S { return nil }

type I interface{ im() }

type A2 [2]S

func (a A2) m()   {}
func (a *A2) pm() {}

type Rec struct {
	*Rec
	n *Rec
	S
}

type Al = S

func mkS() S  { return S{} }
func mkP() *S { return nil }

type F func(int) int

func (f F) m()   {}
func (f *F) pm() {}

type G[T any] struct{ gf T }

func (g G[T]) gm()   {}
func (g *G[T]) gpm() {}

func g[T any](x T) T { return x }
func g2[T, U any](x T, y U) T { return x }
func unsafeSizeof(x interface{}) int { return 0 }

`

// svLegal gives the package with those of the uses that are legal, one on
// each line.
func svLegal(decl string, uses []string) *svPkg {
	head := svExprPrelude + decl + "\n\n"
	first := 1 + strings.Count(head, "\n")
	bad := map[int]bool{}
	var orig *svPkg
	for round := 0; round < 2; round++ {
		src := head
		for i, u := range uses {
			if !bad[first+i] {
				src += "func f" + string(rune('a'+i)) + "() { " + u + " }"
			}
			src += "\n"
		}
		orig = svCheckSrc("p", src, nil)
		bad = orig.bad
	}
	return orig
}

// A use of a package variable of some type keeps its meaning.
//
//gosx:bounds 150 uses of a variable of 42 declarations; all names of it among 2
//gosx:budget quick=90s thorough=300s
func SV_expr() {
	const per = 16
	decl := svVarDecls[svChoose("decl", len(svVarDecls))]
	g := svChoose("group", (len(svUses)+per-1)/per)
	to := g*per + per
	if to > len(svUses) {
		to = len(svUses)
	}
	name := svStrIn("name", 1, "Vx")
	uses := make([]string, to-g*per)
	for i := range uses {
		uses[i] = strings.Replace(svUses[g*per+i], "V", name, -1)
	}
	orig := svLegal(strings.Replace(decl, "V", name, -1), uses)
	svAssert(orig.err == nil, "the generated package is legal")
	outs, _ := svTrapVars(svPackages("p", map[string]string{"p": orig.src}, []string{"p"}))
	svCompare(orig, outs["p"], nil)
}
