//gosx:pkg . instrument/instrument_var
//gosx:with lib.go.txt
package instrument_var

import (
	"go/types"
	"strings"
)

// Statements using the package imported as Q.
var svPkgUses = []string{
	"_ = Q.V",
	"_ = &Q.V",
	"_ = &(Q.V)",
	"_ = (&Q.V)",
	"Q.V = 1",
	"Q.V++; Q.V += Q.V",
	"Q.T.pm()",
	"Q.T.m()",
	"(&Q.T).pm()",
	"_ = Q.T.pm",
	"_ = Q.T.f",
	"_ = &Q.T.f",
	"_ = Q.T.in.F",
	"_ = Q.P.F",
	"_ = &Q.P.F",
	"_ = Q.T.F",
	"_ = &Q.T.F",
	"Q.T.Pm()",
	"Q.T.M()",
	"Q.T.In.Pm()",
	"_ = Q.T.In.F",
	"_ = &Q.T.In.F",
	"Q.P.Pm()",
	"_ = *Q.P",
	"Q.A[0].Pm()",
	"_ = Q.A[:]",
	"_ = &Q.A[0]",
	"_ = Q.L[0]",
	"_ = &Q.L[0]",
	"_ = Q.L[1:]",
	"_ = Q.M[\"a\"]",
	"_ = Q.Fn(1)",
	"_ = Q.F(Q.V)",
	"_ = Q.F",
	"_ = Q.C",
	"const c = Q.C; _ = c",
	"_ = Q.S{F: Q.V}",
	"var x Q.S; x.Pm()",
	"x := Q.T; x.Pm(); _ = x.F",
	"x := &Q.T; x.Pm(); _ = &x.F",
	"Q := 1; _ = Q",
	"Q := struct{ V int }{}; _ = Q.V; _ = &Q.V",
	"{ Q := struct{ V int }{}; _ = Q.V }; _ = Q.V",
	"if Q := Q.V; Q > 1 { }; _ = Q.V",
	"func(Q struct{ V int }) { _ = Q.V }(struct{ V int }{})",
	"type Q struct{ V int }; _ = Q{V: 1}.V",
	"for Q.V = range []int{1} { }",
	"for i, x := range Q.L { _, _ = i, x }",
	"_ = map[int]int{Q.V: Q.V}",
	"_ = len(Q.A) + len(Q.L)",
	"const n = len(Q.A); _ = [n]int{}",
	"_ = Q.I.(int)",
	"switch x := Q.I.(type) { case int: _ = x }",
	"Q.N.Set(Q.V)",
	"_ = Q.N + 1",
	"_ = Q.F2().F",
	"Q.F3().Pm()",
	"_ = Q.G.F",
	"Q.G.Pm()",
	"_ = w",
	"_ = &w",
	"_ = W1",
	"_ = &W1",
	"_ = W2",
	"_ = W3; _ = W4",
	"_ = W4[0].F",
	"_ = W5",
	"W6.Pm()",
	"_ = W7",
	"_ = W8",
	"W9.Pm()",
	"_ = W10",
	"_ = W11",
	"defer Q.T.Pm(); go Q.T.M()",
	"_ = struct{ Q int }{Q: Q.V}",
	"_ = func() int { return Q.V }",
	"select { case Q.Ch <- Q.V: case x := <-Q.Ch: _ = x }",
	"switch Q.V { case Q.V: case Q.C: }",
	"goto Q; Q: _ = Q.V",
	"_ = [...]int{Q.C: Q.V}",
	"var x, y = Q.V, &Q.V; _, _ = x, y",
	"_ = Q.V << Q.N",
	"_ = Q.S.M; _ = (*Q.S).Pm",
	"_ = Q.N.Get()",
	"var f func(Q int) (V int); _ = f",
	"_ = Q.Un; _ = &Q.Un",
	"mock.Patch(&Q.V, func() int { return 1 })",
	"mock.Patch(Q.F, nil); mock.Patch(Q.T.Pm, nil); mock.Patch((*Q.S).Pm, nil)",
	"mock.Mock(&Q.T, nil); _ = Q.T.F",
	"mock.Patch(&Q.P, nil); _ = &Q.P.F; Q.P.Pm()",
	"mock.Patch(&Q.L, nil); _ = Q.L[0]",
	"if true { mock.Patch(&Q.A, nil) }; _ = Q.A[:]; _ = len(Q.A)",
}

const svLib = `

type In struct{ F int }

func (n In) M()   {}
func (n *In) Pm() {}

type S struct {
	In
	F int
}

func (s S) M2() {}

type Nt int

func (n Nt) Get() int   { return 0 }
func (n *Nt) Set(x int) {}

type Gt[T any] struct{ F T }

func (g *Gt[T]) Pm() {}

type un struct{ X int }

const C = 2

var V int = 1
var T S
var P = &S{}
var A [2]S
var L = []int{1, 2}
var M map[string]int
var Fn = func(x int) int { return x }
var N Nt = 1
var I interface{} = 1
var Ch chan int
var G = Gt[int]{}
var Un = un{}

func F(x int) int { return x }
func F2() S       { return S{} }
func F3() *S      { return nil }
func FU() un      { return un{} }
func FN() Nt      { return 1 }
`

const svMockSrc = `package mock

func Patch(fn interface{}, replacer interface{}) func() { return nil }
func Mock(fn interface{}, replacer interface{}) func()  { return nil }
`

// Uses of variables of other packages: in the main module all of them are
// replaced, outside of it those some code mocks; the packages still compile
// and mean the same.
//
//gosx:bounds 95 uses of a package (in the main module or not) by an import name of 5 forms; whether another function mocks the variable
//gosx:budget quick=90s thorough=240s
func SV_imports() {
	const per = 12
	g := svChoose("group", (len(svPkgUses)+per-1)/per)
	isMain := svChoose("main", 2) == 1
	// import name: none, q, v, w2; the package has another name than its path
	form := svChoose("form", 4)
	alias := []string{"", "lib", "q", "v"}[form]
	if alias == "q" {
		alias = svStrIn("alias", 1, "qxV")
	}
	path := "ext/lib"
	if isMain {
		path = "main/lib"
	}
	if svChoose("version", 2) == 1 {
		path += "/v2"
	}
	name := alias
	if name == "" {
		name = "lib"
	}
	mocked := svChoose("mocked", 2) == 1
	head := "package p\n\nimport (\n\t" + alias + " \"" + path + "\"\n\t\"" + svMock + "\"\n)\n\n" +
		"var _ = mock.Patch\nvar w = NAME.V\nvar W1 = NAME.T\nvar W2, W3 = NAME.P, NAME.F2()\nvar W4 = []NAME.S{}\nvar W5 = map[string]*NAME.Nt{}\nvar W6 = NAME.F3()\nvar W7 = NAME.FU()\nvar W8 = NAME.FN() + 1\nvar W9 = NAME.Gt[int]{}\nvar W10 = new(NAME.S)\nvar W11 = NAME.Un\n\n"
	if mocked {
		head += "func setup() { mock.Patch(&NAME.V, func() int { return 2 }) }\n"
	}
	head += "func user() { sink(NAME.V) }\nfunc sink(x int) {}\n"
	head = strings.Replace(head, "NAME", name, -1)
	first := 1 + strings.Count(head, "\n")
	libSrc := "package lib" + svLib
	libOrig := svCheckSrc(path, libSrc, nil)
	svAssert(libOrig.err == nil, "library")
	mockPkg := svCheckSrc(svMock, svMockSrc, nil)
	imp := svImporter{path: libOrig.pkg, svMock: mockPkg.pkg, "unsafe": types.Unsafe}
	bad := map[int]bool{}
	var orig *svPkg
	for round := 0; round < 2; round++ {
		src := head
		for i := 0; i < per && g*per+i < len(svPkgUses); i++ {
			if !bad[first+i] {
				src += "func f" + string(rune('a'+i)) + "() { " + strings.Replace(svPkgUses[g*per+i], "Q", name, -1) + " }"
			}
			src += "\n"
		}
		orig = svCheckSrc("main", src, imp)
		bad = orig.bad
	}
	svAssert(orig.err == nil, "the generated package is legal")
	srcs := map[string]string{"main": orig.src, path: libSrc, svMock: svMockSrc}
	outs, _ := svTrapVars(svPackages("main", srcs, []string{"main", path, svMock}))
	libInst := svCheckSrc(path, outs[path], svImporter{"unsafe": types.Unsafe})
	svAssert(libInst.err == nil, "the instrumented library does not compile")
	svCompare(libOrig, outs[path], svImporter{"unsafe": types.Unsafe})
	svAssert(outs[svMock] == svMockSrc, "a package is changed that must not be")
	res := svCompare(orig, outs["main"], svImporter{path: libInst.pkg, svMock: mockPkg.pkg, "unsafe": types.Unsafe})
	off := strings.LastIndex(orig.src, "sink("+name+".V)") + len("sink("+name+".")
	_, got := res[off]
	if isMain || mocked {
		svAssert(got, "a use of a variable of another package is not replaced")
	} else if !strings.Contains(orig.src, "mock.Patch(&"+name+".V") {
		svAssert(!got, "a variable outside of the main module is replaced that nobody mocks")
	}
	svReach("done")
}
