//gosx:pkg . instrument/instrument_var
//gosx:with lib.go.txt
package instrument_var

import (
	"go/ast"
	"strings"
)

// A statement around a use of N, which is one of the names v, w (package
// variables), l (a local variable) or c (a parameter).
var svStmts = []string{
	"_ = N",
	"N := N; _ = N",
	"if N := 1; N > 0 { _ = N } else { _ = N }",
	"for N := range []int{1} { _ = N }",
	"for _, N := range []int{1} { _ = N }",
	"for N := 0; N < 1; N++ { _ = N }",
	"select { case N := <-ch: _ = N; default: _ = N }",
	"select { case N = <-ch: case ch <- N: }",
	"select { case N, ok := <-ch: _ = N; _ = ok }",
	"switch N := interface{}(N).(type) { case int: _ = N + 1 }",
	"switch N := 2; N { case 1: _ = N }",
	"func(N int) { _ = N }(N)",
	"_ = func() (N int) { N = 1; return N }",
	"var N = 2; _ = N",
	"var N, M = 2, N; _ = N; _ = M",
	"const N = 2; _ = N",
	"{ N := 1; _ = N }; _ = N",
	"N = M; N++; N += M",
	"p := &N; *p = 2",
	"p := &(N); _ = p",
	"_ = S{v: N, w: M}",
	"_ = map[int]int{N: M}",
	"_ = []int{N, 1: M}",
	"N: for { break N }",
	"type N int; _ = N(1)",
	"defer func() { _ = N }(); go f(N, ch)",
	"_ = s.v + s.w + N",
	"N := N + 1; _ = N",
	"N, M := M, N; _, _ = N, M",
	"N, x := 1, M; _, _ = N, x",
	"if true { N := 1; _ = N } ; _ = N",
	"switch { case N > M: N := 1; _ = N; case N < M: _ = N }",
	"for { N := 1; _ = N; break }; _ = N",
	"func() { N := 1; _ = N }(); _ = N",
	"var x struct { v, w int }; x.v = N; _ = x.v",
	"_ = func() int { return N }() + func(w int) int { return N }(1)",
	"_ = [1]int{}[N]; _ = arr[:N]",
	"_ = -N + ^N; ch <- N; _ = !(N > 1)",
	"_ = interface{ v() int }(nil)",
	"var f func(v int) (w int); _ = f; _ = N",
	"goto N; N: _ = M",
}

const svPrelude = `package p

type S struct{ v, w int }

var s S
var arr []int

func sink(x int) {}

`

// Names are resolved by the scopes of Go: only names that mean a package
// variable are replaced, whatever is declared around them.
//
//gosx:bounds 1 statement of 41 kinds in front of a use, all assignments of 4 names (2 package variables) to its 2 identifiers and to the use
//gosx:budget quick=60s thorough=200s
func SV_scope() {
	svScope(1)
}

// Two statements, thorough.
//
//gosx:bounds 2 statements of 41 kinds in front of a use
//gosx:thorough
//gosx:budget quick=10s thorough=300s
func SV_scope2() {
	svScope(2)
}

func svScope(n int) {
	body := ""
	for i := 0; i < n; i++ {
		st := svStmts[svChoose("stmt", len(svStmts))]
		st = strings.Replace(st, "N", svStrIn("N", 1, "vwlc"), -1)
		if strings.Contains(st, "M") {
			st = strings.Replace(st, "M", svStrIn("M", 1, "vwlc"), -1)
		}
		body += "\t" + st + "\n"
	}
	u := svStrIn("use", 1, "vwlc")
	body += "\tsink(" + u + ")\n"
	src := svPrelude + "var v, w = 1, 2\n\nfunc f(c int, ch chan int) {\n\tl := 3\n\t_ = l\n" + body + "}\n"
	orig := svCheckSrc("p", src, nil)
	svAssume(orig.err == nil)
	outs, _ := svTrapVars(svPackages("p", map[string]string{"p": src}, []string{"p"}))
	res := svCompare(orig, outs["p"], nil)
	// completeness: plain reads of the variables are replaced
	svReads(svFunc(orig.f, "f").Body, func(id *ast.Ident) {
		off := orig.fset.Position(id.Pos()).Offset
		_, got := res[off]
		svAssert(got == svGlobal(orig.uses[off]), "a read of a package variable is not replaced")
	})
}
