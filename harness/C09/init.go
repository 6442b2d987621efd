//gosx:pkg . instrument/instrument_var
//gosx:with lib.go.txt
package instrument_var

// Initialisers from which the type of the variable has to be found.
var svInits = []string{
	"1", "'a'", "1.5", "2i", "\"a\"", "`a`", "true", "nilS",
	"1 + 2", "1.5 + 2", "2 + 1.5", "'a' + 1", "1 + 'a'", "2i + 1", "1 / 2.0", "2.0 * 'a'", "5 % 3", "1.5 * 2i",
	"1 << 2", "1.0 << 2", "b << 1", "b + 1", "1 + b", "r + 'a'", "'a' + r", "c1 + 1", "c2 + 1", "c3", "c4", "c5", "1 + c2",
	"c1 * c2", "-1", "-b", "+1.5", "^b", "!t", "!(b > 1)", "b == 1", "b > 1 && t", "t || t", "t == t", "N(1) == 2",
	"\"a\" + \"b\"", "s + \"x\"", "\"x\" + s", "s[0]", "s[1:]", "s[:1] + s", "len(s)", "cap(sl)", "len(\"abc\")",
	"sl", "sl[0]", "sl[1:]", "&sl[0]", "ar", "ar[:]", "ar[0]", "&ar", "mp", "mp[\"a\"]", "*pi", "pi", "&b", "**ppi",
	"S{}", "&S{}", "S{f: 1}.f", "(&S{}).f", "[]int{1}", "[2]int{1, 2}", "[...]int{1, 2}", "map[string]int{}", "map[string]S{}", "map[N]*S{}", "[]S{{}}", "[]*S{{}}", "[]interface{}{1}", "[][]int{{1}}",
	"struct{ a int }{1}", "&struct{ a int }{1}", "[]struct{ a int }{{1}}",
	"N(1)", "N(1) + 2", "2 + N(1)", "N(1) << 2", "byte(1)", "rune(1)", "uint8(1) + 1", "float32(1)", "complex64(1)", "uintptr(1)", "error(nil)", "interface{}(1)", "any(1)", "string(r)", "[]byte(\"a\")", "I(nil)", "(*S)(nil)", "(func())(nil)", "(func(int) string)(nil)", "chan int(nil)", "(<-chan int)(nil)", "map[string]int(nil)", "[]N(nil)", "(*[3]int)(nil)", "struct{}{}",
	"new(int)", "new(S)", "new([]int)", "new(*S)", "new([2]int)", "make([]int, 1)", "make(map[string]S)", "make(chan int)", "make(chan<- int)", "make(M)", "make(SL, 2)", "append(sl, 1)", "append([]N{}, 2)", "append(SL{}, 1)", "min(1, 2)", "min(1, 2.5)", "max(b, 1)", "complex(1, 2)", "real(2i)", "copy(sl, sl)", "imag(complex64(1))",
	"f1()", "f4()", "f6", "f7()", "f8()", "f8()()", "f9(1)", "f10()", "func() int { return 1 }()", "func() int { return 1 }", "func(a, b int) (x, y int) { return }", "func() {}",
	"S{}.m()", "S{}.m", "S.m", "(*S).pm", "(&S{}).pm", "mkS().in", "mkS().in.x", "mkS().in.y", "mkS().E", "mkS().ef", "mkS().N", "v1.in.x", "v1.f", "v2.f", "v2.in", "&v1.in", "&v1", "v1.m()", "v1.p", "v1.p.x", "*v1.p", "v1.mp[1]", "v1.fn", "v1.fn(1)", "v1.b", "v3.a", "v3.in.x",
	"G[int]{}", "&G[int]{}", "G[int]{}.f", "G[S]{f: S{}}.f", "G2[int, string]{}", "G2[int, string]{}.b", "g1(1)", "g1(S{})", "g1[int](1)", "g2(1, \"a\")", "G[G[int]]{}", "new(G[int])", "make([]G[int], 1)", "(G[int]{}).m()", "g1[string]", "GA{}", "Al{}", "Al2(1)",
	"i.(int)", "i.(S)", "i", "i.(I).im()", "<-ch", "ch", "(1)", "(S{})", "(b)", "&(S{})", "*(&b)", "*new(S)", "*mkP()", "mkP()", "&*mkP()",
	"w1", "w2", "w3", "w4",
	"B1", "B2", "B1 + 1", "1.0 * B1", "E1", "float64(b) * 2", "2 * float64(b)", "1e3", "0x10", "1_000", "'\\n'", "int8(1) + 2", "true && false", "!true", "t",
	"mr()", "ms.x", "ml[0].x", "mm[1]", "fnv()", "fnv", "ptrs[0].f", "[]F{nil}", "F(nil)", "F(nil)(1)", "IF{}.i", "IF{}", "S{}.m() + 1", "1 + S{}.m()", "1.5 * f10()", "1 * f10()",
	"S{}.r()", "r1().f", "r1().in.x", "r1().m()", "r1().p",
}

const svInitPrelude = `package p

type N int

type In struct{ x int; y string }

type E struct{ ef int8 }

type S struct {
	f    uint8
	in   In
	p    *In
	a, b string
	mp   map[int]N
	fn   func(int) (N)
	E
	N
}

func (s S) m() float64        { return 1 }
func (s *S) pm() (x, y int)   { return }
func (s S) r() (x *S)         { return nil }

type I interface{ im() string }
type F func(int) N
type M map[string]int
type SL []int
type IF struct{ i I }
type G[T any] struct{ f T }
func (g G[T]) m() T { return g.f }
type G2[T, U any] struct { a T; b U }
type GA = G[string]
type Al = S
type Al2 = int8

func g1[T any](x T) T { return x }
func g2[T, U any](x T, y U) (r U) { return y }
func mkS() S { return S{} }
func mkP() *S { return nil }
func f1() int { return 1 }
func f2() (a, b int) { return }
func f3() (int, error) { return 1, nil }
func f4() (x []S) { return }
func f5() {}
func f6(x int) int { return x }
func f7() error { return nil }
func f8() func() string { return nil }
func f9(x int) (map[string]*S) { return nil }
func f10() float32 { return 1 }
func f11() (x, y In) { return }
func r1() Al { return Al{} }
func mr() struct{ q int } { return struct{ q int }{} }
func shadow(int string) int8 { return 1 }

const (
	c1 = 1.5
	c2 = 'a'
	c3 = iota
	c4
	c5 N = iota
)

const B1 = 1 << 3
const B2 byte = 7

type En int

const (
	E0 En = iota
	E1
)

var b byte = 1
var r rune
var s string
var t bool
var sl []int
var ar [3]N
var mp map[string]*S
var pi *int
var ppi **int
var i interface{}
var ch chan N
var nilS S
var v1 S
var v2 *S
var v3 struct { a N; in In }
var w1, w2 = 1, 2.5
var w3, w4 = f3()
var ms = struct{ x int8 }{1}
var ml = []struct{ x int8 }{{1}}
var mm = map[int]N{}
var fnv = func() int8 { return 1 }
var ptrs = []*S{}

`

// initialisers giving two values
var svInits2 = []string{"f2()", "f3()", "(&S{}).pm()", "v2.pm()", "f11()", "mp[\"a\"]", "i.(int)", "<-ch", "func() (int, string) { return 1, s }()"}

func svInit(decls string, names []string) {
	use := svStrIn("use", 1, " &")
	body := ""
	for _, n := range names {
		body += "\t_ = " + use + n + "\n"
	}
	src := svInitPrelude + decls + "\nfunc fu() {\n" + body + "}\n"
	orig := svCheckSrc("p", src, nil)
	svAssume(orig.err == nil)
	outs, _ := svTrapVars(svPackages("p", map[string]string{"p": src}, []string{"p"}))
	svCompare(orig, outs["p"], nil)
	svReach("done")
}

func svNum(i int) string { return string(rune('A'+i/26)) + string(rune('a'+i%26)) }

// The type of a variable declared without a type is found right, or the
// variable is left alone.
//
//gosx:bounds 240 initialisers in groups of 8, alone and two in a declaration, in both orders; value or address of the variable taken
//gosx:budget quick=60s thorough=300s
func SV_init() {
	const per = 8
	g := svChoose("group", (len(svInits)+per-1)/per)
	form := svChoose("form", 3)
	decls := ""
	var names []string
	for i := g * per; i < g*per+per && i < len(svInits); i++ {
		v := "V" + svNum(i)
		names = append(names, v)
		a, b := svInits[i], svInits[(i+1)%len(svInits)]
		switch form {
		case 0:
			decls += "var " + v + " = " + a + "\n"
		case 1:
			decls += "var " + v + ", W" + v + " = " + a + ", " + b + "\n"
			names = append(names, "W"+v)
		case 2:
			decls += "var (\n\t_, W" + v + " = " + a + ", " + b + "\n\t" + v + " = " + b + "\n)\n"
			names = append(names, "W"+v)
		}
	}
	svInit(decls, names)
}

// Declarations of several variables by one expression.
//
//gosx:bounds 9 initialisers with two results, 3 forms of the declaration
//gosx:budget quick=30s thorough=60s
func SV_init2() {
	init := svInits2[svChoose("init", len(svInits2))]
	switch svChoose("form", 3) {
	case 0:
		svInit("var V, W = "+init+"\n", []string{"V", "W"})
	case 1:
		svInit("var _, V = "+init+"\n", []string{"V"})
	case 2:
		svInit("var V, _ = "+init+"\n", []string{"V"})
	}
}

var svLits = []string{"1", "1.5", "'a'", "\"s\"", "`r`", "0x10", "1e3", "2i", "c1", "c2", "true", "(2.5)", "-1"}
var svOps = []string{"+", "-", "*", "/", "%", "&", "|", "^", "&^", "<<", ">>", "&&", "||", "==", "<", "!="}

// Constant expressions of two literals: the default type of the result.
//
//gosx:bounds all constant expressions of two of 13 operands and 16 operators, in a variable, or in an untyped constant used by one
//gosx:budget quick=60s thorough=120s
func SV_literals() {
	l1 := svLits[svChoose("l1", len(svLits))]
	l2 := svLits[svChoose("l2", len(svLits))]
	use := svStrIn("use", 1, " &")
	cst := svChoose("const", 2) == 1
	const pre = "package p\nconst c1 = 'x'\nconst c2 = 1.5\n"
	src, uses := pre, ""
	for i, op := range svOps {
		n := string(rune('A' + i))
		var d string
		if cst {
			d = "const k" + n + " = " + l1 + " " + op + " " + l2 + "\nvar V" + n + " = k" + n + "\n"
		} else {
			d = "var V" + n + " = " + l1 + " " + op + " " + l2 + "\n"
		}
		if svCheckSrc("p", pre+d, nil).err == nil {
			src += d
			uses += "\t_ = " + use + "V" + n + "\n"
		}
	}
	src += "func f() {\n" + uses + "}\n"
	orig := svCheckSrc("p", src, nil)
	svAssume(orig.err == nil)
	outs, _ := svTrapVars(svPackages("p", map[string]string{"p": src}, []string{"p"}))
	svCompare(orig, outs["p"], nil)
	svReach("done")
}
