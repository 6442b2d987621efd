//gosx:pkg . instrument/instrument_func
package instrument_func

import (
	"go/ast"
	"go/parser"
	"go/token"
	"strings"

	"github.com/xhd2015/xgo/instrument/config"
	"github.com/xhd2015/xgo/instrument/edit"
	"github.com/xhd2015/xgo/support/edit/goedit"
)

func svParse(src string) (*token.FileSet, *ast.File, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "a.go", src, parser.ParseComments)
	return fset, f, err
}

// text of a node, positions are offsets+1 as the file set has one file
func svText(src string, from, to token.Pos) string { return src[int(from)-1 : int(to)-1] }

type svField struct {
	name string
	typ  string
}

// svFields flattens a field list: the names (empty if unnamed) and type texts.
func svFields(src string, l *ast.FieldList) []svField {
	var res []svField
	if l == nil {
		return nil
	}
	for _, f := range l.List {
		t := svText(src, f.Type.Pos(), f.Type.End())
		if len(f.Names) == 0 {
			res = append(res, svField{"", t})
		}
		for _, n := range f.Names {
			res = append(res, svField{n.Name, t})
		}
	}
	return res
}

func svBlank(n string) bool { return n == "" || n == "_" }

// svAddrs lists the names in []interface{}{&a,&b}.
func svAddrs(e ast.Expr) ([]string, bool) {
	lit, ok := e.(*ast.CompositeLit)
	if !ok {
		return nil, false
	}
	var res []string
	for _, el := range lit.Elts {
		n, ok := svAddr(el)
		if !ok {
			return nil, false
		}
		res = append(res, n)
	}
	return res, true
}

func svAddr(e ast.Expr) (string, bool) {
	u, ok := e.(*ast.UnaryExpr)
	if !ok || u.Op != token.AND {
		return "", false
	}
	id, ok := u.X.(*ast.Ident)
	if !ok {
		return "", false
	}
	return id.Name, true
}

func svCallOf(e ast.Expr, name string) bool {
	c, ok := e.(*ast.CallExpr)
	if !ok || len(c.Args) != 0 {
		return false
	}
	id, ok := c.Fun.(*ast.Ident)
	return ok && id.Name == name
}

// svTrapped checks one function: the declaration fd of src became nd of out.
// info is what the instrumentation reports about it.
func svTrapped(src, out string, fd, nd *ast.FuncDecl, fset, nset *token.FileSet, info *edit.FuncInfo, used map[string]bool) {
	svAssert(nd.Name.Name == fd.Name.Name, "the name of a function changed")
	// signature: types and given names are kept, the others get distinct names
	seen := map[string]bool{}
	check := func(o, n *ast.FieldList, what string) []string {
		of, nf := svFields(src, o), svFields(out, n)
		svAssert(len(of) == len(nf), "number of "+what+" changed")
		var names []string
		for i := range of {
			svAssert(of[i].typ == nf[i].typ, "type of "+what+" changed")
			if svBlank(of[i].name) {
				svAssert(!svBlank(nf[i].name), what+" have no name")
			} else {
				svAssert(nf[i].name == of[i].name, "name of "+what+" changed")
			}
			svAssert(!seen[nf[i].name], what+": a name is used twice")
			seen[nf[i].name] = true
			names = append(names, nf[i].name)
		}
		return names
	}
	recv := check(fd.Recv, nd.Recv, "receiver")
	params := check(fd.Type.Params, nd.Type.Params, "parameters")
	results := check(fd.Type.Results, nd.Type.Results, "results")

	// body: one line prefix inserted, the rest kept
	ob := svText(src, fd.Body.Lbrace, fd.Body.End())
	nb := svText(out, nd.Body.Lbrace, nd.Body.End())
	svAssert(len(nb) > len(ob), "nothing inserted in the body")
	cut := len(nb) - len(ob) + 1
	svAssert(nb[cut:] == ob[1:], "the original body is not kept")
	svAssert(!strings.Contains(nb[:cut], "\n"), "lines inserted in the body")
	svAssert(fset.Position(fd.Body.Lbrace).Line == nset.Position(nd.Body.Lbrace).Line, "the line of a body changed")

	k := len(nd.Body.List) - len(fd.Body.List)
	svAssert(k == 3, "not exactly the trap inserted")
	as, ok := nd.Body.List[0].(*ast.AssignStmt)
	svAssert(ok && as.Tok == token.DEFINE && len(as.Lhs) == 2 && len(as.Rhs) == 1, "the trap is not called first")
	post, stop := as.Lhs[0].(*ast.Ident).Name, as.Lhs[1].(*ast.Ident).Name
	svAssert(!seen[post] && !seen[stop] && post != stop, "variables of the trap clash with parameters")
	call, ok := as.Rhs[0].(*ast.CallExpr)
	svAssert(ok && len(call.Args) == 4, "the trap does not get function, receiver, arguments and results")
	fn := call.Fun.(*ast.Ident).Name
	svAssert(!seen[fn], "the trap is hidden by a parameter")
	iv := call.Args[0].(*ast.Ident).Name
	svAssert(iv == info.InfoVar && !used[iv] && !seen[iv], "the function passed to the trap is not its own")
	used[iv] = true
	if len(recv) == 0 {
		id, ok := call.Args[1].(*ast.Ident)
		svAssert(ok && id.Name == "nil", "a receiver is passed for a function without one")
	} else {
		n, ok := svAddr(call.Args[1])
		svAssert(ok && n == recv[0], "the receiver is not passed to the trap")
	}
	svNames(call.Args[2], params, "parameters")
	svNames(call.Args[3], results, "results")
	// if post!=nil { defer post() }
	pi, ok := nd.Body.List[1].(*ast.IfStmt)
	svAssert(ok && pi.Else == nil && len(pi.Body.List) == 1, "post is not deferred")
	cond, ok := pi.Cond.(*ast.BinaryExpr)
	svAssert(ok && cond.Op == token.NEQ && cond.X.(*ast.Ident).Name == post && cond.Y.(*ast.Ident).Name == "nil", "post is deferred on a wrong condition")
	df, ok := pi.Body.List[0].(*ast.DeferStmt)
	svAssert(ok && svCallOf(df.Call, post), "post is not deferred")
	// if stop { return }
	si, ok := nd.Body.List[2].(*ast.IfStmt)
	svAssert(ok && si.Else == nil && len(si.Body.List) == 1, "stop does not return")
	id, ok := si.Cond.(*ast.Ident)
	svAssert(ok && id.Name == stop, "stop does not return")
	rt, ok := si.Body.List[0].(*ast.ReturnStmt)
	svAssert(ok && len(rt.Results) == 0, "stop does not return the results set")

	// what is reported for registration
	svAssert(info.FuncDecl == fd, "another function is reported")
	if len(recv) == 0 {
		svAssert(info.Receiver == nil && info.RecvType == nil, "a receiver is reported for a function")
		svAssert(info.IdentityName == fd.Name.Name, "identity of a function")
	} else {
		svAssert(info.Receiver != nil && info.Receiver.Name == recv[0], "name of the receiver reported")
	}
	svReported(info.Params, params, "parameters")
	svReported(info.Results, results, "results")
}

// svValid assumes that the names of a function are distinct.
func svValid(src string, fd *ast.FuncDecl) {
	var all []svField
	all = append(all, svFields(src, fd.Recv)...)
	all = append(all, svFields(src, fd.Type.Params)...)
	all = append(all, svFields(src, fd.Type.Results)...)
	for i := range all {
		for j := 0; j < i; j++ {
			svAssume(svBlank(all[i].name) || all[i].name != all[j].name)
		}
	}
}

func svNames(e ast.Expr, names []string, what string) {
	got, ok := svAddrs(e)
	svAssert(ok && len(got) == len(names), what+" passed to the trap: number")
	for i := range names {
		svAssert(got[i] == names[i], what+" passed to the trap")
	}
}

func svReported(fs edit.Fields, names []string, what string) {
	svAssert(len(fs) == len(names), what+" reported: number")
	for i, f := range fs {
		svAssert(f.Name == names[i], what+" reported")
	}
}

func svSkipped(src, out string, fd, nd *ast.FuncDecl) {
	svAssert(svText(src, fd.Pos(), fd.End()) == svText(out, nd.Pos(), nd.End()), "a function that is not instrumented changed")
}

func svTrap(src string, opts Options) (string, *ast.File, []*edit.FuncInfo) {
	fset, f, err := svParse(src)
	svAssume(err == nil)
	ed := goedit.New(fset, src)
	infos, _ := TrapFuncs(ed, "p", f, 3, opts)
	return ed.String(), f, infos
}

// svCheckFile compares source and instrumented source, trapped tells
// which function declarations are to be instrumented.
func svCheckFile(src string, trapped func(i int, fd *ast.FuncDecl) bool) {
	fset, f, err := svParse(src)
	if err != nil {
		svNote("err", err.Error()+src)
	}
	svAssume(err == nil)
	ed := goedit.New(fset, src)
	infos, _ := TrapFuncs(ed, "p", f, 3, Options{Main: true, InstrumentMode: config.InstrumentMode_All})
	out := ed.String()
	nset, nf, err := svParse(out)
	svAssert(err == nil, "the instrumented source does not parse")
	svAssert(strings.Count(src, "\n") == strings.Count(out, "\n"), "number of lines changed")
	svAssert(len(f.Decls) == len(nf.Decls), "declarations added")
	used := map[string]bool{}
	k := 0
	pe, ne := token.Pos(1), token.Pos(1)
	for i, d := range f.Decls {
		nd := nf.Decls[i]
		svAssert(svText(src, pe, d.Pos()) == svText(out, ne, nd.Pos()), "text outside functions changed")
		pe, ne = d.End(), nd.End()
		fd, ok := d.(*ast.FuncDecl)
		if !ok {
			svAssert(svText(src, d.Pos(), d.End()) == svText(out, nd.Pos(), nd.End()), "a declaration changed")
			continue
		}
		svValid(src, fd)
		if !trapped(i, fd) {
			svSkipped(src, out, fd, nd.(*ast.FuncDecl))
			continue
		}
		svAssert(k < len(infos), "a function is not instrumented")
		svTrapped(src, out, fd, nd.(*ast.FuncDecl), fset, nset, infos[k], used)
		k++
	}
	svAssert(src[int(pe)-1:] == out[int(ne)-1:], "text at the end changed")
	svAssert(k == len(infos), "more functions are reported than instrumented")
}

// a name of one letter or the blank
func svName(n string) string { return svStrIn(n, 1, "ab_") }

// svParams gives a parameter list of the given shape, named by symbolic names.
func svParams(id string, shape int) string {
	switch shape {
	case 0:
		return ""
	case 1:
		return svName(id) + " int"
	case 2:
		return svName(id+"1") + ", " + svName(id+"2") + " int"
	case 3:
		return svName(id+"1") + " int, " + svName(id+"2") + " ...string"
	case 4:
		return "int, map[string]func(a int) (b error)"
	case 5:
		return "...interface{ M(a int) }"
	case 6:
		return "\n\t" + svName(id+"1") + " int, // first\n\t" + svName(id+"2") + " struct{ a, b int },\n"
	}
	return svName(id+"1") + ", " + svName(id+"2") + " chan<- int, c *int"
}

func svResults(shape int) string {
	switch shape {
	case 0:
		return ""
	case 1:
		return " int"
	case 2:
		return "(int)"
	case 3:
		return " (int, error)"
	case 4:
		return " (" + svStrIn("r1", 1, "cd_") + ", " + svStrIn("r2", 1, "cd_") + " int)"
	case 5:
		return " (" + svStrIn("r1", 1, "cd_") + " func() (int, error), err error)"
	case 6:
		return "func(x int) (y error)"
	case 7:
		return " /* the result */ *int /* end */"
	}
	return " (\n\tint,\n\terror, // an error\n)"
}

// Every shape of parameters and results: the instrumented function has the
// same signature and body, and gives addresses of all of them to the trap.
//
//gosx:bounds 8 parameter shapes x 9 result shapes x 4 bodies, names of one letter or blank
//gosx:budget quick=30s thorough=120s
func SV_signatures() {
	params := svParams("p", svChoose("params", 8))
	results := svResults(svChoose("results", 9))
	var body string
	switch svChoose("body", 4) {
	case 0:
		body = "{}"
	case 1:
		body = "{ panic(1) }"
	case 2:
		body = "{ // comment\n\tf(1)\n\treturn\n}"
	case 3:
		body = "{\n\tdefer func() { recover() }()\nL:\n\tfor {\n\t\tgoto L\n\t}\n}"
	}
	src := "package p\n\nfunc f(" + params + ")" + results + " " + body + "\n\n// after\nvar x = 1\n"
	svCheckFile(src, func(i int, fd *ast.FuncDecl) bool { return true })
}

// Receivers of all kinds, generic functions.
//
//gosx:bounds 12 kinds of receivers, names of one letter or blank, 4 parameter and result shapes
//gosx:budget quick=30s thorough=120s
func SV_receivers() {
	r := svStrIn("r", 1, "xy_")
	typ := svStrIn("typ", 2, "TU")
	fn := svStrIn("fn", 2, "mn")
	var head string
	ptr, generic, method := false, false, true
	switch svChoose("recv", 12) {
	case 0:
		head = "(" + typ + ") "
	case 1:
		head = "(*" + typ + ") "
		ptr = true
	case 2:
		head = "(" + r + " " + typ + ") "
	case 3:
		head = "(" + r + " *" + typ + ") "
		ptr = true
	case 4:
		head = "(" + r + " " + typ + "[K]) "
		generic = true
	case 5:
		head = "(" + r + " *" + typ + "[K]) "
		ptr, generic = true, true
	case 6:
		head = "(" + r + " *" + typ + "[K, V]) "
		ptr, generic = true, true
	case 7:
		head = "(*" + typ + "[K, V]) "
		ptr, generic = true, true
	case 8:
		head = "(" + typ + "[_]) "
		generic = true
	case 9:
		head = "( /* recv */ " + r + "\t*" + typ + " ) "
		ptr = true
	case 10, 11:
		method = false
	}
	tp := ""
	if !method && svChoose("tparams", 2) == 1 {
		tp = "[K any, V interface{ ~int }]"
	}
	params := []string{"", "a int", "_, _ int", "int, ...string"}[svChoose("params", 4)]
	results := []string{"", " int", " (_ int, err error)", " (int, error)"}[svChoose("results", 4)]
	src := "package p\n\nfunc " + head + fn + tp + "(" + params + ")" + results + " {\n\tpanic(1)\n}\n"
	svCheckFile(src, func(i int, fd *ast.FuncDecl) bool { return true })
	// identity
	_, _, infos := svTrap(src, Options{Main: true, InstrumentMode: config.InstrumentMode_All})
	info := infos[0]
	want := fn
	if method {
		want = typ + "." + fn
		if ptr {
			want = "(*" + typ + ")." + fn
		}
		svAssert(info.RecvType != nil && info.RecvType.Name == typ, "type of the receiver")
	}
	svAssert(info.IdentityName == want, "identity of a method")
	svAssert(info.RecvPtr == ptr && info.RecvGeneric == generic, "kind of the receiver")
}

// Files of several declarations: init functions, functions without body or
// name and nosplit functions are left alone, everything else is instrumented.
//
//gosx:bounds 3 (thorough 4) functions of 8 kinds, names of 4 letters which may be init
//gosx:budget quick=40s thorough=200s
func SV_file() {
	n := 3 + svTier()
	src := "// Package p\npackage p\n\nimport \"fmt\"\n\n"
	want := map[int]bool{}
	for i := 0; i < n; i++ {
		trapped := true
		name := "f" + string(rune('0'+i))
		switch svChoose("kind", 8) {
		case 0:
			name = svStrIn("name", 4, "int")
			src += "func " + name + "() { fmt.Println() }\n"
			trapped = name != "init"
		case 1:
			src += "func (T) init() { fmt.Println() }\n"
		case 2:
			src += "// nothing\n//go:nosplit\nfunc " + name + "() { fmt.Println() }\n"
			trapped = false
		case 3:
			src += "//go:noinline\nfunc " + name + "() int { return 1 }; "
		case 4:
			src += "func " + name + "(x int) int\n"
			trapped = false
		case 5:
			src += "func _() { fmt.Println() }\n\n"
			trapped = false
		case 6:
			src += "var " + name + " = func(int) int { return 1 }\n"
			trapped = false
		case 7:
			src += "type " + name + " interface{ m(int) int }\n"
			trapped = false
		}
		want[i+1] = trapped
	}
	svCheckFile(src, func(i int, fd *ast.FuncDecl) bool { return want[i] })
}

// A function is left alone if, and only if, any line of its own doc comment
// is the nosplit directive.
//
//gosx:bounds doc comments of 3 (thorough 4) lines of 6 kinds, one with 2 arbitrary letters
//gosx:budget quick=20s thorough=60s
func SV_doc() {
	n := 3 + svTier()
	src := "package p\n\n"
	trapped := true
	for i := 0; i < n; i++ {
		switch svChoose("line", 6) {
		case 0:
			src += "//go:nosplit\n"
			trapped = false
		case 1:
			src += "//go:noinline\n"
		case 2:
			src += "// go:nosplit is not wanted\n"
		case 3:
			s := svStrIn("s", 2, "pst")
			src += "//go:no" + s + "lit\n"
			if s == "sp" {
				trapped = false
			}
		case 4:
			// what is above does not belong to the function
			src += "\n"
			trapped = true
		case 5:
			src += "/* go:nosplit */\n"
		}
	}
	src += "func f(x int) int { return 1 }\n"
	svCheckFile(src, func(i int, fd *ast.FuncDecl) bool { return trapped })
}
