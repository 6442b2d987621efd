//gosx:pkg . instrument/instrument_reg
package instrument_reg

import (
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"github.com/xhd2015/xgo/instrument/config"
	"github.com/xhd2015/xgo/instrument/edit"
	"github.com/xhd2015/xgo/instrument/instrument_func"
	"github.com/xhd2015/xgo/instrument/instrument_intf"
	"github.com/xhd2015/xgo/instrument/load"
	"github.com/xhd2015/xgo/support/edit/goedit"
)

type svFile struct {
	src  string
	fset *token.FileSet
	f    *ast.File
	info *types.Info
	pkg  *types.Package
	err  error
}

// svCheckSrc parses and type checks a file.
func svCheckSrc(src string) *svFile {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "a.go", src, parser.ParseComments)
	if err != nil {
		return &svFile{err: err}
	}
	conf := types.Config{Error: func(error) {}}
	info := &types.Info{Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
	pkg, err := conf.Check("p", fset, []*ast.File{f}, info)
	return &svFile{src, fset, f, info, pkg, err}
}

// svInstrument runs the function part of the instrumentation of one file.
func svInstrument(src, pkgPath, absFile string, index int, stdlib bool) (string, *edit.File) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "a.go", src, parser.ParseComments)
	svAssume(err == nil)
	file := &edit.File{
		File:  &load.File{AbsPath: absFile, Name: "a.go", Content: []byte(src), Syntax: f},
		Index: index,
		Edit:  goedit.New(fset, src),
	}
	funcs, _ := instrument_func.TrapFuncs(file.Edit, pkgPath, f, index, instrument_func.Options{Main: true, InstrumentMode: config.InstrumentMode_All})
	file.TrapFuncs = append(file.TrapFuncs, funcs...)
	file.InterfaceTypes = append(file.InterfaceTypes, instrument_intf.CollectInterfaces(file)...)
	RegisterFuncTab(fset, file, pkgPath, stdlib)
	return file.Edit.String(), file
}

// svRegs is what a source registers: the literals of the variables given to
// the register function and what is assigned to their Func field.
type svRegs struct {
	lits  map[string]*ast.CompositeLit
	regs  []string
	funcs map[string]string
	vars  map[string]ast.Expr
}

func svRegistered(s *svFile, register string) *svRegs {
	r := &svRegs{map[string]*ast.CompositeLit{}, nil, map[string]string{}, map[string]ast.Expr{}}
	for _, d := range s.f.Decls {
		switch d := d.(type) {
		case *ast.GenDecl:
			for _, sp := range d.Specs {
				vs, ok := sp.(*ast.ValueSpec)
				if !ok || len(vs.Values) != 1 || len(vs.Names) != 1 {
					continue
				}
				r.vars[vs.Names[0].Name] = vs.Values[0]
				u, ok := vs.Values[0].(*ast.UnaryExpr)
				if !ok {
					continue
				}
				if lit, ok := u.X.(*ast.CompositeLit); ok {
					r.lits[vs.Names[0].Name] = lit
				}
			}
		case *ast.FuncDecl:
			if d.Name.Name != "init" || d.Body == nil {
				continue
			}
			for _, st := range d.Body.List {
				switch st := st.(type) {
				case *ast.ExprStmt:
					c, ok := st.X.(*ast.CallExpr)
					if !ok || len(c.Args) != 1 {
						continue
					}
					if id, ok := c.Fun.(*ast.Ident); ok && id.Name == register {
						r.regs = append(r.regs, c.Args[0].(*ast.Ident).Name)
					}
				case *ast.AssignStmt:
					sel, ok := st.Lhs[0].(*ast.SelectorExpr)
					if ok && sel.Sel.Name == "Func" {
						rhs := st.Rhs[0]
						r.funcs[sel.X.(*ast.Ident).Name] = s.src[rhs.Pos()-1 : rhs.End()-1]
					}
				}
			}
		}
	}
	return r
}

func (r *svRegs) field(lit *ast.CompositeLit, name string) ast.Expr {
	for _, e := range lit.Elts {
		kv := e.(*ast.KeyValueExpr)
		if kv.Key.(*ast.Ident).Name == name {
			return kv.Value
		}
	}
	return nil
}

// str gives the value of a string field, directly or through a variable.
func (r *svRegs) str(lit *ast.CompositeLit, name string) string {
	e := r.field(lit, name)
	if id, ok := e.(*ast.Ident); ok {
		e = r.vars[id.Name]
	}
	if e == nil {
		return ""
	}
	s, err := strconv.Unquote(e.(*ast.BasicLit).Value)
	svAssert(err == nil, "a registered string is not well-formed")
	return s
}

func (r *svRegs) num(lit *ast.CompositeLit, name string) int {
	e := r.field(lit, name)
	if e == nil {
		return 0
	}
	n, err := strconv.Atoi(e.(*ast.BasicLit).Value)
	svAssert(err == nil, "a registered number is not well-formed")
	return n
}

func (r *svRegs) yes(lit *ast.CompositeLit, name string) bool {
	e := r.field(lit, name)
	if e == nil {
		return false
	}
	return e.(*ast.Ident).Name == "true"
}

func (r *svRegs) list(lit *ast.CompositeLit, name string) []string {
	e := r.field(lit, name)
	if e == nil {
		return nil
	}
	var res []string
	for _, el := range e.(*ast.CompositeLit).Elts {
		s, err := strconv.Unquote(el.(*ast.BasicLit).Value)
		svAssert(err == nil, "a registered string is not well-formed")
		res = append(res, s)
	}
	return res
}

func svSame(got []string, want []string, what string) {
	svAssert(len(got) == len(want), what+": number")
	for i := range want {
		svAssert(got[i] == want[i], what)
	}
}

// svAuto: a name given by the user is registered as it is, others get some name
func svArgs(got, want []string, what string) {
	svAssert(len(got) == len(want), what+": number")
	for i := range want {
		if want[i] == "" || want[i] == "_" {
			svAssert(got[i] != "" && got[i] != "_", what+": no name given")
		} else {
			svAssert(got[i] == want[i], what)
		}
	}
}

type svDecl struct {
	src                string
	name, recv         string
	ptr, generic, intf bool
	args, res          []string
	none               bool // not registered
}

// svDeclOf is the i-th declaration, of some kind.
func svDeclOf(i int, simple bool) svDecl {
	num := strconv.Itoa(i)
	f := "f" + num
	a, b := "x", "_"
	kind := 0
	if simple {
		kind = []int{1, 5}[svChoose("decl", 2)]
	} else {
		a, b = svStrIn("a", 1, "xy_"), svStrIn("b", 1, "yz_")
		svAssume(a == "_" || a != b)
		kind = svChoose("decl", 11)
	}
	switch kind {
	case 0:
		return svDecl{src: "func " + f + "(" + a + " int, " + b + " string) {}", name: f, args: []string{a, b}}
	case 1:
		return svDecl{src: "func (" + a + " *T) " + f + "() (" + b + " error) { return nil }", name: f, recv: "T", ptr: true, args: nil, res: []string{b}}
	case 2:
		return svDecl{src: "func (T) " + f + "(" + a + " int) int { " + a + "1 := 1; return " + a + "1 }", name: f, recv: "T", args: []string{a}, res: []string{""}}
	case 3:
		return svDecl{src: "func " + f + "[K any, V comparable](" + a + " K) { }", name: f, generic: true, args: []string{a}}
	case 4:
		return svDecl{src: "func (" + a + " *G[K]) " + f + "(" + b + " K) { }", name: f, recv: "G", ptr: true, generic: true, args: []string{b}}
	case 5:
		return svDecl{src: "type I" + num + " interface {\n\tM(" + a + " int) error\n}", name: "I" + num, recv: "I" + num, intf: true}
	case 6:
		return svDecl{src: "func init() { println(1) }", none: true}
	case 7:
		return svDecl{src: "var v" + num + ", w" + num + " = 1, func() int { return 2 }", none: true}
	case 8:
		return svDecl{src: "type (\n\tU" + num + " struct {\n\t\t" + a + "1 int\n\t}\n\tJ" + num + " interface{}\n)", name: "J" + num, recv: "J" + num, intf: true}
	case 9:
		return svDecl{src: "const c" + num + ", d" + num + " = 1, 2", none: true}
	}
	return svDecl{src: "func (" + a + " R) " + f + "(int, ..." + "string) (_ int, " + b + " error) {\n\treturn 1, nil\n}", name: f, recv: "R", args: []string{"", ""}, res: []string{"_", b}}
}

// The instrumented file type checks, its functions and interfaces are
// registered with the right data, and nothing moves to another line.
//
//gosx:bounds 2 (thorough 3) declarations of 11 kinds, all names of parameters and receivers
//gosx:budget quick=60s thorough=400s
func SV_registration() {
	svRegistration(2+svTier(), false, "p/q", "/d/a.go", svTier()*3+1)
}

// Paths of files and packages may contain any characters.
//
//gosx:bounds a method or an interface, file paths of 2 and package paths of 1 byte with quotes, backslashes and control characters
//gosx:budget quick=60s thorough=100s
func SV_paths() {
	pkgPath := "p/" + svStrIn("pkg", 1, "a\"\\")
	absFile := "/" + svStrIn("file", 2, "a\"`\\\x00")
	svRegistration(1, true, pkgPath, absFile, 7)
}

func svRegistration(n int, simple bool, pkgPath, absFile string, index int) {
	var decls []svDecl
	src := "package p\n\n"
	var lines []int
	for i := 0; i < n; i++ {
		d := svDeclOf(i, simple)
		decls = append(decls, d)
		lines = append(lines, 1+strings.Count(src, "\n"))
		src += d.src
		if i == n-1 && d.intf {
			lines[i] = lines[i] // the position of the name is checked below
		}
		src += []string{"\n", "; ", " // end\n\n"}[i%3]
	}
	src += "\ntype T struct{ x int }\ntype R int\ntype G[K any] struct{ k K }\n"
	stdlib := svBool("stdlib")

	orig := svCheckSrc(src)
	svAssume(orig.err == nil)
	out, _ := svInstrument(src, pkgPath, absFile, index, stdlib)
	s := svCheckSrc(out)
	if s.err != nil {
		svNote("error", s.err.Error())
		svNote("out", out)
	}
	svAssert(s.err == nil, "the instrumented file does not compile")

	r := svRegistered(s, "__xgo_register_"+strconv.Itoa(index))
	used := map[string]bool{}
	k := 0
	find := func(name, recv string) *ast.CompositeLit {
		for _, v := range r.regs {
			lit := r.lits[v]
			svAssert(lit != nil, "something undefined is registered")
			if r.str(lit, "Name") == name && r.str(lit, "RecvType") == recv {
				svAssert(!used[v], "something is registered twice")
				used[v] = true
				return lit
			}
		}
		return nil
	}
	for i, d := range decls {
		if d.none {
			continue
		}
		k++
		lit := find(d.name, d.recv)
		svAssert(lit != nil, "a function or interface is not registered")
		v := ""
		for n, l := range r.lits {
			if l == lit {
				v = n
			}
		}
		identity := d.name
		if d.recv != "" && !d.intf {
			identity = d.recv + "." + d.name
			if d.ptr {
				identity = "(*" + d.recv + ")." + d.name
			}
		}
		svAssert(r.str(lit, "IdentityName") == identity, "identity name registered")
		svAssert(r.str(lit, "Pkg") == pkgPath, "package registered")
		svAssert(r.str(lit, "File") == absFile, "file registered")
		svAssert(r.num(lit, "Kind") == 0, "kind registered")
		svAssert(r.yes(lit, "Generic") == d.generic, "generic registered")
		svAssert(r.yes(lit, "Interface") == d.intf, "interface registered")
		svAssert(r.yes(lit, "RecvPtr") == d.ptr, "pointer receiver registered")
		svAssert(r.yes(lit, "Stdlib") == stdlib, "stdlib registered")
		svArgs(r.list(lit, "ArgNames"), d.args, "names of arguments registered")
		svArgs(r.list(lit, "ResNames"), d.res, "names of results registered")
		line := lines[i]
		if d.intf && strings.HasPrefix(d.src, "type (") {
			line += 4
		}
		svAssert(r.num(lit, "Line") == line, "line registered")
		if d.generic || d.intf {
			svAssert(r.funcs[v] == "", "a function value is registered for a generic function or interface")
		} else {
			svAssert(r.funcs[v] == identity, "the function value registered is another one")
		}
	}
	svAssert(k == len(r.regs), "something else is registered")

	// the declarations of the source are where they were
	j := 0
	for _, d := range orig.f.Decls {
		for j < len(s.f.Decls) && !svSameDecl(orig, s, d, s.f.Decls[j]) {
			j++
		}
		svAssert(j < len(s.f.Decls), "a declaration is missing or out of order")
		svAssert(orig.fset.Position(d.Pos()).Line == s.fset.Position(s.f.Decls[j].Pos()).Line, "a declaration moved to another line")
		svAssert(orig.fset.Position(d.End()).Line == s.fset.Position(s.f.Decls[j].End()).Line, "a declaration ends at another line")
		j++
	}
}

func svSameDecl(a, b *svFile, x, y ast.Decl) bool {
	switch x := x.(type) {
	case *ast.FuncDecl:
		y, ok := y.(*ast.FuncDecl)
		if !ok || x.Name.Name != y.Name.Name {
			return false
		}
		if x.Name.Name == "init" {
			return a.src[x.Pos()-1:x.End()-1] == b.src[y.Pos()-1:y.End()-1]
		}
		return true
	case *ast.GenDecl:
		y, ok := y.(*ast.GenDecl)
		return ok && a.src[x.Pos()-1:x.End()-1] == b.src[y.Pos()-1:y.End()-1]
	}
	return false
}
