//gosx:pkg . instrument/instrument_var
//gosx:with lib.go.txt
//gosx:replace support/cmd/cmd.go cmd.txt
package instrument_var

import (
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"github.com/xhd2015/xgo/instrument/edit"
	"github.com/xhd2015/xgo/instrument/load"
	"github.com/xhd2015/xgo/instrument/overlay"
	"github.com/xhd2015/xgo/support/cmd"
)

// svRegistered gives the package paths that variables of a file are
// registered with, by the name of the variable.
func svRegistered(f *ast.File) map[string]string {
	strs := map[string]string{}
	for _, d := range f.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok {
			continue
		}
		for _, s := range gd.Specs {
			vs, ok := s.(*ast.ValueSpec)
			if !ok || len(vs.Values) != 1 {
				continue
			}
			if l, ok := vs.Values[0].(*ast.BasicLit); ok && l.Kind == token.STRING {
				strs[vs.Names[0].Name], _ = strconv.Unquote(l.Value)
			}
		}
	}
	res := map[string]string{}
	ast.Inspect(f, func(n ast.Node) bool {
		cl, ok := n.(*ast.CompositeLit)
		if !ok {
			return true
		}
		var pkg, name string
		for _, e := range cl.Elts {
			kv, ok := e.(*ast.KeyValueExpr)
			if !ok {
				continue
			}
			k, ok := kv.Key.(*ast.Ident)
			if !ok {
				continue
			}
			var val string
			switch v := kv.Value.(type) {
			case *ast.BasicLit:
				val, _ = strconv.Unquote(v.Value)
			case *ast.Ident:
				val = strs[v.Name]
			}
			if k.Name == "Pkg" {
				pkg = val
			} else if k.Name == "Name" {
				name = val
			}
		}
		if pkg != "" {
			res[name] = pkg
		}
		return true
	})
	return res
}

const svXPath = "main/p"

const svXSrc = `

type T struct{ A int }

type un struct{}

func F() *T { return nil }

func FU() un { return un{} }

var O = 1

func f0() { sink(V, &V, O, &O) }

func sink(x ...interface{}) {}
`

const svXTestSrc = `

type L struct{ B int }

type T string

func sink(x ...interface{}) {}
`

var svXInits = []string{"1", "T{}", "F()", "[]T{{A: 1}}", "FU()", "make(map[un]T)"}

var svXTestInits = []string{"\"s\"", "&Q.T{}", "L{}", "[]*L{}", "map[string]Q.T{}", "Q.F()", "T(\"s\")", "Q.V", "Q.FU()", "func(x Q.T) T { return \"\" }", "Q.O"}

// A package, its own tests and its external tests, loaded the way go list
// describes them: both packages compile, the uses of a variable are those of
// the package's own, and each is registered under the path of its package.
//
//gosx:bounds a package with 2 variables and an external test package with one, of a name of one letter that may be the same, 6 and 11 initialisers, the variable in the package or its internal test, 3 ways to import it, a local type of the same name
//gosx:budget quick=60s thorough=200s
func SV_external_tests() {
	name := svStrIn("name", 1, "VOXz")
	alias := []string{"", "q", "T"}[svChoose("alias", 3)]
	q := alias
	if q == "" {
		q = "p"
	}
	init := svXInits[svChoose("init", len(svXInits))]
	xinit := strings.Replace(svXTestInits[svChoose("xinit", len(svXTestInits))], "Q", q, -1)
	decl := "\nvar V = " + init + "\n"
	src := "package p" + svXSrc
	tsrc := "package p\n\nfunc f2() { sink(V, &V, O, &O) }\n"
	inTest := svBool("inTest")
	if inTest {
		tsrc += decl
		// without the test the package has no V
		src = strings.Replace(src, "sink(V, &V, O, &O)", "sink(nil, nil, O, &O)", 1)
	} else {
		src += decl
	}
	xsrc := svXTestSrc
	if alias == "T" {
		xsrc = strings.Replace(xsrc, "type T string", "", 1)
	}
	xsrc = "package p_test\n\nimport " + alias + " \"" + svXPath + "\"" + xsrc + "\nvar " + name + " = " + xinit + "\n\nfunc f1() { sink(" + name + ", &" + name + ", " + q + ".V, &" + q + ".V) }\n"

	compile := func(imp svImporter, path string, fset *token.FileSet, srcs ...string) (*types.Package, *types.Info, []*ast.File, error) {
		var fs []*ast.File
		for i, s := range srcs {
			f, err := parser.ParseFile(fset, path+string(rune('a'+i))+".go", s, 0)
			if err != nil {
				return nil, nil, nil, err
			}
			fs = append(fs, f)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}
		var first error
		conf := types.Config{Importer: imp, Error: func(e error) {
			if first == nil {
				first = e
			}
		}}
		pkg, _ := conf.Check(path, fset, fs, info)
		return pkg, info, fs, first
	}
	fset := token.NewFileSet()
	pkg, _, _, err := compile(nil, svXPath, fset, src, tsrc)
	svAssume(err == nil)
	_, _, _, err = compile(svImporter{svXPath: pkg}, svXPath+"_test", fset, xsrc)
	svAssume(err == nil)

	cmd.SvOut = `{"Dir": "/svx/p", "ImportPath": "` + svXPath + `", "Name": "p", "GoFiles": ["a.go"], "TestGoFiles": ["a_test.go"], "XTestGoFiles": ["x_test.go"]}`
	overlayFS := overlay.MakeOverlay()
	overlayFS.OverrideContent("/svx/p/a.go", src)
	overlayFS.OverrideContent("/svx/p/a_test.go", tsrc)
	overlayFS.OverrideContent("/svx/p/x_test.go", xsrc)
	opts := load.LoadOptions{Dir: "/svx", Overlay: overlayFS, IncludeTest: true, FilterErrorFile: true, Fset: token.NewFileSet()}
	lp, err := load.LoadPackages([]string{"main/..."}, opts)
	svAssert(err == nil, "loading fails")
	pkgs := edit.New(lp)
	pkgs.LoadOptions = opts
	for _, p := range pkgs.Packages {
		p.Main = true
		p.AllowInstrument = true
	}
	svTrapVars(pkgs)
	outs := map[string]string{}
	for _, p := range pkgs.Packages {
		for _, f := range p.Files {
			_, dup := outs[f.File.Name]
			svAssert(!dup, "a file is in two packages")
			outs[f.File.Name] = f.Edit.String()
		}
	}
	svAssert(len(outs) == 3, "a file is not loaded")
	nset := token.NewFileSet()
	npkg, ninfo, nfs, err := compile(svImporter{"unsafe": types.Unsafe}, svXPath, nset, outs["a.go"], outs["a_test.go"])
	if err != nil {
		svNote("error", err.Error())
	}
	svAssert(err == nil, "the instrumented package does not compile")
	xpkg, xinfo, xfs, err := compile(svImporter{svXPath: npkg, "unsafe": types.Unsafe}, svXPath+"_test", nset, outs["x_test.go"])
	if err != nil {
		svNote("error", err.Error())
	}
	svAssert(err == nil, "the instrumented external test package does not compile")

	getters, xgetters := svGetters(nfs), svGetters(xfs)
	check := func(fs []*ast.File, info *types.Info, fn string, want []string) {
		found := false
		for _, f := range fs {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Name.Name != fn {
					continue
				}
				found = true
				args := fd.Body.List[len(fd.Body.List)-1].(*ast.ExprStmt).X.(*ast.CallExpr).Args
				for i, a := range args {
					if want[i] == "" {
						continue
					}
					own := xpkg
					of := xgetters
					vname := strings.TrimPrefix(want[i], "&")
					if fn != "f1" {
						own, of = npkg, getters
					} else if strings.HasPrefix(vname, q+".") {
						own, of = npkg, getters
						vname = vname[len(q)+1:]
					}
					typ := own.Scope().Lookup(vname).Type()
					c, ok := a.(*ast.CallExpr)
					if !ok {
						// without a type the variable cannot be trapped
						s := typ.String()
						svAssert(strings.Contains(s, ".un") && own == xpkg || strings.Contains(s, "func("), "a use is not replaced")
						continue
					}
					var id *ast.Ident
					switch x := c.Fun.(type) {
					case *ast.Ident:
						id = x
					case *ast.SelectorExpr:
						id = x.Sel
					}
					svAssert(id != nil, "not a getter")
					get := vname
					if want[i][0] == '&' {
						get = "&" + vname
						typ = types.NewPointer(typ)
					}
					svAssert(of[id.Name] == get, "replaced by the getter of something else")
					svAssert(types.Identical(info.Types[a].Type, typ), "the type of a use changed")
				}
			}
		}
		svAssert(found, "a function is missing")
	}
	v, pv := "V", "&V"
	if inTest {
		v, pv = "", ""
	}
	check(nfs, ninfo, "f0", []string{v, pv, "O", "&O"})
	check(nfs, ninfo, "f2", []string{"V", "&V", "O", "&O"})
	check(xfs, xinfo, "f1", []string{name, "&" + name, q + ".V", "&" + q + ".V"})
	for _, f := range nfs {
		for _, path := range svRegistered(f) {
			svAssert(path == svXPath, "a variable is registered in another package")
		}
	}
	for vname, path := range svRegistered(xfs[0]) {
		svAssert(path == svXPath+"_test", "a variable of the external tests is registered in the package")
		svAssert(vname == name, "an unknown variable is registered")
	}
	svReach("done")
}
