//gosx:pkg . instrument/instrument_var
//gosx:with lib.go.txt
package instrument_var

import (
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"strings"
)

// svGetters maps the functions returning what their first statement reads
// of a variable to that variable.
func svGetters(fs []*ast.File) map[string]string {
	res := map[string]string{}
	for _, f := range fs {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || !strings.Contains(fd.Name.Name, svGet) || fd.Body == nil {
				continue
			}
			as, ok := fd.Body.List[0].(*ast.AssignStmt)
			if !ok {
				continue
			}
			switch x := as.Rhs[0].(type) {
			case *ast.Ident:
				res[fd.Name.Name] = x.Name
			case *ast.UnaryExpr:
				res[fd.Name.Name] = "&" + x.X.(*ast.Ident).Name
			}
		}
	}
	return res
}

var svFileInits = []string{"1", "Q.T", "Q.F3()", "&Q.S{}", "[]Q.S{}", "new(Q.In)", "map[string]Q.Nt{}", "M{}", "Q.V", "Q.FU()", "OTHER"}

// Two files of a package, each having a variable both use: all uses are
// replaced, and the package compiles.
//
//gosx:bounds 2 files with one or two variables of 11 (4) initialisers each, imports of the same or different packages by the same or different names, names of variables of one letter, or starting with Test in a test file, local names hiding what the initialisers use
//gosx:budget quick=60s thorough=300s
func SV_files() {
	path := "ext/lib"
	inMain := svTier() > 0 && svChoose("main", 2) == 1
	if inMain {
		path = "main/lib"
	}
	lib := svCheckSrc(path, "package lib"+svLib, nil)
	svAssert(lib.err == nil, "library")
	path2 := path + "2"
	lib2 := svCheckSrc(path2, "package lib"+svLib, nil)
	svAssert(lib2.err == nil, "library")
	bName := "b.go"
	names := []string{svStrIn("nameA", 1, "xZ"), "w"}
	hide := ""
	variant := svChoose("variant", 6)
	switch variant {
	case 1, 2:
		bName = "b_test.go"
		if variant == 2 {
			names[1] = "Test" + names[1]
		}
	case 3, 4, 5:
		hide = []string{"M", "q", "lib"}[variant-3]
	}
	svAssume(names[0] != names[1])
	aliases := [][2]string{{"", "q"}, {"q", ""}, {"q", "lib"}, {"q", "q"}}[svChoose("alias", 4)]
	var srcs []string
	for i := 0; i < 2; i++ {
		q := aliases[i]
		from := path
		if i == 1 && aliases[0] == "q" && q != "" {
			from = path2
		}
		src := "package p\n\nimport " + q + " \"" + from + "\"\n\n"
		if q == "" {
			q = "lib"
		}
		src += "var _ = " + q + ".V\n\n"
		init := 0
		if i == 0 || svTier() > 0 {
			init = svChoose("init", len(svFileInits))
		} else {
			init = []int{0, 1, 6, 10}[svChoose("init2", 4)]
		}
		code := strings.Replace(svFileInits[init], "Q", q, -1)
		if code == "OTHER" {
			code = names[1-i]
		}
		src += "var " + names[i] + " = " + code + "\n"
		if i == 1 {
			src += "var v1 = " + q + ".T\n"
		} else {
			src += "var v0 int\n"
		}
		src += "\nfunc f" + string(rune('0'+i)) + "() {\n\t"
		if hide != "" {
			src += hide + " := 1; _ = " + hide + "; "
		}
		src += "sink(" + names[0] + ", " + names[1] + ", v0, v1, &" + names[0] + ", &" + names[1] + ")\n}\n"
		if i == 0 {
			src += "\nfunc sink(x ...interface{}) {}\n\ntype M struct{}\n"
		}
		srcs = append(srcs, src)
	}
	imp := svImporter{path: lib.pkg, path2: lib2.pkg}
	fset := token.NewFileSet()
	var fs []*ast.File
	for i, src := range srcs {
		f, err := parser.ParseFile(fset, string(rune('a'+i))+".go", src, 0)
		svAssume(err == nil)
		fs = append(fs, f)
	}
	conf := types.Config{Importer: imp, Error: func(error) {}}
	_, err := conf.Check("main", fset, fs, nil)
	svAssume(err == nil)

	pkgs := svPackagesOf("main", map[string][]svFile{"main": {{"a.go", srcs[0]}, {bName, srcs[1]}}, path: {{"a.go", lib.src}}, path2: {{"a.go", lib2.src}}}, []string{"main", path, path2})
	outs, _ := svTrapVars(pkgs)
	libInst := svCheckSrc(path, outs[path], svImporter{"unsafe": types.Unsafe})
	svAssert(libInst.err == nil, "the instrumented library does not compile")
	lib2Inst := svCheckSrc(path2, outs[path2], svImporter{"unsafe": types.Unsafe})
	svAssert(lib2Inst.err == nil, "the instrumented library does not compile")
	nset := token.NewFileSet()
	var nfs []*ast.File
	for i, file := range pkgs.Packages[0].Files {
		out := file.Edit.String()
		f, err := parser.ParseFile(nset, string(rune('a'+i))+".go", out, 0)
		svNote("out", out)
		svAssert(err == nil, "an instrumented file does not parse")
		nfs = append(nfs, f)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}
	var first error
	conf = types.Config{Importer: svImporter{path: libInst.pkg, path2: lib2Inst.pkg, "unsafe": types.Unsafe}, Error: func(e error) {
		if first == nil {
			first = e
		}
	}}
	pkg, _ := conf.Check("main", nset, nfs, info)
	if first != nil {
		svNote("error", first.Error())
	}
	svAssert(first == nil, "the instrumented files do not compile together")
	getters := svGetters(nfs)
	want := []string{names[0], names[1], "v0", "v1", "&" + names[0], "&" + names[1]}
	n := 0
	for _, f := range nfs {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || (fd.Name.Name != "f0" && fd.Name.Name != "f1") {
				continue
			}
			n++
			args := fd.Body.List[len(fd.Body.List)-1].(*ast.ExprStmt).X.(*ast.CallExpr).Args
			for i, a := range args {
				name := strings.TrimPrefix(want[i], "&")
				typ := pkg.Scope().Lookup(name).Type()
				// without a type the variable cannot be trapped
				unnamed := strings.Contains(typ.String(), ".un")
				c, ok := a.(*ast.CallExpr)
				if !ok {
					svAssert(unnamed, "a use of a variable in another file is not replaced")
					continue
				}
				fn, ok := c.Fun.(*ast.Ident)
				svAssert(ok && getters[fn.Name] == want[i], "replaced by the getter of something else")
				if want[i][0] == '&' {
					typ = types.NewPointer(typ)
				}
				svAssert(types.Identical(info.Types[a].Type, typ), "the type of a use changed")
			}
		}
	}
	svAssert(n == 2, "a function is missing")
	svReach("done")
}
