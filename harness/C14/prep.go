//gosx:pkg . cmd/xgo
//gosx:replace cmd/xgo/internal/vendir/golang.org/x/text/collate/tables.go tables.txt
//gosx:replace support/cmd/cmd.go cmd.txt
//gosx:replace support/zzsvembed/embed.go embedfs.txt
//gosx:import instrument/embed/*.go embed github.com/xhd2015/xgo/support/zzsvembed
//gosx:import cmd/xgo/asset/*.go embed github.com/xhd2015/xgo/support/zzsvembed
//gosx:import cmd/xgo/*.go embed github.com/xhd2015/xgo/support/zzsvembed
package main

import (
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strings"

	"github.com/xhd2015/xgo/instrument/overlay"
	"github.com/xhd2015/xgo/support/cmd"
	"github.com/xhd2015/xgo/support/goinfo"
	zembed "github.com/xhd2015/xgo/support/zzsvembed"
)

const svTrace = "github.com/xhd2015/xgo/runtime/trace"
const svRuntime = "github.com/xhd2015/xgo/runtime"

func svWrite(file string, content string) {
	os.MkdirAll(filepath.Dir(file), 0755)
	if err := os.WriteFile(file, []byte(content), 0644); err != nil {
		panic(err)
	}
}

func svRead(file string) string {
	b, err := os.ReadFile(file)
	if err != nil {
		return "!" + err.Error()
	}
	return string(b)
}

func svHas(list []string, s string) bool {
	for _, e := range list {
		if e == s {
			return true
		}
	}
	return false
}

// SV_gitignore: the line that ignores the generated directory is added at the end
// unless there is one, with possibly white space or a comment after it; all other
// lines stay, and adding twice is adding once.
//
//gosx:bounds contents of 4 (thorough 6) bytes of "p", "/", "#", " ", tab and newline, with the pattern at any place or not
//gosx:budget quick=40s thorough=200s
func SV_gitignore() {
	n := 4 + 2*svTier()
	pattern := "p/"
	s := svStrIn("s", n, "p/# \t\n")
	content := s
	if k := svChoose("at", n+2); k <= n {
		pattern = XGO_GEN_IGNORE_PATTERN
		content = s[:k] + pattern + s[k:]
	}
	// the buffer may be longer than what it holds
	in := append(make([]byte, 0, len(content)+svChoose("cap", 2)*64), content...)
	out, updated := gitignoreAdd(in, pattern)
	lines := strings.Split(content, "\n")
	ignored := false
	for _, l := range lines {
		if strings.HasPrefix(l, pattern) {
			rest := l[len(pattern):]
			t := strings.TrimLeft(rest, " \t")
			if t == "" || t[0] == '#' && len(t) < len(rest) {
				ignored = true
			}
		}
	}
	svAssert(string(in) == content, "the content given is changed")
	svAssert(updated == !ignored, "the line is added exactly if there is none")
	want := content
	if !ignored {
		if content != "" && !strings.HasSuffix(content, "\n") {
			want += "\n"
		}
		want += pattern + "\n"
	}
	svAssert(string(out) == want, "other lines change")
	again, updated := gitignoreAdd(out, pattern)
	svAssert(!updated && string(again) == want, "adding again changes the file")
	svReach("added")
}

// svFile is a Go file with symbolic text around its package clause and imports.
func svFile() string {
	n := 2 + svTier()
	gap := func(name string, n int) string { return svStrIn(name, n, " \n/*;\rz") }
	head := []string{"", "/*package z*/ ", "/*\npackage z\n*/\n", "//go:build linux\n\n"}
	imports := []string{"", `import "fmt"`, `import ("fmt"; "os")`, "import (\n\t\"fmt\"\n)", `import x "fmt"`, "/*cgo*/ import \"C\""}
	body := []string{"func f() {}\n", "// doc\nvar v = `import _ \"" + svTrace + "\"`\n"}
	switch svChoose("where", 4) {
	case 0: // before the package clause and within it
		return gap("h", n+1) + "package" + gap("p", n) + " a\n" + body[1]
	case 1: // after it
		return head[svChoose("head", 4)] + "package a" + gap("g", n+2) + imports[svChoose("import", 6)] + "\n" + body[1]
	case 2: // after an import
		return head[1] + "package a\n" + imports[1+svChoose("import", 5)] + gap("g", n+1) + body[svChoose("body", 2)]
	default: // between imports
		return "package a;" + imports[1+svChoose("import", 5)] + gap("g", n+1) + imports[1+svChoose("import2", 2+3*svTier())] + "\n\n" + body[1]
	}
}

// svParse gives imports, other declarations with their lines and comments.
func svParse(src string) (*token.FileSet, *ast.File) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "a.go", src, parser.ParseComments)
	if err != nil {
		return nil, nil
	}
	return fset, f
}

// SV_blank: a blank import of the trace package is added to a file that parses:
// the result parses, has all declarations and comments it had, on the same
// lines, the import once more than before, and otherwise the same text.
//
//gosx:bounds files with up to 2 import declarations of 5 kinds after 4 kinds of comments, with 2-4 (thorough 3-5) symbolic bytes of white space, comments and semicolons before, in and after the package clause, after an import or between two, that parse
//gosx:budget quick=60s thorough=300s
func SV_blank() {
	src := svFile()
	fset, f := svParse(src)
	if f == nil {
		return
	}
	out, ok := addBlankImport(src)
	svAssert(ok, "no import is added to a correct file")
	fset2, f2 := svParse(out)
	svAssert(f2 != nil, "the result does not parse")
	count := func(f *ast.File) int {
		n := 0
		for _, s := range f.Imports {
			if s.Path.Value == `"`+svTrace+`"` && s.Name != nil && s.Name.Name == "_" {
				n++
			}
		}
		return n
	}
	svAssert(count(f2) == 1 && len(f2.Imports) == len(f.Imports)+1, "the package is imported once")
	svAssert(len(f2.Decls) == len(f.Decls)+1 && len(f2.Comments) == len(f.Comments), "declarations or comments are lost")
	j := 0
	for _, d := range f2.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT && len(g.Specs) == 1 && g.Specs[0].(*ast.ImportSpec).Path.Value == `"`+svTrace+`"` {
			continue
		}
		svAssert(j < len(f.Decls), "other declarations")
		svAssert(fset2.Position(d.Pos()).Line == fset.Position(f.Decls[j].Pos()).Line, "a declaration moves to another line")
		if g, ok := d.(*ast.GenDecl); ok {
			svAssert((g.Doc == nil) == (f.Decls[j].(*ast.GenDecl).Doc == nil), "the comment of a declaration is separated from it")
		}
		j++
	}
	for i, c := range f2.Comments {
		svAssert(fset2.Position(c.Pos()).Line == fset.Position(f.Comments[i].Pos()).Line, "a comment moves to another line")
	}
	// nothing is removed
	for _, d := range f2.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT && strings.Contains(out[fset2.Position(g.Pos()).Offset:fset2.Position(g.End()).Offset], svTrace) {
			i := fset2.Position(g.Pos()).Offset
			for i > 0 && (out[i-1] == ';' || out[i-1] == ' ') && (i > len(src) || out[i-1] != src[i-1]) {
				i--
			}
			svAssert(out[:i] == src[:i] && strings.HasSuffix(out, src[i:]), "text of the file is lost")
		}
	}
	svReach("imported")
}

// SV_effective: the import is added to what the compiler would read for the file,
// the text or file that replaces it if any, and not again if it is there.
//
//gosx:bounds a file with symbolic comments, without, with a blank or named import, or the import in a comment; not replaced, replaced by another such file, a text, deleted or missing
func SV_effective() {
	dir := svTempDir()
	c := "//" + svStrIn("c", 2, "c/ \"i") + "\n"
	variants := []string{c + "package a\n", "package a\n\nimport _ \"" + svTrace + "\"\n", "package a\n\nimport (\n\tt \"" + svTrace + "\"\n)\nvar x = t.X\n", c + "package a\n\n// import _ \"" + svTrace + "\"\n", "package a\nimport _ `" + svTrace + "`\n"}
	imports := []bool{false, true, true, false, true}
	v := svChoose("v", 5)
	w := svChoose("w", 5)
	src := overlay.AbsFile(dir + "/a.go")
	prep := overlay.AbsFile(dir + "/gen/a.go")
	svWrite(string(prep), "prep")
	fs := overlay.MakeOverlay()
	eff := v
	kind := svChoose("kind", 4)
	if kind != 3 {
		svWrite(string(src), variants[v])
	}
	switch kind {
	case 1:
		svWrite(dir+"/b.go", variants[w])
		fs.OverrideFile(src, overlay.AbsFile(dir+"/b.go"))
		eff = w
	case 2:
		fs.OverrideContent(src, variants[w])
		eff = w
	}
	err := applyBlankImportThroughOverlay(fs, map[overlay.AbsFile]overlay.AbsFile{src: prep})
	svAssert(err == nil, "no error")
	hit, got, err := fs.Read(src)
	svAssert(err == nil, "readable")
	if kind == 3 {
		svAssert(got == "prep", "a file that cannot be read is taken from the prepared copy")
		return
	}
	want := variants[eff]
	if imports[eff] {
		svAssert(got == want && hit == (kind == 2), "a file that has the import changes")
	} else {
		want, _ = addBlankImport(want)
		svAssert(hit && got == want, "the import is not added to what is compiled")
	}
	for _, f := range []struct {
		file string
		v    int
	}{{"/a.go", v}, {"/b.go", w}} {
		if f.file == "/a.go" || kind == 1 {
			svAssert(svRead(dir+f.file) == variants[f.v], "a file of the user changes")
		}
	}
	svReach("added")
}

// SV_pkgfiles: of the packages to build those that do not import the trace
// package get the import in one of their files, those with tests only in each of
// these; files of the user and of the standard library are not written.
//
//gosx:bounds 2 packages with 0-2 files with a symbolic byte each, 0-2 tests and 0-1 external tests, importing the trace package or not, in the standard library or not
//gosx:budget quick=30s thorough=60s
func SV_pkgfiles() {
	dir := svTempDir()
	type pkg struct {
		dir, std         string
		files, test, ext []string
		imports          bool
	}
	var pkgs []pkg
	out := ""
	list := func(l []string) string {
		if len(l) == 0 {
			return "null"
		}
		return `["` + strings.Join(l, `","`) + `"]`
	}
	all := map[string]string{}
	for _, name := range []string{"p", "q"} {
		p := pkg{dir: dir + "/src/" + name, std: "false"}
		if svChoose(name+"std", 2) == 1 {
			p.std = "true"
		}
		p.files = []string{"a.go", "b.go"}[:svChoose(name+"files", 3)]
		p.test = []string{"a_test.go", "b_test.go"}[:svChoose(name+"test", 3)]
		p.ext = []string{"x_test.go"}[:svChoose(name+"ext", 2)]
		p.imports = len(p.files) > 0 && svChoose(name+"imports", 2) == 1
		imp := []string{"fmt"}
		if p.imports {
			imp = []string{"fmt", svTrace}
		}
		for _, f := range append(append(append([]string{}, p.files...), p.test...), p.ext...) {
			pk := name
			if f == "x_test.go" {
				pk += "_test"
			}
			all[p.dir+"/"+f] = "package " + pk + " " + svSel(f == "a.go" || f == "a_test.go", name+f) + "\n"
		}
		pkgs = append(pkgs, p)
		out += "{\n\t\"Dir\": \"" + p.dir + "\", \"ImportPath\": \"m/" + name + "\", \"Standard\": " + p.std +
			", \"GoFiles\": " + list(p.files) + ", \"TestGoFiles\": " + list(p.test) + ", \"XTestGoFiles\": " + list(p.ext) + ", \"Imports\": " + list(imp) + ", \"Other\": 1}\n"
	}
	for f, c := range all {
		svWrite(f, c)
	}
	cmd.Calls = nil
	cmd.Reply = func(string, []string) (string, error) { return out, nil }
	replace, err := addBlankImports("/goroot", "go", dir+"/src", []string{"./p", "./q"}, true, dir+"/gen")
	svAssert(err == nil, "no error")
	svAssert(len(cmd.Calls) == 1 && cmd.Calls[0].Dir == dir+"/src" && strings.Join(cmd.Calls[0].Args, " ") == "go list -json ./p ./q", "other packages are listed")
	n := 0
	for _, p := range pkgs {
		got := 0
		for _, f := range p.files {
			if dst := replace[p.dir+"/"+f]; dst != "" {
				got++
			}
		}
		if p.std == "true" || p.imports {
			svAssert(got == 0, "a package that needs no import gets it")
		} else if len(p.files) > 0 {
			svAssert(got == 1, "a package gets the import in one file")
		}
		for _, f := range append(append([]string{}, p.test...), p.ext...) {
			has := replace[p.dir+"/"+f] != ""
			svAssert(has == (p.std == "false" && len(p.files) == 0), "tests get the import if there is nothing else")
			if has {
				got++
			}
		}
		n += got
	}
	svAssert(n == len(replace), "other files are replaced")
	for f, dst := range replace {
		svAssert(strings.HasPrefix(dst, dir+"/gen/"), "written elsewhere")
		want, _ := addBlankImport(all[f])
		svAssert(svRead(dst) == want, "the file written is not the file with the import")
	}
	for f, c := range all {
		svAssert(svRead(f) == c, "a file of the user changes")
	}
	svReach("listed")
}

// SV_prepare: wherever in a module xgo is started, the generated module file is
// the one of the module, or of -modfile, with its checksums, the runtime of xgo
// added, and the language version kept from 1.18; each vendored module is taken
// from its directory in vendor, with its path, version and language version.
// Nothing of the user changes but .gitignore, and xgo writes below .xgo.
//
//gosx:bounds started in the root or a subdirectory with 4 forms of the project directory; go.mod or another -modfile, with or without checksums; 4 forms of the go directive with any 2 digits and 3 of the module directive; any 3 bytes of checksums; Go 1.25 and 1.27; 2 vendored modules in 5 forms of replacement, 2 symbolic bytes in their versions, 3 of annotations, with or without packages
//gosx:budget quick=60s thorough=300s
func SV_prepare() {
	// quick: one group of choices varies at a time; thorough: the third with each
	focus := svChoose("focus", 3)
	group := func(g int, name string, n int, def int) int {
		if g == focus || svTier() > 0 && g == 2 {
			return svChoose(name, n)
		}
		return def
	}
	dir := svTempDir()
	root := dir + "/m"
	user := map[string]string{}
	put := func(f, c string) {
		user[f] = c
		svWrite(root+"/"+f, c)
	}
	d2 := svStrIn("go", 2, "0123456789")
	svAssume(d2[0] != '0')
	godir := []string{"1." + d2, "", "1." + d2[:1], "1." + d2 + ".0"}[group(0, "godir", 4, 0)]
	keep := godir != "" && len(godir) > 3 && (d2[0] > '1' || d2[1] >= '8')
	mod := []string{"module example.com/m", "module \"example.com/m\" // c", "// module x\nmodule\texample.com/m"}[group(0, "mod", 3, 0)] + "\n"
	if godir != "" {
		mod += []string{"\ngo ", "\n\tgo  "}[group(0, "godirf", 2, 0)] + godir + "\n"
	}
	modfile := ""
	put("go.mod", mod)
	put("a.go", "package m\n")
	put("sub/s.go", "package sub\n")
	if group(0, "modfile", 2, 0) == 1 {
		modfile = root + "/other.mod"
		put("other.mod", mod)
	}
	sum := group(0, "sum", 2, 1) == 1
	if sum {
		put("go.sum", svStr("gosum", 3))
		put("other.sum", svStr("othersum", 3))
	}
	type vmod struct{ path, version, gov string }
	var vendored []vmod
	if group(1, "vendor", 2, 1) == 1 {
		txt := ""
		tail := ""
		for i, path := range []string{"example.com/a", "example.com/b"} {
			name := "v" + string(rune('0'+i))
			r := []string{"", " => example.com/z v1.2.0", " => ./z", " => ../z", " => /abs/z"}[group(1, name+"r", 5, 2)]
			version := "v1." + svStrIn(name+"v", 1, "0123456789") + ".0" + []string{"-rc." + svStrIn(name+"rc", 1, "0123456789"), "+incompatible"}[i]
			k := 0
			if i == 0 || svTier() > 0 {
				k = group(1, name+"k", 3, 2)
			}
			txt += "# " + path + " " + version + r + "\n" + []string{"", "## explicit\n", "## explicit; go 1.19\n"}[k]
			if i == 0 || group(1, name+"pkgs", 2, 0) == 1 {
				txt += path + "\n" + path + "/p\n"
				vendored = append(vendored, vmod{path, version, []string{"1.16", "1.16", "1.19"}[k]})
				put("vendor/"+path+"/a.go", "package a\n")
			}
			if r != "" {
				tail += "# " + path + r + "\n"
			}
		}
		put("vendor/modules.txt", txt+tail)
	}
	ignore := group(2, "ignore", 2, 0) == 1
	if ignore {
		put(".gitignore", "*.out")
	}

	projectDir := ""
	abs := root
	switch group(2, "start", 5, 1) {
	case 0:
		os.Chdir(root)
	case 1:
		os.Chdir(root + "/sub")
		abs += "/sub"
	case 2:
		os.Chdir(root + "/sub")
		projectDir = ".."
	case 3:
		os.Chdir(root)
		projectDir = "sub"
		abs += "/sub"
	case 4:
		os.Chdir(dir)
		projectDir = root + "/sub"
		abs += "/sub"
	}
	cmd.Calls = nil
	cmd.Reply = func(d string, args []string) (string, error) {
		if args[0] == "git" {
			return root, nil
		}
		return "", nil
	}
	sub, mainModule, err := goinfo.ResolveMainModule(projectDir)
	svAssert(err == nil && mainModule == "example.com/m", "the module is not found")
	projectRoot, err := svProjectRoot(projectDir, sub)
	svAssert(err == nil, "project root")
	ar, _ := filepath.Abs(projectRoot)
	svAssert(ar == root, "the root of the module is not found")
	gen, err := getLocalXgoGenDir(projectRoot)
	svAssert(err == nil, "getLocalXgoGenDir")
	svAssert(svRead(root + "/.xgo/gen/go.mod")[:1] != "!", "the generated directory is no module of its own")
	minor := []int{25, 27}[group(0, "minor", 2, 0)]
	cmd.Calls = nil
	zembed.Files = map[string]string{
		"runtime_gen/go.mod.txt":              "module github.com/xhd2015/xgo/runtime\n",
		"runtime_gen/core/version.go":         "package core\n\nconst NUMBER = 12\n",
		"runtime_gen/trace/trace.go":          "package trace\n",
		"runtime_gen/internal/flags/flags.go": "package flags\n",
	}
	res, err := importRuntimeDepGenOverlay("build", "/goroot", "go", &goinfo.GoVersion{Major: 1, Minor: minor}, modfile, "", projectDir, projectRoot, gen, mainModule, "", false, true, nil)
	svAssert(err == nil && res != nil, "the runtime is not imported")
	genDir := root + "/.xgo/gen/"

	// the module file
	orig := root + "/go.mod"
	if modfile != "" {
		orig = modfile
	}
	svAssert(filepath.IsAbs(res.modfile) && strings.HasPrefix(res.modfile, genDir), "the module file is not generated")
	svAssert(svRead(res.modfile) == svRead(orig), "another module file is taken")
	gotSum := svRead(strings.TrimSuffix(res.modfile, ".mod") + ".sum")
	if sum {
		svAssert(gotSum == svRead(strings.TrimSuffix(orig, ".mod")+".sum"), "other checksums are taken")
	}
	var edits []string
	lang := godir
	if lang == "" {
		lang = "1.16"
	}
	for _, c := range cmd.Calls {
		if len(c.Args) > 2 && c.Args[1] == "mod" && c.Args[2] == "edit" {
			svAssert(c.Args[len(c.Args)-1] == res.modfile, "another file is edited")
			for _, e := range c.Args[3 : len(c.Args)-1] {
				edits = append(edits, e)
				if strings.HasPrefix(e, "-go=") {
					lang = e[4:]
				}
			}
		}
	}
	rt := res.runtimeModuleDir
	svAssert(strings.HasPrefix(rt, genDir) && svRead(rt + "/go.mod")[:1] != "!", "the runtime is not extracted")
	svAssert(svRead(rt+"/core/version.go") == "package core\n\nconst NUMBER = 12\n" && svRead(rt+"/internal/flags/flags.go") == "package flags\n" && svRead(rt + "/trace/trace.go")[:1] != "!", "the runtime is not complete")
	svAssert(svHas(edits, "-require="+svRuntime+"@v"+VERSION) && svHas(edits, "-replace="+svRuntime+"="+rt), "the runtime is not required")
	if !keep {
		svAssert(lang == godir || lang == "1.16" || lang == "1.18", "the language version of the project changes")
	} else {
		svAssert(lang == godir, "the language version of the project changes")
	}

	// vendored modules
	n := 2
	if lang != godir && !(godir == "" && lang == "1.16") {
		n++
	}
	svAssert(len(edits) == n+2*len(vendored), "other edits of the module file")
	svAssert(len(res.modReplace) == len(vendored), "other module files are replaced")
	svAssert((res.mod == "mod") == (len(vendored) > 0), "vendored packages are taken from vendor only with -mod=mod")
	for _, v := range vendored {
		d := root + "/vendor/" + v.path
		svAssert(svHas(edits, "-require="+v.path+"@"+v.version) && svHas(edits, "-replace="+v.path+"="+d), "a vendored module is not taken from vendor")
		m := svRead(string(res.modReplace[overlay.AbsFile(d+"/go.mod")]))
		svAssert(m == "module "+v.path+"\ngo "+v.gov+"\n", "a vendored module has a wrong path or language version")
	}

	// the files of the user
	for f, c := range user {
		got := svRead(root + "/" + f)
		if f == ".gitignore" {
			c += "\n**/.xgo/gen\n"
		}
		svAssert(got == c, "a file of the user changes")
	}
	if !ignore {
		svAssert(svRead(root+"/.gitignore") == "**/.xgo/gen\n", "the generated directory is not ignored")
	}
	for _, d := range []string{"", "/sub", "/vendor"} {
		entries, _ := os.ReadDir(root + d)
		for _, e := range entries {
			if _, ok := user[strings.TrimPrefix(d+"/"+e.Name(), "/")]; !ok && !e.IsDir() {
				svAssert(d == "" && e.Name() == ".gitignore", "a file is added to the project")
			}
			svAssert(e.Name() != ".xgo" || d == "", "xgo writes below a subdirectory")
		}
	}
	svReach("prepared")
}

func svProjectRoot(dir string, sub []string) (string, error) {
	return getProjectRoot(dir, sub)
}

// SV_batch: arguments given to several commands are all of them, in order, and
// never more than the limit in one.
//
//gosx:bounds 0-9 (thorough 20) arguments, limits of 1-4 (6)
func SV_batch() {
	n := svInt("n", 0, 9+11*svTier())
	limit := svInt("limit", 1, 4+2*svTier())
	var args []string
	for i := 0; i < n; i++ {
		args = append(args, svStrIn("a", 1, "ab-"))
	}
	k := 0
	for _, g := range splitArgsBatch(args, limit) {
		svAssert(len(g) <= limit, "too many arguments")
		for _, a := range g {
			svAssert(k < n && a == args[k], "another argument")
			k++
		}
	}
	svAssert(k == n, "arguments are lost")
	svReach("split")
}

func svSel(sym bool, name string) string {
	if !sym {
		return ""
	}
	return "//" + svStrIn(name, 1, "/;*a")
}
