//gosx:pkg . instrument/instrument_func
package instrument_func

import (
	"go/ast"
	"go/parser"
	"go/token"
	"strings"

	"github.com/xhd2015/xgo/instrument/config"
	"github.com/xhd2015/xgo/instrument/resolve"
	"github.com/xhd2015/xgo/support/edit/goedit"
)

type svSel struct {
	mode      config.InstrumentMode
	rec       *resolve.PkgRecorder
	cfg       *config.PkgConfig
	main      bool
	force     bool
	recName   string
	recMock   bool
	recMethod string
	white     string
	prefix    string
}

func svOptions() *svSel {
	s := &svSel{mode: config.InstrumentMode(svChoose("mode", 3))}
	switch svChoose("recorder", 3) {
	case 1:
		s.recName, s.recMock = svStrIn("recName", 1, "aAT"), svBool("recMock")
		s.rec = &resolve.PkgRecorder{}
		s.rec.GetOrInit(s.recName).HasMockRef = s.recMock
	case 2:
		s.recMethod = svStrIn("recMethod", 1, "aA")
		s.rec = &resolve.PkgRecorder{}
		s.rec.GetOrInit("T").AddMockName(s.recMethod)
	}
	switch svChoose("config", 3) {
	case 1:
		s.white = []string{svStrIn("white", 1, "aA"), "T." + svStrIn("white", 1, "aA"), "(*T)." + svStrIn("white", 1, "aA")}[svChoose("whiteKind", 3)]
		s.cfg = &config.PkgConfig{WhitelistFunc: map[string]bool{s.white: true}}
	case 2:
		s.prefix = svStrIn("prefix", svChoose("prefixLen", 3), "aA(")
		s.cfg = &config.PkgConfig{WhitelistFuncPrefix: []string{s.prefix, "x"}}
	}
	switch svChoose("where", 3) {
	case 1:
		s.main = true
	case 2:
		s.force = true
	}
	return s
}

// selected: must the function be instrumented, and may it be
func (s *svSel) selected(name, recv, identity string) (must, may bool) {
	if s.mode == config.InstrumentMode_All {
		return true, true
	}
	recorded := false
	if s.rec != nil {
		if s.recMock && s.recName == name {
			// a function of this name is mocked; harmless for methods
			may = true
			if recv == "" {
				recorded = true
			}
		}
		if recv == "T" && s.recMethod == name {
			recorded = true
		}
	}
	if recorded {
		return true, true
	}
	if s.cfg != nil {
		if s.white != "" && s.white == identity {
			return true, true
		}
		if s.prefix != "" && strings.HasPrefix(identity, s.prefix) {
			return true, true
		}
		return false, may
	}
	if s.mode == config.InstrumentMode_Exported && name[0] >= 'A' && name[0] <= 'Z' {
		return true, true
	}
	return false, may
}

// Which functions are instrumented, in place for packages of the main module
// and otherwise left to the compiler.
//
//gosx:bounds a function and two methods, all modes, one recorded function or method, one whitelisted name or prefix, all names of one letter
//gosx:budget quick=40s thorough=60s
func SV_selection() {
	s := svOptions()
	n1, n2, n3 := svStrIn("fn", 1, "aA"), svStrIn("m", 1, "aA"), svStrIn("m2", 1, "aA")
	src := "package p\n\nfunc " + n1 + "() {}\n\nfunc (t *T) " + n2 + "(x int) {}\n\nfunc (T) " + n3 + "() {}\n"
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "a.go", src, parser.ParseComments)
	svAssume(err == nil)
	ed := goedit.New(fset, src)
	infos, extra := TrapFuncs(ed, "p", f, 0, Options{PkgRecorder: s.rec, PkgConfig: s.cfg, Main: s.main, ForceInPlace: s.force, InstrumentMode: s.mode})
	var ids []string
	inPlace := s.main || s.force
	if inPlace {
		svAssert(len(extra) == 0, "functions instrumented in place are left to the compiler as well")
		for _, i := range infos {
			ids = append(ids, i.IdentityName)
		}
	} else {
		svAssert(len(infos) == 0 && ed.String() == src, "a package outside of the main module is changed")
		for _, e := range extra {
			ids = append(ids, e.IdentityName)
		}
	}
	_, nf, err := svParse(ed.String())
	svAssert(err == nil, "the instrumented source does not parse")
	k := 0
	for i, c := range []struct{ name, recv, id string }{{n1, "", n1}, {n2, "T", "(*T)." + n2}, {n3, "T", "T." + n3}} {
		must, may := s.selected(c.name, c.recv, c.id)
		got := k < len(ids) && ids[k] == c.id
		svAssert(got || !must, "a function to be instrumented is not")
		svAssert(!got || may, "a function is instrumented although nothing selects it")
		if got {
			k++
		}
		stmts := len(nf.Decls[i].(*ast.FuncDecl).Body.List)
		svAssert((stmts > 0) == (got && inPlace), "what is reported is not what is instrumented")
	}
	svAssert(k == len(ids), "something else is instrumented")
}

// Packages outside of the main module: at most 16 functions of a file and
// not more than the quota of the package are instrumented, the first ones.
//
//gosx:bounds 18 functions, every quota, exported and all mode
//gosx:budget quick=40s thorough=60s
func SV_quota() {
	quota := svInt("quota", 0, 20)
	q := quota
	mode := []config.InstrumentMode{config.InstrumentMode_Exported, config.InstrumentMode_All}[svChoose("mode", 2)]
	src := "package p\n\n"
	for i := 0; i < 18; i++ {
		src += "func F" + string(rune('a'+i)) + "() {}\n"
	}
	_, f, err := svParse(src)
	svAssume(err == nil)
	fset := token.NewFileSet()
	f, _ = parser.ParseFile(fset, "a.go", src, 0)
	ed := goedit.New(fset, src)
	opts := Options{InstrumentMode: mode}
	if svBool("hasQuota") {
		opts.PkgExtraQuota = &q
	} else {
		quota = 100
		q = 100
	}
	_, extra := TrapFuncs(ed, "p", f, 0, opts)
	want := 18
	if mode != config.InstrumentMode_All {
		want = 16
		if quota < want {
			want = quota
		}
		if opts.PkgExtraQuota != nil {
			svAssert(q == quota-want, "the quota left is wrong")
		}
	}
	svAssert(len(extra) == want, "number of functions left to the compiler")
	for i, e := range extra {
		svAssert(e.IdentityName == "F"+string(rune('a'+i)), "not the first functions are taken")
	}
}
func svParse(src string) (*token.FileSet, *ast.File, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "a.go", src, parser.ParseComments)
	return fset, f, err
}

// The functions of package time that xgo itself calls to get the real time are
// never instrumented there; others of this package and functions of these
// names elsewhere are.
//
//gosx:bounds 2 functions and a method with names of 6 kinds and one symbolic letter, package time and paths like it, in place or left to the compiler, all or named functions only
//gosx:budget quick=20s thorough=40s
func SV_real_time() {
	pkg := []string{"time", "time/x", "x/time", "tim"}[svChoose("pkg", 4)]
	inPlace := svBool("inPlace")
	name := func(i string) string {
		c := svStrIn("c"+i, 1, "wRN")
		switch svChoose("name"+i, 4) {
		case 0:
			return "No" + c
		case 1:
			return "XgoRealNo" + c
		case 2:
			return "Xgo" + c + "ealSleep"
		}
		return "S" + c
	}
	a, b, m := name("a"), name("b"), name("m")
	src := "package p\n\nfunc " + a + "() {}\n\nfunc (T) " + m + "() {}\n\nfunc " + b + "() {}\n"
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "a.go", src, parser.ParseComments)
	svAssume(err == nil)
	ed := goedit.New(fset, src)
	infos, extra := TrapFuncs(ed, pkg, f, 0, Options{ForceInPlace: inPlace, InstrumentMode: config.InstrumentMode_All})
	var ids []string
	for _, i := range infos {
		ids = append(ids, i.IdentityName)
	}
	for _, e := range extra {
		ids = append(ids, e.IdentityName)
	}
	k := 0
	for _, id := range []string{a, "T." + m, b} {
		if pkg == "time" && (id == "XgoRealNow" || id == "XgoRealSleep") {
			continue
		}
		if pkg == "time" && (id == "T.XgoRealNow" || id == "T.XgoRealSleep") {
			// there is no such method
			if k < len(ids) && ids[k] == id {
				k++
			}
			continue
		}
		svAssert(k < len(ids) && ids[k] == id, "a function other than those of the real time is left out")
		k++
	}
	svAssert(k == len(ids), "the function xgo gets the real time from is instrumented")
}
