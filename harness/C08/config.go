//gosx:pkg . instrument/config
package config

func svWithin(p, m string) bool {
	return p == m || len(p) > len(m) && p[:len(m)] == m && p[len(m)] == '/'
}

// The packages that are never instrumented.
//
//gosx:bounds package paths from 10 known prefixes followed by 2 (thorough 4) arbitrary bytes
//gosx:budget quick=30s thorough=60s
func SV_packages() {
	base := []string{"", "runtime", "internal", "vendor", "unsafe", "sync", "testin", "reflect", "github.com/xhd2015/xgo/runtime", "github.com/xhd2015/xgo/runtime/test", "github.com/xhd2015/xgo/runtime/internal", "syscal", "a/internal"}[svChoose("base", 13)]
	p := base + svStrIn("rest", svChoose("len", 3+2*svTier()), "/ag-l")
	isXgo, allow := CheckInstrument(p)
	xgo := "github.com/xhd2015/xgo/runtime"
	wantXgo := svWithin(p, xgo) && !svWithin(p, xgo+"/test")
	svAssert(isXgo == wantXgo, "whether a package is the runtime of xgo")
	never := wantXgo || svWithin(p, "runtime") || svWithin(p, "internal") || svWithin(p, "vendor")
	for _, n := range []string{"unsafe", "runtime", "syscall", "reflect", "sync", "sync/atomic", "testing"} {
		never = never || p == n
	}
	svAssert(allow == !never, "whether a package may be instrumented")
}

// The mode of a package: everything in main and named packages, exported
// functions of other packages if asked for, never the standard library.
//
//gosx:budget quick=30s thorough=30s
func SV_mode() {
	std, main, initial, all := svBool("stdlib"), svBool("main"), svBool("initial"), svBool("trapAll")
	m := CheckInstrumentMode(std, main, initial, all)
	svAssert((m == InstrumentMode_All) == (main || initial), "everything is instrumented in main and named packages only")
	svAssert((m == InstrumentMode_Exported) == (!main && !initial && !std && all), "exported functions of other packages")
}
