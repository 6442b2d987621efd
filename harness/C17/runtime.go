//gosx:pkg . cmd/xgo
package main

import (
	"os"

	"github.com/xhd2015/xgo/instrument/constants"
	"github.com/xhd2015/xgo/support/goinfo"
	zembed "github.com/xhd2015/xgo/support/zzsvembed"
	zos "github.com/xhd2015/xgo/support/zzsvos"
)

// svExtract runs the extraction of the runtime module below dir.
func svExtract(tmp, dir string, force bool) error {
	_, err := loadDependency(tmp+"/go", "go", &goinfo.GoVersion{Major: 1, Minor: 22}, "", "", tmp+"/proj", constants.RUNTIME_MODULE, "", dir+"/overlay", dir+"/runtime", force)
	return err
}

func svRuntimeFiles(number string, content string) map[string]string {
	return map[string]string{
		"runtime_gen/go.mod.txt":                            "module github.com/xhd2015/xgo/runtime\n",
		"runtime_gen/core/version.go":                       "package core\n\nconst NUMBER = " + number + "\n",
		"runtime_gen/core/func.go":                          "package core" + content,
		"runtime_gen/trace/trace.go":                        "package trace" + content,
		"runtime_gen/trap/flags/flags.go":                   "package flags" + content,
		"runtime_gen/internal/runtime/xgo_trap_template.go": "trap" + content,
	}
}

// SV_runtime_extract: whenever xgo is killed while it extracts its runtime
// module for a project, the next xgo does not take what is left for complete:
// it leaves the module as if nothing had happened.
//
//gosx:bounds a module of 6 files with a symbolic byte; extracted before by none, the same or an older version; a run of loadDependency, forced or not, killed before any of its steps (files are created empty and then written); of a directory version.go or its directory is removed in order or last; then one run, not forced
//gosx:budget quick=40s thorough=80s
func SV_runtime_extract() {
	tmp := svTempDir()
	zos.Tmp, zos.Wd, zos.Last = tmp+"/tmp", tmp+"/proj", ""
	svWrite(tmp+"/proj/go.mod", "module "+constants.RUNTIME_MODULE+"\n")
	c := svStr("content", 1)
	zembed.Files = svRuntimeFiles("12", c)
	err, _ := svRun(-1, func() error { return svExtract(tmp, tmp+"/ref", true) })
	svAssert(err == nil, "the extraction fails")
	steps := zos.Total
	ref := svTree(tmp + "/ref/runtime")
	svAssert(len(ref) == 12 && ref["go.mod"] != "" && ref["core/version.go"] != "", "the module is not as expected")

	dir := tmp + "/home"
	before := svChoose("before", 3)
	if before > 0 {
		if before == 2 {
			zembed.Files = svRuntimeFiles("9", "older")
			zembed.Files["runtime_gen/trace/removed.go"] = "package trace"
		}
		err, _ = svRun(-1, func() error { return svExtract(tmp, dir, false) })
		svAssert(err == nil, "the extraction fails")
		zembed.Files = svRuntimeFiles("12", c)
	}
	force := svChoose("force", 2) == 1
	zos.Last = []string{"", "version.go", "core"}[svChoose("last", 3)]
	_, died := svRun(svInt("at", 0, steps+24), func() error { return svExtract(tmp, dir, force) })
	if died {
		svReach("died")
	}
	err, _ = svRun(-1, func() error { return svExtract(tmp, dir, false) })
	svAssert(err == nil, "the next run fails")
	svAssert(svSame(svTree(dir+"/runtime"), ref), "the next run takes a half extracted runtime for complete")
}

// SV_runtime_fail: when a step of the extraction fails, xgo says so, or the
// module is complete; and the next run repairs it.
//
//gosx:bounds as SV_runtime_extract, with the step failing (no space) and xgo going on
//gosx:budget quick=20s thorough=60s
func SV_runtime_fail() {
	tmp := svTempDir()
	zos.Tmp, zos.Wd, zos.Last = tmp+"/tmp", tmp+"/proj", ""
	svWrite(tmp+"/proj/go.mod", "module "+constants.RUNTIME_MODULE+"\n")
	zembed.Files = svRuntimeFiles("12", svStr("content", 1))
	err, _ := svRun(-1, func() error { return svExtract(tmp, tmp+"/ref", true) })
	svAssert(err == nil, "the extraction fails")
	steps := zos.Total
	ref := svTree(tmp + "/ref/runtime")
	dir := tmp + "/home"
	if svChoose("before", 2) == 1 {
		err, _ = svRun(-1, func() error { return svExtract(tmp, dir, false) })
		svAssert(err == nil, "the extraction fails")
	}
	err, failed := svRunFail(svInt("at", 0, steps+24), func() error { return svExtract(tmp, dir, svBool("force")) })
	if failed {
		svReach("failed")
	}
	if err == nil {
		svAssert(svSame(svTree(dir+"/runtime"), ref), "a failing step leaves the runtime incomplete, and xgo goes on with it")
	}
	err, _ = svRun(-1, func() error { return svExtract(tmp, dir, false) })
	svAssert(err == nil, "the next run fails")
	svAssert(svSame(svTree(dir+"/runtime"), ref), "the next run takes a half extracted runtime for complete")
}

var _ = os.Stat
