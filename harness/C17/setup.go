//gosx:pkg . cmd/xgo
//gosx:replace cmd/xgo/internal/vendir/golang.org/x/text/collate/tables.go tables.txt
//gosx:replace support/cmd/cmd.go cmd.txt
//gosx:replace support/zzsvos/os.go os.txt
//gosx:replace support/zzsvexec/exec.go exec.txt
//gosx:replace support/zzsvembed/embed.go embedfs.txt
//gosx:replace support/zzsvpatch/instrument_go/p.go patchgo.txt
//gosx:replace support/zzsvpatch/instrument_runtime/p.go patchrt.txt
//gosx:replace support/zzsvpatch/instrument_compiler/p.go patchcomp.txt
//gosx:const support/filecopy/copy.go BUF_SIZE 64
//gosx:import cmd/xgo/*.go os github.com/xhd2015/xgo/support/zzsvos
//gosx:import support/filecopy/*.go os github.com/xhd2015/xgo/support/zzsvos
//gosx:import support/fileutil/*.go os github.com/xhd2015/xgo/support/zzsvos
//gosx:import instrument/embed/*.go os github.com/xhd2015/xgo/support/zzsvos
//gosx:import instrument/embed/*.go embed github.com/xhd2015/xgo/support/zzsvembed
//gosx:import cmd/xgo/asset/*.go embed github.com/xhd2015/xgo/support/zzsvembed
//gosx:import cmd/xgo/*.go embed github.com/xhd2015/xgo/support/zzsvembed
//gosx:import support/goinfo/goinfo.go os/exec github.com/xhd2015/xgo/support/zzsvexec
//gosx:import cmd/xgo/patch.go github.com/xhd2015/xgo/instrument/instrument_go github.com/xhd2015/xgo/support/zzsvpatch/instrument_go
//gosx:import cmd/xgo/patch.go github.com/xhd2015/xgo/instrument/instrument_runtime github.com/xhd2015/xgo/support/zzsvpatch/instrument_runtime
//gosx:import cmd/xgo/patch.go github.com/xhd2015/xgo/instrument/instrument_compiler github.com/xhd2015/xgo/support/zzsvpatch/instrument_compiler
package main

import (
	"os"
	"path/filepath"

	"github.com/xhd2015/xgo/cmd/xgo/asset"
	zembed "github.com/xhd2015/xgo/support/zzsvembed"
	zexec "github.com/xhd2015/xgo/support/zzsvexec"
	zos "github.com/xhd2015/xgo/support/zzsvos"
)

func svWrite(file string, content string) {
	os.MkdirAll(filepath.Dir(file), 0755)
	if err := os.WriteFile(file, []byte(content), 0644); err != nil {
		panic(err)
	}
}

// svTree gives the files below dir, links as what they point to.
func svTree(dir string) map[string]string {
	m := map[string]string{}
	var walk func(d string)
	walk = func(d string) {
		es, err := os.ReadDir(filepath.Join(dir, d))
		if err != nil {
			m[d] = "!" + err.Error()
		}
		for _, e := range es {
			p := filepath.Join(d, e.Name())
			switch {
			case e.IsDir():
				m[p] = "dir"
				walk(p)
			case e.Type()&os.ModeSymlink != 0:
				s, _ := os.Readlink(filepath.Join(dir, p))
				m[p] = "->" + s
			default:
				b, err := os.ReadFile(filepath.Join(dir, p))
				if err != nil {
					panic(err)
				}
				m[p] = "file:" + string(b)
			}
		}
	}
	walk("")
	return m
}

// svSame tells whether two trees are the same.
func svSame(a, b map[string]string) bool {
	same := len(a) == len(b)
	for k, v := range a {
		w, ok := b[k]
		if !ok {
			return false
		}
		same = svAnd(same, v == w)
	}
	return same
}

// svRun runs f as a process that dies before the at-th step, if at >= 0.
func svRun(at int, f func() error) (err error, died bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(zos.Crashed); !ok {
				panic(e)
			}
			died = true
		}
		zos.Start(-1)
	}()
	zos.Start(at)
	return f(), false
}

// svRunFail runs f as a process of which the at-th step fails, if at >= 0.
func svRunFail(at int, f func() error) (err error, failed bool) {
	zos.Start(-1)
	zos.FailAt = at
	err = f()
	failed = zos.Failed
	zos.Start(-1)
	return err, failed
}

// svGoroot writes a GOROOT with the symbolic contents s.
func svGoroot(dir string, s string) {
	svWrite(dir+"/bin/go", "go")
	svWrite(dir+"/src/cmd/go.go", "go"+s)
	svWrite(dir+"/src/cmd/cover.go", "cover")
	svWrite(dir+"/src/cmd/compile.go", "compile")
	svWrite(dir+"/src/runtime/proc.go", "proc"+s)
	svWrite(dir+"/pkg/tool/compile", "compile")
	svWrite(dir+"/pkg/tool/link", "link"+s)
	svWrite(dir+"/VERSION", "go1.22.1")
	os.Symlink("proc.go", dir+"/src/runtime/link")
}

var _ = asset.RuntimeGen

// svWorld is a machine with a GOROOT, a project and homes.
type svWorld struct{ tmp, goroot string }

func svNew() *svWorld {
	w := &svWorld{tmp: svTempDir()}
	zos.Version, zos.Last = "new", ""
	zos.Tmp, zos.Wd = w.tmp+"/tmp", w.tmp+"/proj"
	svWrite(w.tmp+"/proj/go.mod", "module m\n")
	os.MkdirAll(zos.Tmp, 0755)
	zembed.Files = map[string]string{"runtime_gen/internal/runtime/xgo_trap_template.go": "trap"}
	zexec.Reply = func(args []string) (string, error) { return "go version go1.22.1 linux/amd64\n", nil }
	w.goroot = w.tmp + "/go"
	svGoroot(w.goroot, svStr("src", 1))
	return w
}

// setup runs xgo setup under a home until its at-th step.
func (w *svWorld) setup(home string, at int, more ...string) (error, bool) {
	zos.Home = w.tmp + "/" + home
	os.MkdirAll(zos.Home, 0755)
	args := append([]string{"--project-dir", w.tmp + "/proj", "--with-goroot", w.goroot}, more...)
	return svRun(at, func() error { return handleBuild("setup", args) })
}

// setupFail runs xgo setup under a home with its at-th step failing.
func (w *svWorld) setupFail(home string, at int, more ...string) (error, bool) {
	zos.Home = w.tmp + "/" + home
	os.MkdirAll(zos.Home, 0755)
	args := append([]string{"--project-dir", w.tmp + "/proj", "--with-goroot", w.goroot}, more...)
	return svRunFail(at, func() error { return handleBuild("setup", args) })
}

// dir is the directory of the prepared GOROOT.
func (w *svWorld) dir(home string) string {
	es, err := os.ReadDir(w.tmp + "/" + home + "/.xgo/go-instrument")
	if err != nil || len(es) != 1 {
		return ""
	}
	return w.tmp + "/" + home + "/.xgo/go-instrument/" + es[0].Name()
}

const svGoName = "go1.22.1"

// SV_setup: whenever xgo is killed while it prepares the patched GOROOT, the
// next xgo, of that version or of the version before, does not take what is
// left for a prepared one: after it, the GOROOT is as if nothing had happened.
//
//gosx:bounds one GOROOT of 9 files with a symbolic byte, prepared before by none, the same or another version of xgo; a run of setup, also with --reset-instrument or --delete, or with the GOROOT gone, killed before any of its steps (files are created empty and then written); of a directory the record of the version is removed in order or last; then one run
//gosx:budget quick=60s thorough=120s
func SV_setup() {
	w := svNew()
	err, _ := w.setup("ref", -1)
	svAssert(err == nil && w.dir("ref") != "", "setup fails")
	steps := zos.Total
	ref := svTree(w.dir("ref") + "/" + svGoName)
	rev := svTree(w.dir("ref"))["xgo-revision.txt"]
	svAssert(len(ref) == 16 && len(rev) > 6, "the GOROOT is not as expected")

	before := svChoose("before", 3)
	var prev map[string]string
	if before > 0 {
		if before == 2 {
			zos.Version = "old"
		}
		err, _ = w.setup("home", -1)
		svAssert(err == nil, "setup fails")
		prev = svTree(w.dir("home") + "/" + svGoName)
		if before == 2 {
			svWrite(w.dir("home")+"/xgo-revision.txt", "older")
		}
		zos.Version = "new"
	}
	var opts []string
	op := svChoose("op", 4)
	switch op {
	case 1:
		opts = []string{"--reset-instrument"}
	case 2:
		opts = []string{"--delete"}
	case 3:
		if before == 0 {
			return
		}
		os.RemoveAll(w.dir("home") + "/" + svGoName)
	}
	zos.Last = []string{"", "xgo-revision.txt"}[svChoose("last", 2)]
	_, died := w.setup("home", svInt("at", 0, steps+40), opts...)
	if !died {
		return
	}
	svReach("died")
	if before == 2 {
		// the other version finds its own revision
		if t := svTree(w.dir("home")); t["xgo-revision.txt"] == "file:older" && t[svGoName] == "dir" {
			svAssert(svSame(svTree(w.dir("home")+"/"+svGoName), prev), "the version before takes a half prepared GOROOT for its own")
		}
	}
	err, _ = w.setup("home", -1)
	svAssert(err == nil, "the next run fails")
	svAssert(w.dir("home") != "", "no GOROOT is prepared")
	svAssert(svSame(svTree(w.dir("home")+"/"+svGoName), ref), "the next run takes a half prepared GOROOT for a prepared one")
	svAssert(svTree(w.dir("home"))["xgo-revision.txt"] == rev, "the version is not recorded")
}

// SV_setup_fail: when a step of preparing the GOROOT fails, xgo says so, or
// the GOROOT is complete; and the next run repairs it.
//
//gosx:bounds as SV_setup, with the step failing (no space) and xgo going on; prepared before by none, the same or another version
//gosx:budget quick=40s thorough=80s
func SV_setup_fail() {
	w := svNew()
	err, _ := w.setup("ref", -1)
	svAssert(err == nil && w.dir("ref") != "", "setup fails")
	steps := zos.Total
	ref := svTree(w.dir("ref") + "/" + svGoName)
	var opts []string
	switch svChoose("before", 3) {
	case 1:
		err, _ = w.setup("home", -1)
		svAssert(err == nil, "setup fails")
		opts = []string{"--reset-instrument"}
	case 2:
		zos.Version = "old"
		err, _ = w.setup("home", -1)
		svAssert(err == nil, "setup fails")
		svWrite(w.dir("home")+"/xgo-revision.txt", "older")
		zos.Version = "new"
	}
	err, failed := w.setupFail("home", svInt("at", 0, steps+40), opts...)
	if failed {
		svReach("failed")
	}
	if err == nil {
		svAssert(svSame(svTree(w.dir("home")+"/"+svGoName), ref), "a failing step leaves the GOROOT incomplete, and xgo reports success")
	}
	err, _ = w.setup("home", -1)
	svAssert(err == nil, "the next run fails")
	svAssert(svSame(svTree(w.dir("home")+"/"+svGoName), ref), "the next run takes a half prepared GOROOT for a prepared one")
}
