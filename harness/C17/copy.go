//gosx:pkg . support/filecopy
package filecopy

import (
	"os"
	"path/filepath"
	"strings"

	zos "github.com/xhd2015/xgo/support/zzsvos"
)

func svWrite(file string, content string) {
	os.MkdirAll(filepath.Dir(file), 0755)
	if err := os.WriteFile(file, []byte(content), 0644); err != nil {
		panic(err)
	}
}

// svTree gives the files below dir, links as what they point to.
func svTree(dir string) map[string]string {
	m := map[string]string{}
	var walk func(d string)
	walk = func(d string) {
		es, err := os.ReadDir(filepath.Join(dir, d))
		if err != nil {
			m[d] = "!" + err.Error()
		}
		for _, e := range es {
			p := filepath.Join(d, e.Name())
			switch {
			case e.IsDir():
				m[p] = "dir"
				walk(p)
			case e.Type()&os.ModeSymlink != 0:
				s, _ := os.Readlink(filepath.Join(dir, p))
				m[p] = "->" + s
			default:
				b, err := os.ReadFile(filepath.Join(dir, p))
				if err != nil {
					panic(err)
				}
				m[p] = "file:" + string(b)
			}
		}
	}
	walk("")
	return m
}

// svSame tells whether two trees are the same.
func svSame(a, b map[string]string) bool {
	same := len(a) == len(b)
	for k, v := range a {
		w, ok := b[k]
		if !ok {
			return false
		}
		same = svAnd(same, v == w)
	}
	return same
}

func svSource(dir string) {
	svWrite(dir+"/bin/go", svStr("go", 2))
	svWrite(dir+"/src/a.go", svStr("a", 1))
	svWrite(dir+"/src/a_test.go", "test")
	svWrite(dir+"/src/bin/b.go", strings.Repeat("0123456789", 20)+svStr("b", 1))
	svWrite(dir+"/VERSION", "")
	os.MkdirAll(dir+"/empty", 0755)
	os.Symlink("a.go", dir+"/src/link")
	os.Symlink("../src", dir+"/bin/dir")
}

// SV_copy: a directory is copied with all that it holds, wherever the path to
// it leads through symbolic links and by however many workers, and what the
// target held is gone or kept as asked.
//
//gosx:bounds one tree of 5 files with symbolic bytes, an empty directory, a link to a file and one to a directory; the source given itself or through one or two links with absolute or relative targets; 0..3 workers; into a new or an existing target, with or without removing; names with a symbolic byte in the filters
//gosx:budget quick=40s thorough=80s
func SV_copy() {
	tmp := svTempDir() + "/m"
	zos.Start(-1)
	zos.Wd = tmp + "/wd"
	svSource(tmp + "/real/go")
	all := svTree(tmp + "/real/go")
	svAssert(len(all) == 11, "the source is not as expected")
	src := tmp + "/real/go"
	switch svChoose("via", 5) {
	case 1:
		src = tmp + "/link"
		os.Symlink(tmp+"/real/go", src)
	case 2: // relative to where the link is
		src = tmp + "/link"
		os.Symlink("real/go", src)
	case 3: // a link to a link
		src = tmp + "/link"
		os.Symlink(tmp+"/current", src)
		os.Symlink(tmp+"/real/go", tmp+"/current")
	case 4:
		src = tmp + "/real/go/"
	}
	dst := tmp + "/out/go"
	stale := svBool("stale")
	if stale {
		svWrite(dst+"/src/stale.go", "stale")
		svWrite(dst+"/src/a.go", "a longer one than before")
	}
	opts := NewOptions().Concurrent(svChoose("workers", 4))
	want := map[string]string{}
	filter := svChoose("filter", 3)
	switch filter {
	case 1:
		ign := []string{"bin", "src/a.go", "src/bin", "nothing", "src/link"}[svChoose("ign", 5)]
		opts.Ignore(ign)
		for k, v := range all {
			if k != ign && !strings.HasPrefix(k, ign+"/") {
				want[k] = v
			}
		}
	case 2:
		inc, exc := []string{"", ".go", "go"}[svChoose("inc", 3)], []string{"", "_test.go"}[svChoose("exc", 2)]
		opts.IncludeSuffix(inc).IgnoreSuffix(exc)
		for k, v := range all {
			if v == "dir" || strings.HasSuffix(k, inc) && inc != "" && !(exc != "" && strings.HasSuffix(k, exc)) {
				want[k] = v
			}
		}
	default:
		for k, v := range all {
			want[k] = v
		}
	}
	keep := stale && svBool("keep")
	var err error
	if keep {
		err = opts.Copy(src, dst)
		want["src/stale.go"] = "file:stale"
	} else {
		err = opts.CopyReplaceDir(src, dst)
	}
	if filter == 1 && keep {
		return // what is ignored is kept
	}
	if filter == 2 && keep {
		return
	}
	svAssert(err == nil, "the copy fails")
	svReach("copied")
	svAssert(svSame(svTree(dst), want), "the copy is not what the source holds")
	svAssert(svSame(svTree(tmp+"/real/go"), all), "the source is changed")
}

// SV_copy_fail: when a file or directory cannot be written, the copy reports
// an error, by however many workers it is made, and whichever is first.
//
//gosx:bounds a tree of 2 files (thorough: and a link); one of the steps fails; no or 2 workers, any schedule with up to 1 (thorough: 2) preemptions at the synchronisation points
//gosx:budget quick=40s thorough=200s
func SV_copy_fail() {
	tmp := svTempDir()
	svWrite(tmp+"/go/bin/go", svStr("go", 1))
	svWrite(tmp+"/go/src/a.go", "")
	if svTier() > 0 {
		os.Symlink("a.go", tmp+"/go/src/link")
	}
	all := svTree(tmp + "/go")
	zos.Start(-1)
	zos.FailAt = svInt("at", 0, 30)
	svPreempt(1 + svTier())
	err := NewOptions().Concurrent([]int{0, 2}[svChoose("workers", 2)]).CopyReplaceDir(tmp+"/go", tmp+"/out/go")
	if zos.Failed {
		svReach("failed")
		svAssert(err != nil, "the copy lacks a file, and no error is reported")
		return
	}
	svAssert(err == nil, "the copy fails")
	svAssert(svSame(svTree(tmp+"/out/go"), all), "the copy is not what the source holds")
}
