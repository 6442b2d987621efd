//gosx:pkg . cmd/xgo
//gosx:replace cmd/xgo/internal/vendir/golang.org/x/text/collate/tables.go tables.txt
package main

import (
	"encoding/json"
	"os"

	"github.com/xhd2015/xgo/instrument/compiler_extra"
)

// svTraps are up to 2 files of a package with functions and interfaces to trap.
func svTraps(name string) []*compiler_extra.File {
	const alphabet = "Av:0."
	n := svChoose(name+"files", 2+svTier())
	var files []*compiler_extra.File
	for i := 0; i <= n; i++ {
		k := name + string(rune('0'+i))
		f := &compiler_extra.File{Name: svStrIn(k+"file", 1+svTier(), alphabet) + ".go", AbsFile: "/x"}
		m := svChoose(k+"funcs", 3-i*(1-svTier()))
		for j := 0; j < m; j++ {
			kj := k + "f" + string(rune('0'+j))
			f.Funcs = append(f.Funcs, &compiler_extra.Func{IdentityName: svStrIn(kj, svInt(kj+"n", 1, 2), alphabet)})
		}
		m = svChoose(k+"intfs", 2)
		for j := 0; j < m; j++ {
			kj := k + "i" + string(rune('0'+j))
			f.Interfaces = append(f.Interfaces, &compiler_extra.Interface{Name: svStrIn(kj, 1+svTier(), alphabet)})
		}
		files = append(files, f)
	}
	return files
}

func svSameTraps(a, b []*compiler_extra.File) bool {
	if len(a) != len(b) {
		return false
	}
	same := true
	for i := range a {
		if len(a[i].Funcs) != len(b[i].Funcs) || len(a[i].Interfaces) != len(b[i].Interfaces) {
			return false
		}
		same = svAnd(same, a[i].Name == b[i].Name)
		for j := range a[i].Funcs {
			same = svAnd(same, a[i].Funcs[j].IdentityName == b[i].Funcs[j].IdentityName)
		}
		for j := range a[i].Interfaces {
			same = svAnd(same, a[i].Interfaces[j].Name == b[i].Interfaces[j].Name)
		}
	}
	return same
}

// SV_sum: what the compiler adds to a package is the same if the sums are the same;
// the sums are the same if it is.
//
//gosx:bounds two sets of 1-2 (thorough 3) files with symbolic names of 1 (2) bytes, up to 2 functions and 1 interface each (thorough; quick: 1 function in the second) with symbolic names of 1-2 bytes, variables trapped or not; the hash has no collisions
//gosx:budget quick=60s thorough=200s
func SV_sum() {
	a, b := svTraps("a"), svTraps("b")
	va, vb := svBool("va"), svBool("vb")
	same := svAnd(svSameTraps(a, b), va == vb)
	svAssert((md5sumTraps(a, va) == md5sumTraps(b, vb)) == same, "different traps have the same sum, or the same traps different ones")
	svReach("summed")
}

// SV_extra: the files written for the compiler and the go command tell for each
// package what to trap in which of its files, and its sum, and nothing else.
//
//gosx:bounds two packages with 1-2 (thorough 3) files with up to 2 functions and 1 interface of symbolic names of 1-2 bytes
//gosx:budget quick=40s thorough=200s
func SV_extra() {
	dir := svTempDir()
	pkgs := &compiler_extra.Packages{Packages: []*compiler_extra.Package{
		{Path: "p" + svStrIn("p", 1, "a/.<"), Files: svTraps("a"), HasVarTrap: svBool("va"), TrapMD5Sum: "s1"},
		{Path: "q\"\\/x", Files: []*compiler_extra.File{{Name: "q.go", Funcs: []*compiler_extra.Func{{IdentityName: "(*T).M"}}}}, TrapMD5Sum: svStrIn("sum", 1, "0a\"")},
	}}
	names := map[string]bool{}
	for _, f := range pkgs.Packages[0].Files {
		svAssume(!names[f.Name])
		names[f.Name] = true
	}
	err := writeCompilerExtra(pkgs, dir+"/extra.json", dir+"/sum.json")
	svAssert(err == nil, "not written")
	m, err := compiler_extra.ParseMapping(dir + "/extra.json")
	svAssert(err == nil && len(m.Packages) == 2, "not read")
	for _, p := range pkgs.Packages {
		got := m.Packages[p.Path]
		svAssert(got != nil && got.HasVarTrap == p.HasVarTrap && len(got.Files) == len(p.Files), "a package is lost")
		for _, f := range p.Files {
			g := got.Files[f.Name]
			svAssert(g != nil, "a file is lost")
			for _, fn := range f.Funcs {
				svAssert(g.Funcs[fn.IdentityName] != nil, "a function is lost")
			}
			for _, i := range f.Interfaces {
				svAssert(g.Interfaces[i.Name] != nil, "an interface is lost")
			}
			svAssert(len(g.Funcs) <= len(f.Funcs) && len(g.Interfaces) <= len(f.Interfaces), "more is trapped")
			for n := range g.Funcs {
				ok := false
				for _, fn := range f.Funcs {
					ok = svOr(ok, n == fn.IdentityName)
				}
				svAssert(ok, "another function is trapped")
			}
		}
	}
	var sums map[string]string
	svAssert(json.Unmarshal([]byte(svRead16(dir+"/sum.json")), &sums) == nil && len(sums) == 2, "the sums are not read")
	for _, p := range pkgs.Packages {
		svAssert(sums[p.Path] == p.TrapMD5Sum, "another sum")
	}
	svReach("written")
}

func svRead16(file string) string {
	b, err := os.ReadFile(file)
	if err != nil {
		return ""
	}
	return string(b)
}
