//gosx:pkg . support/goinfo
package goinfo

import (
	"go/version"
	"os"
	"path/filepath"
	"strings"
)

func svDec(c byte) bool { return '0' <= c && c <= '9' }

// svParts is the version "1.<minor>[.<patch>|<kind><pre>]" with symbolic bytes.
func svVersion(name string) string {
	n := 6 + svTier()
	return "1." + svStrIn(name, svInt(name+"n", 0, n), "0129.rcb-x")
}

// SV_compare: versions of Go are ordered as Go orders them, a malformed one is
// below all others.
//
//gosx:bounds two versions "1." followed by up to 6 (thorough 7) bytes of "0129.rcb-x"
//gosx:budget quick=60s thorough=200s
func SV_compare() {
	x, y := svVersion("x"), svVersion("y")
	svAssert(IsValidVersion(x) == version.IsValid("go"+x) || strings.Contains(x, "-"), "a version is valid that Go does not take, or the other way round")
	if strings.Contains(x, "-") || strings.Contains(y, "-") {
		return
	}
	svAssert(CompareVersion(x, y) == version.Compare("go"+x, "go"+y), "versions are ordered in another way than by Go")
	svReach("compared")
}

// svNum is a decimal without leading zeros of up to n digits.
func svNum(name string, n int) string {
	s := svStrIn(name, svInt(name+"n", 1, n), "0159")
	svAssume(len(s) == 1 || s[0] != '0')
	return s
}

func svCmpNum(x, y string) int {
	if len(x) != len(y) {
		if len(x) < len(y) {
			return -1
		}
		return 1
	}
	return strings.Compare(x, y)
}

// SV_semver: module versions are ordered by their numbers, then by their
// prereleases, identifier by identifier, numbers below words, as SemVer has it,
// whatever their build metadata.
//
//gosx:bounds two versions with numbers of up to 2 digits, none to 2 and none or 1 (thorough 2) prerelease identifiers of up to 2 bytes of "012a-" and build metadata
//gosx:budget quick=60s thorough=200s
func SV_semver() {
	type ver struct {
		nums []string
		pre  []string
		s    string
	}
	mk := func(name string, most int) ver {
		var v ver
		v.s = "v"
		parts := 3
		if most == 1 {
			parts -= svChoose(name+"short", 2)
		}
		for i := 0; i < 3; i++ {
			n := "0"
			if i < parts {
				k := 1
				if i == 1 && svTier() > 0 || i == 2 {
					k = 2
				}
				n = svNum(name+string(rune('0'+i)), k)
				if i > 0 {
					v.s += "."
				}
				v.s += n
			}
			v.nums = append(v.nums, n)
		}
		if parts < 3 {
			return v
		}
		n := svChoose(name+"pre", most+1)
		for i := 0; i < n; i++ {
			p := svStrIn(name+"p"+string(rune('0'+i)), svInt(name+"pn"+string(rune('0'+i)), 1, 2-i*(1-svTier())), "012a-"[:4+i])
			svAssume(!(len(p) == 2 && p[0] == '0' && svDec(p[1])))
			v.pre = append(v.pre, p)
			v.s += []string{"-", "."}[i] + p
		}
		v.s += []string{"", "+b", "+0.-"}[svChoose(name+"build", most+1)]
		return v
	}
	x, y := mk("x", 2), mk("y", 1+svTier())
	svAssert(IsValidSemVer(x.s) && IsValidSemVer(y.s), "a version is not taken")
	want := 0
	for i := 0; i < 3 && want == 0; i++ {
		want = svCmpNum(x.nums[i], y.nums[i])
	}
	if want == 0 && (len(x.pre) == 0) != (len(y.pre) == 0) {
		want = 1
		if len(x.pre) > 0 {
			want = -1
		}
	}
	for i := 0; i < len(x.pre) && i < len(y.pre) && want == 0; i++ {
		a, b := x.pre[i], y.pre[i]
		na, nb := svDec(a[0]) && svDec(a[len(a)-1]), svDec(b[0]) && svDec(b[len(b)-1])
		switch {
		case na && nb:
			want = svCmpNum(a, b)
		case na:
			want = -1
		case nb:
			want = 1
		default:
			want = strings.Compare(a, b)
		}
	}
	if want == 0 && len(x.pre) != len(y.pre) {
		want = 1
		if len(x.pre) < len(y.pre) {
			want = -1
		}
	}
	svAssert(CompareSemVer(x.s, y.s) == want, "versions are in another order")
	svReach("compared")
}

// SV_modpath: the path of the module directive and the version of the go directive
// are those of the first line with it, whatever white space, quotes, comments or
// other directives are around it.
//
//gosx:bounds a directive with 1-2 (thorough 2-3) symbolic bytes of white space, quotes, slashes and letters before the name, after it and after the argument, after one of 4 other lines, plain or quoted, up to 2 words in a line
//gosx:budget quick=60s thorough=200s
func SV_modpath() {
	n := 2 + svTier()
	name := []string{"module", "go"}[svChoose("name", 2)]
	g := func(s string) string { return svStrIn(s, n, " \t\r\n/x") }
	q := []string{"", "\"", "`"}[svChoose("quote", 3)]
	first := []string{"", "// " + name + " c\n", name + "x y\n", "x " + name + " y\n"}[svChoose("first", 4)]
	content := first + svStrIn("a", n-1, " \t\r\n/x") + name + g("b") + q + "e.c/m" + q + g("c")
	if svChoose("more", 2) == 1 {
		content += "\n" + name + " other\n"
	}
	want := ""
	for _, line := range strings.Split(content, "\n") {
		if i := strings.Index(line, "//"); i >= 0 {
			line = line[:i]
		}
		f := strings.Fields(line)
		if len(f) == 0 || f[0] != name {
			continue
		}
		svAssume(len(f) <= 2)
		if len(f) == 2 {
			want = f[1]
			if want[0] == '"' || want[0] == '`' {
				svAssume(len(want) > 1 && want[len(want)-1] == want[0] && !strings.ContainsAny(want[1:len(want)-1], "\"`"))
				want = want[1 : len(want)-1]
			} else {
				svAssume(!strings.ContainsAny(want, "\"`"))
			}
			break
		}
	}
	got := ""
	if name == "go" {
		got = ParseModGoVersion(content)
	} else {
		got = parseModPath(content)
	}
	svAssert(got == want, "another argument of the directive is read")
	svReach("read")
}

// SV_find: the module of a directory is that of the nearest directory above with a
// file go.mod, with the path from there.
//
//gosx:bounds 4 levels of directories, each with a go.mod that is a file, a directory, or none, started anywhere with 5 forms of the directory
func SV_find() {
	base := svTempDir()
	names := []string{"m", "a", "go.mod2", "c"}
	dir := base
	at := svChoose("at", 4)
	var want []string
	root := ""
	mod := ""
	start := ""
	for i, n := range names {
		dir += "/" + n
		os.MkdirAll(dir, 0755)
		switch svChoose("mod"+n, 3) {
		case 1:
			b := svStrIn("path"+n, 1, "mn")
			if err := os.WriteFile(dir+"/go.mod", []byte("module "+b+"\n"), 0644); err != nil {
				panic(err)
			}
			if i <= at {
				root, want, mod = dir, nil, b
			}
		case 2:
			os.MkdirAll(dir+"/go.mod", 0755)
			fallthrough
		default:
		}
		if i <= at {
			if root != "" && root != dir {
				want = append(want, n)
			}
			start = dir
		}
	}
	arg := start
	switch svChoose("form", 5) {
	case 1:
		os.Chdir(start)
		arg = ""
	case 2:
		os.Chdir(start)
		arg = "."
	case 3:
		os.Chdir(base)
		arg = "./" + strings.Join(names[:at+1], "/") + "/"
	case 4:
		arg = start + "/x/../"
	}
	if root == "" {
		// the nearest may be outside
		return
	}
	file, sub, err := findGoMod(arg)
	svAssert(err == nil && file == root+"/go.mod" && strings.Join(sub, "/") == strings.Join(want, "/"), "another go.mod is found")
	if arg != "" {
		sub, dir, err := FindGoModDirSubPath(arg)
		svAssert(err == nil && dir == root && filepath.Join(sub...) == filepath.Join(want...), "another directory of the module is found")
	}
	m, pkg, err := ResolveModulePkgPath(arg)
	svAssert(err == nil && m == mod && pkg == strings.Join(append([]string{mod}, want...), "/"), "another package path")
	svReach("found")
}

// SV_goversion: the output of go version gives the numbers of the release, whether
// it is a prerelease, has custom suffixes, experiments or other notes; anything
// else is an error.
//
//gosx:bounds minor of 1-2 and patch of 0-2 symbolic digits, 5 kinds of suffixes with symbolic digits, 4 kinds of notes, or a symbolic byte changed in the prefix
func SV_goversion() {
	minor := svNum("minor", 2)
	s := "1." + minor
	want := GoVersion{Major: 1, OS: "linux", Arch: "amd64"}
	for _, c := range []byte(minor) {
		want.Minor = want.Minor*10 + int(c-'0')
	}
	if svChoose("patch", 2) == 1 {
		patch := svNum("patchnum", 2)
		for _, c := range []byte(patch) {
			want.Patch = want.Patch*10 + int(c-'0')
		}
		s += "." + patch
		s += []string{"", "-custom", "-fips." + svStrIn("suffix", 1, "019a"), "+auto"}[svChoose("psuffix", 4)]
	} else {
		s += []string{"", "rc" + svStrIn("rc", 1, "0129"), "beta1", "-custom"}[svChoose("suffix", 4)]
	}
	note := []string{"", " X:synctest", " (Red Hat 1.21.13-2.el9_4)", " X:a/b,c"}[svChoose("note", 4)]
	got, err := ParseGoVersion("go version go" + s + note + " linux/amd64")
	svAssert(err == nil && *got == want, "another version is read")
	num, err := ParseGoVersionNumber(s)
	want.OS, want.Arch = "", ""
	svAssert(err == nil && *num == want, "another version number is read")
	bad := "go version g" + svStrIn("b", 1, "o ax1") + svStrIn("c", 1, "1 a.d") + "." + svStrIn("d", 1, "19 ra")
	_, err = ParseGoVersion(bad + " linux/amd64")
	ok := bad[12] == 'o' && bad[13] == '1' && svDec(bad[15])
	svAssert((err == nil) == ok, "a malformed version is read or a version is not")
	svReach("read")
}

// SV_vendor: of vendor/modules.txt each module with packages is listed once in
// order with its version, replacement and annotations, each package belongs to the
// module before it, and lines that are not understood are skipped.
//
//gosx:bounds 2 modules with symbolic versions, 6 and 2 (thorough 6) forms of replacement, 4 and 2 (thorough 4) of annotations, up to 2 packages and one of 3 other lines
//gosx:budget quick=40s thorough=100s
func SV_vendor() {
	txt := ""
	type mod struct {
		ModVersion
		meta vendorMetadata
		pkgs []string
	}
	var mods []mod
	for i, path := range []string{"e.c/a", "e.c/a/v2"} {
		k := string(rune('0' + i))
		m := mod{ModVersion: ModVersion{Path: path, Version: "v" + svNum("major"+k, 1) + ".0." + svNum("patch"+k, 1+svTier()*(1-i))}}
		forms := 6 - 4*i*(1-svTier())
		r := svChoose("replace"+k, forms)
		m.meta.Replacement = []ModVersion{{}, {Path: "e.c/z", Version: "v1.2.3-pre"}, {Path: "./z"}, {Path: "/abs/z"}, {}, {}}[r]
		txt += "# " + path + " " + m.Version + []string{"", " => e.c/z v1.2.3-pre", " => ./z", " => /abs/z", " => z bad", " =>"}[r] + "\n"
		a := svChoose("annot"+k, 4-2*i*(1-svTier()))
		g := svStrIn("go"+k, 1, "0189")
		txt += []string{"", "## explicit\n", "## explicit; go 1.2" + g + "\n", "## go 1.2" + g + " ;other;\n"}[a]
		m.meta.Explicit = a == 1 || a == 2
		if a >= 2 {
			m.meta.GoVersion = "1.2" + g
		}
		if i == 0 {
			txt += []string{"", "\n", "x y\n"}[svChoose("other", 3)]
		}
		m.pkgs = []string{path, path + "/internal/p"}[:svChoose("pkgs"+k, 3)]
		for _, p := range m.pkgs {
			txt += p + "\n"
		}
		mods = append(mods, m)
	}
	if svChoose("tail", 2) == 1 {
		txt += "# e.c/a => ./z\n# bad line\ne.c/none\n"
	}
	info := ParseVendorContent(txt)
	n := 0
	pkgs := 0
	for _, m := range mods {
		if len(m.pkgs) > 0 {
			svAssert(n < len(info.VendorList) && info.VendorList[n] == m.ModVersion && info.VendorVersion[m.Path] == m.Version, "the modules are others")
			n++
		}
		svAssert(info.VendorMeta[m.ModVersion] == m.meta, "a module has other annotations")
		for _, p := range m.pkgs {
			pkgs++
			svAssert(info.VendorPkgModule[p] == m.ModVersion, "a package belongs to another module")
		}
	}
	svAssert(n == len(info.VendorList) && pkgs == len(info.VendorPkgModule), "other modules or packages are listed")
	svReach("listed")
}

// SV_within: a package is within a module if its path is that of the module or goes
// on after it with a slash.
//
//gosx:bounds two paths of up to 5 (thorough 8) bytes
func SV_within() {
	n := 5 + 3*svTier()
	p := svStrIn("p", svInt("pn", 0, n), "ab/.")
	m := svStrIn("m", svInt("mn", 0, n), "ab/.")
	suffix, ok := PkgWithinModule(p, m)
	if p == m {
		svAssert(ok && suffix == "", "the module itself is not within it")
	} else {
		svAssert(ok == strings.HasPrefix(p, m+"/"), "a package is in another module")
		svAssert(!ok || m+"/"+suffix == p, "another path within the module")
	}
	svReach("within")
}
