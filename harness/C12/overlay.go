//gosx:pkg . instrument/overlay
package overlay

import (
	"os"
	"path/filepath"
	"strings"
)

// SV_compose: the composed overlay sends every source of either overlay to the
// end of its chain, generated mappings replacing those of the caller, and
// nothing else; a deleted file stays deleted; an error exactly if a chain does
// not end. The inputs are left as they were.
//
//gosx:bounds caller and generated overlays over 3 (thorough 4) files, each file absent, deleted, or mapped to an arbitrary one of them or to another file; with 2 files all orders of map iteration
//gosx:budget quick=30s thorough=300s
func SV_compose() {
	n := 3 + svTier()
	order := svChoose("order", 2) == 1
	if order {
		n = 2
	}
	names := []string{"A", "B", "C", "D"}[:n]
	mapping := func(what string) Replace {
		r := Replace{}
		for i, f := range names {
			if what == "c" && i > 1 {
				continue
			}
			switch svChoose(what+f, 3) {
			case 1:
				r[AbsFile(f)] = ""
			case 2:
				r[AbsFile(f)] = AbsFile(svStrIn(what+f+"to", 1, "ABCDX"[:n]+"X"))
			}
		}
		return r
	}
	caller, gen := mapping("c"), mapping("g")
	nc, ng := len(caller), len(gen)
	svMapOrder(order)
	res, err := ComposeGoOverlays(ParseGoOverlay(&GoOverlay{Replace: caller}, PathOptions{}), &GoOverlay{Replace: gen}, PathOptions{})

	next := func(f AbsFile) (AbsFile, bool) {
		if to, ok := gen[f]; ok {
			return to, true
		}
		to, ok := caller[f]
		return to, ok
	}
	cyclic := false
	count := 0
	for _, f := range names {
		if _, ok := next(AbsFile(f)); !ok {
			if err == nil {
				_, ok := res.Replace[AbsFile(f)]
				svAssert(!ok, "a file that is not replaced is mapped")
			}
			continue
		}
		count++
		cur := AbsFile(f)
		ends := false
		for steps := 0; steps <= n; steps++ {
			to, ok := next(cur)
			if !ok {
				ends = true
				break
			}
			cur = to
		}
		if !ends {
			cyclic = true
			continue
		}
		if err != nil {
			continue
		}
		got, ok := res.Replace[AbsFile(f)]
		svAssert(ok, "a replaced file is not mapped")
		svAssert(got == cur, "a file is not mapped to the end of its chain")
	}
	svAssert((err != nil) == cyclic, "cycles are reported, and nothing else")
	if err == nil {
		svAssert(len(res.Replace) == count, "the composed overlay has other entries")
		svReach("composed")
	} else {
		svReach("cycle")
	}
	svAssert(len(caller) == nc && len(gen) == ng, "the inputs keep their entries")
}

// svTree makes a project reached by a real directory and by a link to it.
func svTree() (dir string, files []string, disk []string) {
	dir = svTempDir()
	if d, err := filepath.EvalSymlinks(dir); err == nil {
		dir = d
	}
	os.MkdirAll(filepath.Join(dir, "real", "sub"), 0755)
	os.Symlink(filepath.Join(dir, "real"), filepath.Join(dir, "link"))
	files = []string{"a.go", "sub/b.go", "c.go"}
	for i, f := range files {
		disk = append(disk, "disk "+string(rune('0'+i))+svStr("content", 2)+"\n")
		os.WriteFile(filepath.Join(dir, "real", f), []byte(disk[i]), 0644)
	}
	return dir, files, disk
}

// svSpell names a file of the project one of several ways.
func svSpell(name string, dir string, file string, n int) string {
	switch svChoose(name, n) {
	case 0:
		return dir + "/real/" + file
	case 1:
		return dir + "/link/" + file
	case 2:
		return file
	case 3:
		return "./sub/../" + file
	case 4:
		return dir + "/link/sub/..//" + file
	default:
		return "../real/" + file
	}
}

// svGoRead reads a file as the go command does with -overlay: one step, paths
// literal.
func svGoRead(r Replace, path string) (string, bool) {
	to, ok := r[AbsFile(path)]
	if ok {
		if to == "" {
			return "", false
		}
		path = string(to)
	}
	data, err := os.ReadFile(path)
	return string(data), err == nil
}

// SV_pipeline: what the go command compiles for a file, under any of the names
// xgo or the caller gave it, is what xgo read for it, or the code xgo put there
// for it with its line directive; a file the caller deleted is gone for both.
//
//gosx:bounds a project of 3 files and 1 outside, reached through a real or a linked directory; caller overlay of 0-1 (thorough 2) entries in 3 (6) spellings of the source and 2 (6) of the target, also deleted; 0-2 (3) files instrumented; arbitrary contents; no chains within the overlay of the caller
//gosx:budget quick=45s thorough=300s
func SV_pipeline() {
	dir, files, disk := svTree()
	out := "disk o" + svStr("out", 1) + "\n"
	os.WriteFile(dir+"/out.go", []byte(out), 0644)
	proj := dir + []string{"/real", "/link"}[svChoose("project", 2)]
	opts := PathOptions{BaseDir: proj}

	caller := Replace{}
	target := map[string]string{} // file -> file, "" deleted
	spelled := map[string]string{}
	n := svChoose("entries", 2+svTier())
	for i := 0; i < n; i++ {
		f := files[i]
		src := svSpell("src"+f, dir, f, 3+3*svTier())
		switch svChoose("target"+f, 3) {
		case 0:
			caller[AbsFile(src)] = ""
			target[f] = ""
		case 1:
			caller[AbsFile(src)] = AbsFile(dir + "/out.go")
			target[f] = "out.go"
		case 2:
			caller[AbsFile(src)] = AbsFile(svSpell("to"+f, dir, files[2], 2+4*svTier()))
			target[f] = files[2]
		}
		if !filepath.IsAbs(src) {
			src = filepath.Join(proj, src)
		}
		spelled[f] = filepath.Clean(src)
	}

	parsed := ParseGoOverlay(&GoOverlay{Replace: caller}, opts)
	fs := MakeOverlay()
	parsed.ApplyFileRedirects(fs)

	// as read by xgo
	read := func(path string) (string, bool) {
		_, c, err := fs.Read(AbsFile(path))
		_, b, err2 := fs.ReadBytes(AbsFile(path))
		size, err3 := fs.Size(AbsFile(path))
		svAssert((err == nil) == (err2 == nil) && (err == nil) == (err3 == nil), "Read, ReadBytes and Size agree that a file exists")
		if err == nil {
			svAssert(c == string(b) && int64(len(c)) == size, "Read, ReadBytes and Size agree")
		}
		return c, err == nil
	}
	want := map[string]string{}
	for i, f := range files {
		exp, ok := disk[i], true
		if to, has := target[f]; has {
			switch to {
			case "":
				ok = false
			case "out.go":
				exp = out
			default:
				exp = disk[2]
			}
		}
		for _, p := range []string{proj + "/" + f, dir + "/real/" + f, dir + "/link/" + f} {
			got, exists := read(p)
			svAssert(exists == ok, "a file is read although deleted, or cannot be read")
			svAssert(!ok || got == exp, "xgo reads something else than what the overlay says")
		}
		if !ok {
			exp = "gone"
		}
		want[f] = exp
	}

	// instrument
	names := map[string]string{}
	inst := map[string]bool{}
	for i, f := range files {
		if i == 1 && svTier() == 0 || want[f] == "gone" {
			continue
		}
		if svChoose("inst"+f, 2) == 1 {
			inst[f] = true
			names[f] = proj + "/" + f
			fs.OverrideContent(AbsFile(names[f]), "new "+f+"\n")
			got, exists := read(names[f])
			svAssert(exists && got == "new "+f+"\n", "overridden content is read")
		}
	}
	svMapOrder(svTier() > 0)
	noLine := svBool("noline")
	gen, err := fs.MakeGoOverlay(dir+"/gen", Options{NoLineDirective: noLine, PathMappings: []PathMapping{{From: dir + "/real", To: "PROJECT"}}})
	svAssert(err == nil, "MakeGoOverlay")
	comp, err := ComposeGoOverlays(parsed, gen, opts)
	svAssert(err == nil, "ComposeGoOverlays")
	parsed.ProjectOntoCallerSources(comp)
	fs.ProjectOntoSpellings(comp)

	for _, f := range files {
		exp := want[f]
		real := dir + "/real/" + f
		from := real
		if inst[f] {
			exp = "new " + f + "\n"
		} else if target[f] == files[2] && inst[files[2]] {
			// the replacement is instrumented
			exp = "new " + files[2] + "\n"
			from = dir + "/real/" + files[2]
		}
		isNew := strings.HasPrefix(exp, "new")
		if isNew && !noLine {
			exp = "//line " + from + ":1\n" + exp
		}
		paths := []string{real}
		if inst[f] {
			paths = append(paths, names[f])
		}
		if s, ok := spelled[f]; ok {
			paths = append(paths, s)
		}
		for _, p := range paths {
			got, exists := svGoRead(comp.Replace, p)
			svAssert(exists == (exp != "gone"), "the go command sees a deleted file, or misses one")
			svAssert(!exists || got == exp, "the go command compiles something else")
		}
	}
	for k, v := range comp.Replace {
		svAssert(filepath.IsAbs(string(k)) && (v == "" || filepath.IsAbs(string(v))), "paths are absolute")
	}
	svReach("piped")
}

// SV_aliases: two names of one file in the overlay of the caller: the canonical
// name wins, otherwise the choice does not depend on the order of the map, and
// what xgo reads is what is compiled.
//
//gosx:bounds two of 6 spellings of a file, two different targets, all orders of map iteration
func SV_aliases() {
	dir, _, disk := svTree()
	os.Symlink(dir+"/real", dir+"/zlink")
	sp := []string{dir + "/real/a.go", dir + "/link/a.go", dir + "/real/sub/../a.go", dir + "/link/./a.go", dir + "/zlink/a.go", dir + "/zlink/sub/../a.go"}
	i, j := svChoose("i", len(sp)), svChoose("j", len(sp))
	if i == j {
		return
	}
	t := []string{dir + "/real/sub/b.go", dir + "/real/c.go"}
	run := func() string {
		p := ParseGoOverlay(&GoOverlay{Replace: Replace{AbsFile(sp[i]): AbsFile(t[0]), AbsFile(sp[j]): AbsFile(t[1])}}, PathOptions{})
		fs := MakeOverlay()
		p.ApplyFileRedirects(fs)
		_, got, err := fs.Read(AbsFile(sp[1]))
		svAssert(err == nil, "read")
		gen, err := fs.MakeGoOverlay(dir+"/gen", Options{})
		svAssert(err == nil, "MakeGoOverlay")
		c, err := ComposeGoOverlays(p, gen, PathOptions{})
		svAssert(err == nil, "ComposeGoOverlays")
		built, _ := svGoRead(c.Replace, sp[0])
		svAssert(built == got, "xgo reads another alias than the go command compiles")
		return got
	}
	svMapOrder(true)
	first := run()
	if i == 0 {
		svAssert(first == disk[1], "the canonical name does not win")
	}
	if j == 0 {
		svAssert(first == disk[2], "the canonical name does not win")
	}
	svAssert(run() == first, "the choice among aliases is not stable")
	svReach("aliases")
}

// SV_mapping: a path is written below the name of the first root that contains
// it; a root contains itself and what is below it, not other paths that begin
// with the same letters.
//
//gosx:bounds paths and 2 roots of up to 4 (thorough 5) bytes of "/", "a", "b"
//gosx:budget quick=30s thorough=120s
func SV_mapping() {
	n := 4 + svTier()
	path := "/" + svStrIn("path", svChoose("np", n), "/ab")
	from := []string{"/" + svStrIn("f0", svChoose("n0", n-1), "/ab"), "/" + svStrIn("f1", svChoose("n1", n-1), "/ab")}
	to := []string{"R0", "R1"}
	got := getPathMapping(path, []PathMapping{{From: from[0], To: to[0]}, {From: from[1], To: to[1]}})
	want := path
	for i, f := range from {
		if path == f {
			want = to[i]
			break
		}
		if len(path) > len(f) && path[:len(f)] == f && path[len(f)] == '/' {
			want = to[i] + path[len(f):]
			break
		}
	}
	svAssert(got == want, "a path is put below the wrong root")
	svReach("mapped")
}

// SV_written: different files are written to different places below the overlay
// directory, each with its own content.
//
//gosx:bounds 3 files with paths of up to 4 elements of "a", "b", "ab" below 4 nested and similar roots
func SV_written() {
	dir := svTempDir()
	el := []string{"a", "b", "ab"}
	fs := MakeOverlay()
	var paths []string
	for i := 0; i < 3; i++ {
		p := "/nowhere"
		for k := 0; k < 2+svTier(); k++ {
			c := svChoose("e"+string(rune('0'+i)), 4)
			if c == 3 {
				break
			}
			p += "/" + el[c]
		}
		p += "/x.go"
		for _, q := range paths {
			if p == q {
				return
			}
		}
		paths = append(paths, p)
		fs.OverrideContent(AbsFile(p), "content of "+p)
	}
	gen, err := fs.MakeGoOverlay(dir, Options{PathMappings: []PathMapping{
		{From: "/nowhere/a/b", To: "R0"}, {From: "/nowhere/a", To: "R1"}, {From: "/nowhere/ab", To: "R2"}, {From: "/nowhere", To: "R3"},
	}})
	svAssert(err == nil, "MakeGoOverlay")
	for _, p := range paths {
		got, ok := svGoRead(gen.Replace, p)
		svAssert(ok && got == "//line "+p+":1\ncontent of "+p, "a file has the content of another")
		svAssert(strings.HasPrefix(string(gen.Replace[AbsFile(p)]), dir+"/"), "written outside the overlay directory")
	}
	svReach("written")
}
