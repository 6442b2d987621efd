//gosx:pkg . instrument/patch
package patch

import (
	"os"
	"strings"
)

type svPatch struct {
	label string
	text  string
	spot  int // of svSpots
	lines bool
}

func (p svPatch) begin() string { return "/*<begin " + p.label + ">*/" }
func (p svPatch) end() string   { return "/*<end " + p.label + ">*/" }
func (p svPatch) block(old string) string {
	if p.text == "" {
		return old
	}
	if old != "" {
		old = "/*old:" + old + "*/"
	}
	return p.begin() + old + p.text + p.end()
}

// The spots a patch is put at: before, after, or in place of the anchors A
// and B; each is found by the sequence A B.
func (p svPatch) apply(content string) string {
	pos := [3]UpdatePosition{UpdatePosition_Before, UpdatePosition_After, UpdatePosition_Replace}[p.spot%3]
	f := UpdateContent
	if p.lines {
		f = UpdateContentLines
	}
	return f(content, p.begin(), p.end(), []string{svA, svB}, p.spot/3, pos, p.text)
}

const svA, svB = "func A(", "B}"

type svPart struct {
	s      string
	anchor int // 1 A, 2 B
}

func svJoin(parts []svPart) string {
	s := ""
	for _, p := range parts {
		s += p.s
	}
	return s
}

// svRef puts p into the parts of a file.
func svRef(parts []svPart, p svPatch) []svPart {
	var r []svPart
	for _, x := range parts {
		if x.anchor != p.spot/3+1 {
			r = append(r, x)
			continue
		}
		switch p.spot % 3 {
		case 0:
			r = append(r, svPart{p.block(""), 0}, x)
		case 1:
			r = append(r, x, svPart{p.block(""), 0})
		case 2:
			r = append(r, svPart{p.block(x.s), 0})
		}
	}
	return r
}

func svText(name string, n int) string {
	return svStrIn(name, svChoose(name+"Len", n+1), "t\n*/{>")
}

func svContent() []svPart {
	n := 1 + svTier()
	return []svPart{{svStrIn("p0", svChoose("n0", n+1), "x\n*/ "), 0}, {svA, 1}, {svStrIn("p1", svChoose("n1", 2), "x\n*/<"), 0}, {svB, 2}, {svStrIn("p2", svChoose("n2", 2), "x\n/"), 0}}
}

// Two patches with different labels at any two of the six spots around two
// anchors of a file: each text is put, within its markers, exactly at its
// spot, nothing else changes, cleaning gives back the file, and putting either
// again changes nothing.
//
//gosx:bounds files of up to 1+1+1 (thorough 2+1+1) arbitrary bytes of "x\n*/< " around the anchors; labels of 1-2 bytes of "ab "; texts of up to 2 bytes of "t\n*/{>"
//gosx:budget quick=60s thorough=200s
func SV_update() {
	parts := svContent()
	content := svJoin(parts)
	p := svPatch{label: svStrIn("l1", 1+svChoose("nl1", 2), "ab "), text: svText("t1", 1), spot: svChoose("spot1", 6), lines: svChoose("lines", 2) == 1}
	q := svPatch{label: svStrIn("l2", 1+svChoose("nl2", 2), "ab "), text: svText("t2", 2), spot: svChoose("spot2", 6)}
	svAssume(p.label != q.label)
	if p.spot%3 == 2 && p.spot/3 == q.spot/3 {
		return // the anchor is gone
	}
	one := p.apply(content)
	r1 := svRef(parts, p)
	svAssert(one == svJoin(r1), "a patch is put at its spot and changes nothing else")
	svAssert(CleanPatch(one) == content, "cleaning removes a patch")
	svAssert(p.apply(one) == one, "a patch already there is not put again")
	two := q.apply(one)
	svAssert(two == svJoin(svRef(r1, q)), "a second patch is put at its spot and changes nothing else")
	svAssert(CleanPatch(two) == content, "cleaning removes all patches")
	if q.spot%3 == 2 && p.spot/3 == q.spot/3 {
		return
	}
	svAssert(p.apply(two) == two, "the first of two patches is not put again")
	svAssert(q.apply(two) == two, "the second of two patches is not put again")
	svReach("two patches")
}

// A patch whose text changed replaces the text put before, and only it.
//
//gosx:bounds as SV_update
//gosx:budget quick=30s thorough=60s
func SV_change() {
	parts := svContent()
	p := svPatch{label: svStrIn("l1", 1+svChoose("nl1", 2), "ab "), text: svText("t1", 1), spot: svChoose("spot1", 6)}
	svAssume(p.text != "")
	q := p
	q.text = svText("t2", 2)
	svAssume(q.text != "")
	r := q.apply(p.apply(svJoin(parts)))
	svAssert(r == svJoin(svRef(parts, q)), "a changed patch replaces the one put before")
	svAssert(CleanPatch(r) == svJoin(parts), "cleaning removes a changed patch")
}

// A patch put inside the text of another one.
//
//gosx:bounds as SV_update
//gosx:budget quick=30s thorough=60s
func SV_nested() {
	parts := svContent()
	content := svJoin(parts)
	p := svPatch{label: svStrIn("l1", 1+svChoose("nl1", 2), "ab "), spot: svChoose("spot1", 6)}
	t0, t1 := svText("t0", 1), svText("t1", 1)
	p.text = t0 + "IN(" + "ON)" + t1
	q := svPatch{label: svStrIn("l2", 1+svChoose("nl2", 2), "ab "), text: svText("t2", 1)}
	svAssume(p.label != q.label && q.text != "")
	pos := []UpdatePosition{UpdatePosition_Before, UpdatePosition_After, UpdatePosition_Replace}[svChoose("pos", 3)]
	r := UpdateContent(p.apply(content), q.begin(), q.end(), []string{"IN(", "ON)"}, 1, pos, q.text)
	w := p
	w.text = t0 + "IN("
	switch pos {
	case UpdatePosition_Before:
		w.text += q.block("") + "ON)"
	case UpdatePosition_After:
		w.text += "ON)" + q.block("")
	default:
		w.text += q.block("ON)")
	}
	w.text += t1
	svAssert(r == svJoin(svRef(parts, w)), "a patch is put inside the text of another")
	svAssert(CleanPatch(r) == content, "cleaning removes nested patches")
}

// Imports and code put after the package clause, and the other ways of
// patching.
//
//gosx:bounds package names of 1-3 bytes, three kinds of space before them, no or any of 5 bytes after; fixed labels, import names and paths
//gosx:budget quick=30s thorough=60s
func SV_import() {
	head := []string{"", "// x\n", "\n\n", "//go:build a\n\n"}[svChoose("head", 4)] + "package" + []string{" ", "  ", " \t"}[svChoose("space", 3)]
	pkg := "a" + svStrIn("pkg", svChoose("npkg", 3), "ab_1Z")
	tail := svStrIn("sep", svChoose("nsep", 2), "\n;/ \r")
	if tail != "" {
		tail += []string{"", "import \"a\"\n//package b"}[svChoose("tail", 2)]
	}
	content := head + pkg + tail
	p := svPatch{label: []string{"a", "a b"}[svChoose("l1", 2)]}
	name, path := []string{"", "_", "__x"}[svChoose("name", 3)], []string{"a", "a/b"}[svChoose("path", 2)]
	r := AddImportAfterName(content, p.begin(), p.end(), name, path)
	p.text = ";import "
	if name != "" {
		p.text += name + " "
	}
	p.text += "\"" + path + "\""
	want := head + pkg + p.block("") + tail
	svAssert(r == want, "an import is added after the package name")
	svAssert(CleanPatch(r) == content, "cleaning removes an import")
	svAssert(AddImportAfterName(r, p.begin(), p.end(), name, path) == want, "an import is added once")
	q := svPatch{label: []string{"b", "a"}[svChoose("l2", 2)], text: ";var x int"}
	if q.label == p.label {
		return
	}
	r = AddContentAfterName(r, q.begin(), q.end(), q.text)
	svAssert(r == head+pkg+q.block("")+p.block("")+tail, "code is added after the package name")
	svAssert(CleanPatch(r) == content, "cleaning removes code after the package name")
}

// Replacing a text after an anchor.
//
//gosx:bounds as SV_update
//gosx:budget quick=30s thorough=60s
func SV_replaceAfter() {
	parts := svContent()
	p := svPatch{label: svStrIn("l1", 1+svChoose("nl1", 2), "ab "), text: svText("t1", 2), spot: 5}
	svAssume(p.text != "")
	content := svJoin(parts)
	r := ReplaceContentAfter(content, p.begin(), p.end(), []string{svA}, svB, p.text)
	svAssert(r == parts[0].s+parts[1].s+parts[2].s+p.begin()+p.text+p.end()+parts[4].s, "a text after an anchor is replaced")
	svAssert(ReplaceContentAfter(r, p.begin(), p.end(), []string{svA}, svB, p.text) == r, "a text is replaced once")
}

// A template loses its build constraint, and nothing else.
//
//gosx:bounds up to 2 bytes before and 3 after the constraint
//gosx:budget quick=20s thorough=30s
func SV_buildIgnore() {
	pre, post := svStrIn("pre", svChoose("npre", 3), "/x\n\r"), svStrIn("post", svChoose("npost", 4), "/x\n\r")
	r, err := RemoveBuildIgnore(pre + "//go:build ignore" + post)
	svAssert(err == nil, "a constraint is found")
	want := post
	if strings.HasPrefix(post, "\r\n") {
		want = post[2:]
	} else if strings.HasPrefix(post, "\n") {
		want = post[1:]
	} else if strings.HasPrefix(post, "\r") {
		return
	}
	svAssert(r == pre+want, "only the constraint is removed")
	_, err = RemoveBuildIgnore(pre + post)
	svAssert(err != nil, "a missing constraint is reported")
}

// Editing a file: it is given to the callback without patches, and only
// written when the callback succeeds and changes it; a missing or ambiguous
// anchor is an error, and leaves the file as it is.
//
//gosx:bounds contents around the anchors of up to 1+1+1 bytes; the anchors present, missing, twice
//gosx:budget quick=30s thorough=60s
func SV_edit() {
	dir := svTempDir()
	file := dir + "/a.go"
	pre := svStrIn("pre", svChoose("npre", 2), "x\n*")
	mid := []string{svA + svB, svA + "x" + svB, svB + svA, svA, svB, "", svA + svB + svB, svA + svB + svA + svB}[svChoose("mid", 8)]
	content := pre + mid
	p := svPatch{label: "a", text: "x", spot: svChoose("spot1", 6)}
	q := svPatch{label: "b", text: "y", spot: svChoose("spot2", 6)}
	if p.spot%3 == 2 && p.spot/3 == q.spot/3 {
		return
	}
	svAssert(os.WriteFile(file, []byte(content), 0644) == nil, "write")
	seen := ""
	edit := func(text string) error {
		return EditFile(file, func(c string) (string, error) {
			seen = c
			p.text = text
			c = p.apply(c)
			if text == "none" {
				return seen, nil
			}
			if text == "fail" {
				return c, os.ErrInvalid
			}
			return q.apply(c), nil
		})
	}
	read := func() string {
		b, err := os.ReadFile(file)
		svAssert(err == nil, "read")
		return string(b)
	}
	err := edit("t")
	svAssert(seen == content, "the content given to edit")
	if i := svChoose("again", 4); err != nil {
		svReach("anchors missing")
		svAssert(mid != svA+svB && mid != svA+"x"+svB && mid != svA+svB+svB, "anchors of a file are found")
		svAssert(read() == content, "a file is left as it is when anchors are missing")
	} else {
		svAssert(mid == svA+svB || mid == svA+"x"+svB || mid == svA+svB+svB, "missing and ambiguous anchors are reported")
		svAssert(CleanPatch(read()) == content && read() != content, "a patched file")
		was := read()
		switch i {
		case 0:
			svAssert(edit("t") == nil && read() == was, "a file patched again is the same")
			svAssert(seen == content, "a file is given without patches")
		case 1:
			svAssert(edit("u") == nil, "patched again")
			w := was
			p.text = "t"
			old := p.begin()
			k := strings.Index(w, old)
			svAssert(k >= 0, "patched")
			e := strings.Index(w, "t"+p.end())
			svAssert(e >= k && read() == w[:e]+"u"+w[e+1:], "a file patched with other text has only that")
		case 3:
			svAssert(edit("none") == nil && read() == content, "an edit without patches removes those of the file")
		case 2:
			svAssert(edit("fail") != nil && read() == was, "a failing edit leaves the file")
		}
	}
}

// An anchor sequence must occur in the file, once.
//
//gosx:bounds files of up to 5 (thorough 6) parts, each an anchor or an arbitrary byte of " \n;"
//gosx:budget quick=30s thorough=60s
func SV_anchors() {
	n := svChoose("parts", 6+svTier())
	content := ""
	found, times := 0, 0
	gap := svStrIn("gap", 1, " \n;")
	for i := 0; i < n; i++ {
		switch svChoose("part", 3) {
		case 0:
			content += svA
			if found == 0 {
				found = 1
			}
		case 1:
			content += svB
			if found == 1 {
				found = 0
				times++
			}
		default:
			content += gap
		}
	}
	p := svPatch{label: "a", text: "t", spot: svChoose("spot", 6)}
	r, failed := "", false
	func() {
		defer func() { failed = recover() != nil }()
		r = p.apply(content)
	}()
	svAssert(failed == (times != 1), "missing and ambiguous anchors are reported, others are not")
	svAssert(failed || CleanPatch(r) == content && len(r) > len(content), "the file is patched")
}
