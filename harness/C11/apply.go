//gosx:pkg . instrument/patch
package patch

import "strings"

// A file is a list of tokens; a place names a range of them and the commands
// that go there.
type svPlace struct {
	cmds  []string
	first int // the token at the cursor
	width int // tokens selected
}

func svTokens() []string {
	g := svChoose("gap", 1+3*svTier())
	gap := func(i int) string {
		return []string{"\n// f x() y(\n", "\n\n\t", ";", "\n"}[(g+i)%4]
	}
	s := svStrIn("s", 1, " \n")
	tok := []string{
		/*0*/ "package p",
		/*1*/ gap(0) + "type ",
		/*2*/ "S struct ",
		/*3*/ "{",
		/*4*/ " a int; ",
		/*5*/ "b int;" + s,
		/*6*/ "}",
		/*7*/ "\ntype ",
		/*8*/ "I interface ",
		/*9*/ "{",
		/*10*/ " M()\n",
		/*11*/ "}",
		/*12*/ gap(3),
		/*13*/ "func (q QR) f() { x(); y(); ",
		/*14*/ "}",
		/*15*/ "\n",
		/*16*/ "func (q *R) f() ",
		/*17*/ "{",
		/*18*/ s + "y();",
		/*19*/ "x()",
		/*20*/ "\n",
		/*21*/ "}",
		/*22*/ "\n",
		/*23*/ "func f() ",
		/*24*/ "{",
		/*25*/ "x();" + s,
		/*26*/ "y(",
		/*27*/ "\n); z(); ",
		/*28*/ "}",
	}
	// types or methods
	from, to := 13, 22
	if svChoose("kind", 2) == 1 {
		from, to = 1, 12
	}
	for i := from; i < to; i++ {
		tok[i] = ""
	}
	return tok
}

var svPlaces = []svPlace{
	{[]string{"match package p"}, 0, 1},
	{[]string{"goto struct S"}, 2, 0},
	{[]string{"goto struct S", "goto opening {"}, 3, 1},
	{[]string{"goto struct S", "goto field b"}, 5, 0},
	{[]string{"goto struct S", "goto closing }"}, 6, 1},
	{[]string{"goto interface I", "goto opening {"}, 9, 1},
	{[]string{"goto interface I", "goto closing }"}, 11, 1},
	{[]string{"goto func (*R) f"}, 16, 0},
	{[]string{"goto func (q *R) f", "match x()"}, 19, 1},
	{[]string{"goto func (R) f", "goto closing }"}, 21, 1},
	{[]string{"goto func f"}, 23, 0},
	{[]string{"goto func f", "goto opening {"}, 24, 1},
	{[]string{"goto func f", "match y("}, 26, 1},
	{[]string{"goto func f", "match z()", "find_for_replace y("}, 26, 1},
	{[]string{"find_for_replace package p"}, 0, 1},
}

type svEdit struct {
	before, after, afterLine, replace []string
}

// svEdits are the commands given at a place; what they stand for is in
// the edit: texts to put before and after it, and on the next line.
func svEdits(name string, text string, replaceable bool, few bool) ([]string, svEdit) {
	a, b := text+"1;", text+"2;"
	if text[0] == '/' {
		a, b = text, text
	}
	forms := []int{0, 7, 2, 6, 1, 3, 4, 5, 8}
	if few {
		forms = forms[:4]
	} else if svTier() == 0 {
		forms = []int{0, 7, 2, 6, 4, 5, 8}
	}
	if replaceable {
		forms = append(forms, 9, 10)
	}
	switch forms[svChoose(name, len(forms))] {
	case 0:
		return []string{"insert_before " + a}, svEdit{before: []string{a}}
	case 1:
		return []string{"insert_after " + a}, svEdit{after: []string{a}}
	case 2:
		return []string{"insert_after_line " + a}, svEdit{afterLine: []string{a}}
	case 3:
		return []string{"insert_before " + a, "newline"}, svEdit{before: []string{a + "\n"}}
	case 4:
		return []string{"insert_before " + a, "newline", "insert_before " + b}, svEdit{before: []string{b, a + "\n"}}
	case 5:
		return []string{"insert_after " + a, "newline", "insert_after " + b}, svEdit{after: []string{a + "\n", b}}
	case 6:
		return []string{"insert_before " + a, "insert_after " + b, "newline"}, svEdit{before: []string{a}, after: []string{b + "\n"}}
	case 7:
		return []string{"insert_after " + a, "insert_before " + b, "newline"}, svEdit{before: []string{b + "\n"}, after: []string{a}}
	case 8:
		return []string{"insert_after_line " + a, "newline", "insert_after_line " + b}, svEdit{afterLine: []string{a + "\n", b}}
	case 9:
		return []string{"replace " + a}, svEdit{replace: []string{a}}
	default:
		return []string{"replace " + a, "newline"}, svEdit{replace: []string{a + "\n"}}
	}
}

// svOut is the file with the edits applied at once: ins[i] goes before token i
// (after the end of token i-1), rep[i] replaces it.
type svOut struct {
	tok []string
	ins map[int][]string
	nl  map[int][]string // after the newline token i begins with
	rep map[int]string
}

func (o *svOut) add(label string, p svPlace, e svEdit) {
	wrap := func(s []string) string {
		return "/*<begin " + label + ">*/" + strings.Join(s, "") + "/*<end " + label + ">*/"
	}
	end := p.first + p.width
	for end < len(o.tok) && o.tok[end] == "" {
		end++
	}
	if len(e.before) > 0 {
		o.ins[p.first] = append(o.ins[p.first], wrap(e.before))
	}
	if len(e.after) > 0 {
		o.ins[end] = append(o.ins[end], wrap(e.after))
	}
	if len(e.afterLine) > 0 {
		if end < len(o.tok) && o.tok[end] == "\n" {
			o.ins[end+1] = append(o.ins[end+1], wrap(e.afterLine))
		} else if end < len(o.tok) && strings.HasPrefix(o.tok[end], "\n") {
			o.nl[end] = append(o.nl[end], wrap(e.afterLine))
		} else {
			o.ins[end] = append(o.ins[end], wrap(e.afterLine))
		}
	}
	if len(e.replace) > 0 {
		o.rep[p.first] = wrap(append([]string{"/*old:" + o.tok[p.first] + "*/"}, e.replace...))
	}
}

func (o *svOut) String() string {
	s := ""
	for i := 0; i <= len(o.tok); i++ {
		s += strings.Join(o.ins[i], "")
		if i == len(o.tok) {
			break
		}
		t := o.tok[i]
		if r, ok := o.rep[i]; ok {
			t = r
		}
		if l, ok := o.nl[i]; ok {
			t = "\n" + strings.Join(l, "") + t[1:]
		}
		s += t
	}
	return s
}

func svBlock(name string, lines []string) string {
	return "<patch " + name + ">\n" + strings.Join(lines, "\n") + "\n</patch>\n"
}

func svCheckApply(src, patch, want string, names []string) {
	r, err := ApplyXgoPatchContent(src, patch)
	svAssert(err == nil, "a patch applies")
	if r != want {
		svNote("got", r)
		svNote("want", want)
	}
	svAssert(r == want, "each text of a patch is put where its commands say, and nothing else changes")
	again, err := ApplyXgoPatchContent(r, patch)
	svAssert(err == nil && again == want, "a patch applied again changes nothing")
	svAssert(CleanPatch(r) == src, "cleaning removes patches")
	for _, n := range names {
		r = clearPatch(r, n)
	}
	svAssert(r == src, "clearing removes patches")
}

// One block with edits at one or two places, in any order of the places.
//
//gosx:bounds a file of 29 tokens with arbitrary white space at 2 places, decoys in comments and in other functions; 15 places, 11 forms of commands at the first, 6 (thorough 11) at the second
//gosx:budget quick=60s thorough=200s
func SV_block() {
	tok := svTokens()
	o := &svOut{tok, map[int][]string{}, map[int][]string{}, map[int]string{}}
	i := svChoose("place1", len(svPlaces))
	p := svPlaces[i]
	if tok[p.first] == "" {
		return
	}
	lines, e := svEdits("edit1", "A", i >= 13, false)
	lines = append(append([]string{"# " + "<comment>"}, p.cmds...), lines...)
	o.add("n", p, e)
	if j := svChoose("place2", len(svPlaces)); j > 0 && j < 14 {
		q := svPlaces[j]
		if tok[q.first] == "" {
			return
		}
		l2, e2 := svEdits("edit2", "B", j >= 13, svTier() == 0)
		if len(e.replace) > 0 && len(e2.replace) > 0 && p.first == q.first {
			return
		}
		if p.first == q.first && q.width == p.width {
			return // the same place
		}
		if i == 13 && (j == 13 || j == 12) {
			return
		}
		lines = append(append(lines, ""), append(q.cmds, l2...)...)
		o.add("n", q, e2)
	}
	svCheckApply(strings.Join(tok, ""), svBlock("n", lines), o.String(), []string{"n"})
	svReach("applied")
}

// svInvalid tells whether a file with e at p is not a Go file.
func svInvalid(p svPlace, e svEdit) bool {
	return len(p.cmds) == 2 && p.cmds[1] == "goto opening {" && strings.Contains(strings.Join(e.before, ""), "\n")
}

// Two blocks: the second sees what the first did, and each is cleared and
// applied again on its own.
//
//gosx:bounds the file and the places of SV_block; texts that are comments; names one of which may begin with the other
//gosx:budget quick=60s thorough=200s
func SV_blocks() {
	tok := svTokens()
	names := [][]string{{"n", "n2"}, {"n 2", "n"}, {"n", "m"}}[svChoose("names", 2+svTier())]
	i := svChoose("place1", 13)
	j := svChoose("place2", 14)
	if tok[svPlaces[i].first] == "" || tok[svPlaces[j].first] == "" {
		return
	}
	o := &svOut{tok, map[int][]string{}, map[int][]string{}, map[int]string{}}
	l1, e1 := svEdits("edit1", "/*A*/", false, true)
	l2, e2 := svEdits("edit2", "/*B*/", false, true)
	if svInvalid(svPlaces[i], e1) || svInvalid(svPlaces[j], e2) {
		return
	}
	o.add(names[0], svPlaces[i], e1)
	one := o.String()
	// the texts of a second block next to those of the first come after
	// them when both go after the same token, and before otherwise
	p, q := svPlaces[i], svPlaces[j]
	if p.first < q.first+q.width+1+len(e2.afterLine) && q.first < p.first+p.width+1+len(e1.afterLine) {
		return
	}
	o.add(names[1], q, e2)
	src := strings.Join(tok, "")
	b1, b2 := svBlock(names[0], append(append([]string{}, p.cmds...), l1...)), svBlock(names[1], append(append([]string{}, q.cmds...), l2...))
	svCheckApply(src, b1+b2, o.String(), names)
	r, err := ApplyXgoPatchContent(o.String(), b2)
	svAssert(err == nil && r == o.String(), "one of two patches applied again changes nothing")
	r, err = ApplyXgoPatchContent(o.String(), b1)
	svAssert(err == nil && r == o.String(), "the other of two patches applied again changes nothing")
	svAssert(clearPatch(o.String(), names[1]) == one, "clearing one patch keeps the other")
	if svTier() == 0 && i > j {
		return
	}
	// a changed block replaces what it put before
	l3, e3 := []string{"insert_after /*C*/"}, svEdit{after: []string{"/*C*/"}}
	if svTier() > 0 {
		l3, e3 = svEdits("edit3", "/*C*/", false, true)
	}
	if svInvalid(p, e3) {
		return
	}
	w := &svOut{tok, map[int][]string{}, map[int][]string{}, map[int]string{}}
	w.add(names[0], p, e3)
	w.add(names[1], q, e2)
	r, err = ApplyXgoPatchContent(o.String(), svBlock(names[0], append(append([]string{}, p.cmds...), l3...)))
	svAssert(err == nil && r == w.String(), "a changed patch replaces what it put before")
}

// Two blocks at the same place, or one inside the text of the other.
//
//gosx:bounds 13 places; 4 forms of commands for each block; names one of which may begin with the other
//gosx:budget quick=60s thorough=100s
func SV_sameplace() {
	tok := svTokens()
	src := strings.Join(tok, "")
	names := [][]string{{"n", "m"}, {"n", "n2"}, {"n 2", "n"}}[svChoose("names", 3)]
	p := svPlaces[svChoose("place1", 13)]
	if tok[p.first] == "" {
		return
	}
	l1, e1 := svEdits("edit1", "/*A*/", false, true)
	l2, e2 := svEdits("edit2", "/*B*/", false, true)
	if svInvalid(p, e1) || svInvalid(p, e2) {
		return
	}
	if len(e1.afterLine) > 0 && len(e2.after) > 0 {
		return // "after line" is only the next line when nothing is in between
	}
	c2 := p.cmds
	switch svChoose("inside", 3) {
	case 1:
		c2 = []string{c2[0], "match /*A*/"}
		if len(p.cmds) == 1 || strings.HasPrefix(p.cmds[0], "goto struct") {
			return
		}
	case 2:
		c2 = []string{c2[0], "match /*A*/", "find_for_replace A"}
		l2 = []string{"replace C"}
		if len(p.cmds) == 1 || strings.HasPrefix(p.cmds[0], "goto struct") {
			return
		}
	}
	b1, b2 := svBlock(names[0], append(append([]string{}, p.cmds...), l1...)), svBlock(names[1], append(append([]string{}, c2...), l2...))
	r, err := ApplyXgoPatchContent(src, b1+b2)
	if err != nil {
		svAssert(strings.Contains(err.Error(), "text not found in scope"), "patches at the same place apply")
		return
	}
	svAssert(r != src, "a patch does something")
	again, err := ApplyXgoPatchContent(r, b1+b2)
	svAssert(err == nil && again == r, "patches at the same place applied again change nothing")
	svAssert(CleanPatch(r) == src, "cleaning removes patches at the same place")
	svAssert(clearPatch(clearPatch(r, names[1]), names[0]) == src, "clearing removes patches at the same place")
	svAssert(clearPatch(clearPatch(r, names[0]), names[1]) == src, "clearing removes patches at the same place in any order")
	svReach("same place")
}

// Functions are copied, once, under the new name, to the end of the file.
//
//gosx:bounds 4 forms of the declaration, methods and comments of the same name before it, arbitrary last byte of the file; one or two copies
//gosx:budget quick=40s thorough=60s
func SV_copy() {
	sig := []string{"()", "(a int) (b T)", "[T any](a T)", "(now func Now()) int"}[svChoose("sig", 3)]
	body := " {" + svStrIn("body", 1, " \n;") + "Now(); /* func Now() */ return }"
	fn := "func Now" + sig + body
	m := []string{"", "func (t T) Now() {}\n", "// func Now() {}\n\n", "var _ = `func Now() {}`\n"}[svChoose("before", 4)]
	src := "package p\n" + m + fn + []string{"", "\n", "\n\n", "\nvar Now2 int", " // x", "\nfunc now() {}\n"}[svChoose("tail", 6)]
	nl := "\n"
	if strings.HasSuffix(src, "\n") {
		nl = ""
	}
	out := nl + "func Real" + sig + body
	lines := []string{"copy_func Now as Real append to file end"}
	if svChoose("two", 2) == 1 {
		lines = append(lines, "copy_func Now as Other append to file end")
		out += "\nfunc Other" + sig + body
	}
	svCheckApply(src, svBlock("n", lines), src+"/*<begin n>*/"+out+"/*<end n>*/", []string{"n"})
	_, err := ApplyXgoPatchContent(src, svBlock("n", []string{"copy_func Later as Real append to file end"}))
	svAssert(err != nil, "a missing function is reported")
}

// A compiler directive is replaced, at the beginning of a line.
//
//gosx:bounds directives before a function of the file, with nothing, a space, more text or a carriage return after them; one or two of them
//gosx:budget quick=40s thorough=60s
func SV_directive() {
	rest := []string{"", " ", "\r", "X", " c"}[svChoose("rest", 5)]
	second := []string{"", "//go:nosplit" + rest + "\n"}[svChoose("second", 2)]
	pre, post := "package p\n"+svStrIn("pre", svChoose("npre", 2), "\n \t")+"\n", "func f() {}"+svStrIn("post", svChoose("npost", 2), "\n ")
	src := pre + "//go:linkname f a.f" + rest + "\n" + second + post
	lines := []string{"goto func f", "replace_directive //go:linkname f a.f with //go:linkname f b.f"}
	want := pre + "/*<next-line-original n>//go:linkname f a.f" + rest + "</next-line-original>*/\n//go:linkname f b.f" + rest + "\n"
	if second != "" && svChoose("both", 2) == 1 {
		lines = append(lines, "replace_directive //go:nosplit with //go:noinline")
		want += "/*<next-line-original n>//go:nosplit" + rest + "</next-line-original>*/\n//go:noinline" + rest + "\n"
	} else {
		want += second
	}
	if rest == " " {
		svReach("space")
	}
	svCheckApply(src, svBlock("n", lines), want+post, []string{"n"})
	// other patches of the file
	b2 := svBlock("m", []string{"goto func f", "goto closing }", "insert_before x()"})
	r, err := ApplyXgoPatchContent(src, svBlock("n", lines)+b2)
	svAssert(err == nil && r == want+strings.Replace(post, "}", "/*<begin m>*/x()/*<end m>*/}", 1), "a directive and code are patched")
	r2, err := ApplyXgoPatchContent(r, svBlock("n", lines)+b2)
	svAssert(err == nil && r2 == r, "patched directives and code are not patched again")
	svAssert(CleanPatch(r) == src, "cleaning removes patches of directives and code")
}

// What cannot be applied is reported.
//
//gosx:budget quick=20s thorough=30s
func SV_errors() {
	src := "package p\ntype S struct { a int }\ntype T int\ntype I interface{}\nfunc f() { x(); y() }\nfunc g()\nfunc (r *Rx) h() { z() }\nfunc (r *Rx) f() { w() }\n"
	bad := [][]string{
		{"goto struct T", "insert_before A"}, {"goto struct I", "insert_before A"}, {"goto struct X", "insert_before A"},
		{"goto interface S", "insert_before A"}, {"goto func S", "insert_before A"}, {"goto func h", "insert_before A"},
		{"goto func (*R) h", "insert_before A"}, {"goto func (x) h", "insert_before A"}, {"goto func (*Rx) x", "insert_before A"},
		{"goto struct S", "goto field b", "insert_before A"}, {"goto func g", "goto opening {", "insert_before A"},
		{"goto func f", "match z()", "insert_before A"}, {"goto func f", "match w()", "insert_before A"}, {"goto func (*Rx) h", "match x()", "insert_before A"},
		{"match q()", "insert_before A"}, {"find_for_replace q()", "replace A"}, {"goto func f", "match x()", "replace A"},
		{"goto func f", "insert_before"}, {"goto func f", "insert_after"}, {"goto func f", "insert_after_line"}, {"goto func f", "find_for_replace x()", "replace"},
		{"goto f"}, {"insert A"}, {"goto var x"}, {"copy_func f"}, {"copy_func q as r"}, {"replace_directive a"},
		{"goto func f", "find_for_replace x()", "replace A", "goto func f", "find_for_replace { x(", "replace B"},
		{"goto func f", "find_for_replace x()", "replace A", "goto func f", "match { x", "insert_after B"},
	}
	i := svChoose("bad", len(bad))
	good := svBlock("g", []string{"goto func f", "insert_before /*G*/"})
	p := svBlock("n", bad[i])
	if svBool("after") {
		p = good + p
	} else {
		p += good
	}
	r, err := ApplyXgoPatchContent(src, p)
	svAssert(err != nil && r == "", "a patch that cannot be applied is reported")
}

// The parts of a patch file: blocks with their names, one command per line.
//
//gosx:bounds up to 3 arbitrary bytes of text in a command, leading and trailing white space, comments, text around blocks
//gosx:budget quick=40s thorough=100s
func SV_parse() {
	t := svStrIn("t", 1+svChoose("nt", 2+svTier()), "a #<\t ")
	svAssume(t[len(t)-1] != ' ' && t[len(t)-1] != '\t')
	k := svChoose("cmd", 6)
	w := []string{"match", "find_for_replace", "insert_before", "insert_after", "insert_after_line", "replace"}[k]
	typ := []CommandType{CmdMatch, CmdFindForReplace, CmdInsertBefore, CmdInsertAfter, CmdInsertAfterLine, CmdReplace}[k]
	line := []string{"", "\t", "  "}[svChoose("indent", 3)] + w + " " + t + []string{"", " ", "\r", "\t"}[svChoose("trail", 4)]
	name := svStrIn("name", 1+svChoose("nname", 2), "ab_ ")
	svAssume(name[0] != ' ' && name[len(name)-1] != ' ')
	pf, err := ParseXgoPatch("x <patc\n<patch " + name + ">\n# c\n\n" + line + "\n \nnewline\n</patch>\ny\n<patch z>\n#\n</patch>")
	svAssert(err == nil && len(pf.Blocks) == 2, "the blocks of a patch file")
	b := pf.Blocks[0]
	svAssert(b.Name == name && len(b.Commands) == 2 && b.Commands[1].Type == CmdNewline, "the commands of a block")
	c := b.Commands[0]
	got := c.EditText
	if k < 2 {
		got = c.SearchText
	}
	svAssert(c.Type == typ && got == t, "the text of a command")
	svAssert(pf.Blocks[1].Name == "z" && len(pf.Blocks[1].Commands) == 0, "an empty block")
}
