//gosx:pkg . cmd/xgo/trace/render
package render

import (
	"encoding/json"
	"os"
	"path/filepath"
	"strings"
)

// svCall is a call as the trace file has it.
type svCall struct {
	name  string
	arg   string // a text among the arguments
	num   string // a number among the results
	err   string
	panic bool
	line  int
	begin int
	kids  []*svCall
}

func svQuote(s string) string {
	b, _ := json.Marshal(s)
	return string(b)
}

func (c *svCall) text() string {
	p := ""
	if c.panic {
		p = `,"Panic":true,"PanicLine":7`
	}
	e := ""
	if c.err != "" {
		e = `,"Error":` + svQuote(c.err)
	}
	return `{"FuncInfo":{"Kind":"func","Pkg":"example.com/p","Name":` + svQuote(c.name) + `,"File":"/some/a.go","Line":12,"ArgNames":["a"]},"BeginNs":100,"EndNs":350,"Args":{"a":` + svQuote(c.arg) + `},"Results":{"r":` + c.num + `}` + p + e + `,"Children":` + svTexts(c.kids) + `}`
}

func svTexts(l []*svCall) string {
	if len(l) == 0 {
		return "null"
	}
	var t []string
	for _, c := range l {
		t = append(t, c.text())
	}
	return "[" + strings.Join(t, ",\n") + "]"
}

func svStackText(l []*svCall) string {
	return `{"Format":"stack","Begin":"2024-03-01T12:00:00Z","Children":` + svTexts(l) + "}\n"
}

// svData is what the page holds of a call.
type svData struct {
	FuncInfo struct {
		Name, Pkg, File string
		Line            int
	}
	BeginNs, EndNs int64
	Args           map[string]string
	Results        map[string]json.RawMessage
	Panic          bool
	PanicLine      int
	Error          string
}

// svEscape is the text shown for s in HTML.
func svEscape(s string) string {
	r := ""
	for _, b := range []byte(s) {
		switch b {
		case '<':
			r += "&lt;"
		case '>':
			r += "&gt;"
		case '&':
			r += "&amp;"
		case '\'':
			r += "&#39;"
		case '"':
			r += "&#34;"
		default:
			r += string([]byte{b})
		}
	}
	return r
}

type svOut struct{ b []byte }

func (w *svOut) Write(b []byte) (int, error) {
	w.b = append(w.b, b...)
	return len(b), nil
}

// svPage checks the page of the stacks: from the tree shown it finds the data
// of each entry.
func svPage(page string, tops [][]*svCall) {
	i := strings.Index(page, " const ids = []")
	svAssert(i >= 0, "the page has no data")
	head := page[i:]
	j := strings.Index(head, "</script>")
	svAssert(j >= 0, "the page has no script")
	data := head[:j]
	svAssert(strings.Index(data, "<!--") < 0, "data opens a comment in the script")
	k := strings.Index(page, `<ul class="trace-list">`)
	svAssert(k >= 0, "the page has no list")
	body := page[k:]
	k = strings.Index(body, `<div class="detail">`)
	svAssert(k >= 0, "the page has no details")
	body = body[:k]

	byID := map[string]string{}
	var ids []string
	for _, l := range strings.Split(data, "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, `traces["`) {
			l = l[len(`traces["`):]
			e := strings.Index(l, `"] = `)
			svAssert(e >= 0, "a line of data")
			_, twice := byID[l[:e]]
			svAssert(!twice, "two entries with one id")
			byID[l[:e]] = l[e+len(`"] = `):]
		} else if strings.HasPrefix(l, `ids.push("`) {
			ids = append(ids, strings.TrimSuffix(l[len(`ids.push("`):], `")`))
		}
	}
	svAssert(len(ids) == len(byID), "an id is missing")

	// the tree: heads in order, each with its depth
	type shown struct {
		id, name, class string
		depth           int
	}
	var got []shown
	depth := 0
	for {
		h := strings.Index(body, `id="head_`)
		ul := strings.Index(body, `<ul`)
		end := strings.Index(body, `</ul>`)
		if ul >= 0 && (h < 0 || ul < h) && ul < end {
			depth++
			body = body[ul+3:]
			continue
		}
		if end >= 0 && (h < 0 || end < h) {
			depth--
			body = body[end+5:]
			continue
		}
		if h < 0 {
			break
		}
		body = body[h+len(`id="head_`):]
		var s shown
		s.depth = depth
		s.id = body[:strings.Index(body, `"`)]
		body = body[strings.Index(body, `class="`)+len(`class="`):]
		s.class = body[:strings.Index(body, `"`)]
		body = body[strings.Index(body, `head-name">`)+len(`head-name">`):]
		e := strings.Index(body, `</span>`)
		s.name = body[:e]
		body = body[e:]
		got = append(got, s)
	}
	svAssert(depth == 0, "lists are not closed")
	n := 0
	var walk func(c *svCall, depth int)
	walk = func(c *svCall, depth int) {
		svAssert(n < len(got), "a call is not shown")
		s := got[n]
		n++
		svAssert(s.depth == depth, "a call is shown below another one")
		svAssert(s.name == svEscape(c.name), "a call is shown by another name")
		svAssert(strings.Contains(s.class, "panic") == c.panic, "a panic is not marked, or marked for another call")
		svAssert(strings.Contains(s.class, "error") == (c.err != ""), "an error is not marked, or marked for another call")
		text, ok := byID[s.id]
		svAssert(ok, "a call has no data")
		var d svData
		svAssert(json.Unmarshal([]byte(text), &d) == nil, "the data of a call is not JSON")
		svAssert(d.FuncInfo.Name == c.name && d.FuncInfo.Pkg == "example.com/p" && d.FuncInfo.File == "/some/a.go" && d.FuncInfo.Line == 12, "the data of a call is another one's function")
		svAssert(d.Args["a"] == c.arg, "the arguments differ")
		svAssert(string(d.Results["r"]) == c.num, "a number differs")
		svAssert(d.Error == c.err && d.Panic == c.panic, "the error differs")
		svAssert(d.PanicLine == 7 == c.panic, "the panic line differs")
		svAssert(d.BeginNs == 100 && d.EndNs == 350, "the time differs")
		for _, x := range c.kids {
			walk(x, depth+1)
		}
	}
	for _, t := range tops {
		svAssert(n < len(got) && got[n].depth == 1 && strings.HasPrefix(got[n].name, "&lt;root"), "a stack is not shown")
		n++
		for _, c := range t {
			walk(c, 2)
		}
	}
	svAssert(n == len(got), "calls are shown that were not recorded")
	svAssert(len(got) == len(byID), "data of no call")
}

// SV_page: the page of a trace file shows each call of each stack once, in its
// place, with its name, arguments, results, error and panic.
//
//gosx:bounds files of 1-2 stacks with up to 3 calls, in 7 shapes; one of the calls has 1 (thorough 2) arbitrary printable ASCII bytes, maybe after </script or <!--, as its name, as an argument or as its error, a number of 19 digits or a fraction as a result, and maybe an error or a panic
//gosx:budget quick=90s thorough=200s
func SV_page() {
	num := "24804535128592856" + svStrIn("digits", 2, "0179")
	ascii := func(name string, n int) string {
		s := svStr(name, n)
		for i := 0; i < len(s); i++ {
			svAssume(s[i] >= ' ' && s[i] < 0x7f)
		}
		return s
	}
	odd := &svCall{name: "o", arg: "z", num: num}
	switch svChoose("error", 3) {
	case 1:
		odd.err = "e"
	case 2:
		odd.err = "e"
		odd.panic = true
		odd.num = "-0.5" + svStrIn("digit", 1, "19")
	}
	before := []string{"", "</script", "<!--"}[svChoose("before", 3)]
	text := before + ascii("text", 1+svTier())
	switch svChoose("odd", 3) {
	case 0:
		odd.name = text
	case 1:
		odd.arg = text
	case 2:
		odd.err = text
	}
	a := &svCall{name: "f", arg: "x", num: "1"}
	b := &svCall{name: "(*T).g", arg: "", num: "2"}
	var top []*svCall
	tree, more := svChoose("tree", 7), 0
	if tree > 4 {
		tree, more = 7-tree, tree-4
	}
	svAssume(before == "" || tree == 1 && more == 0)
	switch tree {
	case 0:
		top = []*svCall{odd}
	case 1:
		a.kids = []*svCall{odd, b}
		top = []*svCall{a}
	case 2:
		a.kids = []*svCall{odd}
		top = []*svCall{a, b}
	case 3:
		odd.kids = []*svCall{a}
		a.kids = []*svCall{b}
		top = []*svCall{odd}
	case 4:
		top = []*svCall{a, odd, b}
	}
	stacks := [][]*svCall{top}
	switch more {
	case 1:
		stacks = append(stacks, []*svCall{{name: "h", num: "3"}})
	case 2:
		stacks = [][]*svCall{nil, top}
	}
	content := ""
	for _, s := range stacks {
		content += svStackText(s)
	}
	file := filepath.Join(svTempDir(), "Trace.json")
	svAssert(os.WriteFile(file, []byte(content), 0644) == nil, "setup")
	got, ok, err := ReadStacks(file)
	svAssert(err == nil && ok, "a trace cannot be read")
	w := &svOut{}
	svAssert(RenderStacks(got, file, w) == nil, "a trace cannot be shown")
	svPage(string(w.b), stacks)
	w2 := &svOut{}
	svAssert(RenderFile(file, w2) == nil && string(w2.b) == string(w.b), "RenderFile shows something else")
	svReach("shown")
}

// SV_cut: a file whose end is missing or damaged shows the stacks that are
// whole, and says that there is an error.
//
//gosx:bounds files of 1-2 whole stacks, then a third cut after an arbitrary number of its bytes, or one arbitrary byte
//gosx:budget quick=60s thorough=100s
func SV_cut() {
	svTerminates()
	a := &svCall{name: "f", arg: "x", num: "1", kids: []*svCall{{name: "g", arg: "y", num: "2"}}}
	n := 1 + svChoose("whole", 2)
	var stacks [][]*svCall
	text := ""
	for i := 0; i < n; i++ {
		stacks = append(stacks, []*svCall{a})
		text += svStackText(stacks[i])
	}
	last := `{"Format":"stack","Children":[{"Error":"e"}]}`
	rest := ""
	if svChoose("cut", 2) == 1 {
		rest = last[:1+svPick("at", len(last)-1)]
	} else {
		rest = svStr("damage", 1)
		svAssume(rest[0] != ' ' && rest[0] != '\t' && rest[0] != '\n' && rest[0] != '\r')
		svAssume(rest[0] < '0' || rest[0] > '9')
	}
	file := filepath.Join(svTempDir(), "Trace.json")
	svAssert(os.WriteFile(file, []byte(text+rest), 0644) == nil, "setup")
	got, ok, err := ReadStacks(file)
	svAssert(err == nil && ok, "what is whole of a trace is not shown")
	svAssert(len(got) == n+1, "what is whole of a trace is not shown, or more is")
	svAssert(len(got[n].Children) == 1 && got[n].Children[0].Error != "", "the damage is not told")
	w := &svOut{}
	svAssert(RenderStacks(got[:n], file, w) == nil, "a trace cannot be shown")
	svPage(string(w.b), stacks)
	w = &svOut{}
	svAssert(RenderStacks(got, file, w) == nil, "a damaged trace cannot be shown")
	svAssert(strings.Contains(string(w.b), "parse stack"), "the damage is not shown")
	svReach("cut")
}

// SV_title: the name of the file is shown as it is.
//
//gosx:bounds a file name with an arbitrary printable ASCII byte
//gosx:budget quick=10s thorough=30s
func SV_title() {
	title := "T" + svStr("title", 1)
	svAssume(title[1] >= ' ' && title[1] < 0x7f)
	w := &svOut{}
	svAssert(RenderStacks(nil, title, w) == nil, "a trace cannot be shown")
	svAssert(strings.Contains(string(w.b), "<title>Trace of "+svEscape(title)+"</title>"), "the page has another title")
	svReach("title")
}
