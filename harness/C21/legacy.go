//gosx:pkg . cmd/xgo/trace
package trace

import (
	"encoding/json"
	"os"
	"path/filepath"
)

// SV_legacy: a trace file in the format of the legacy package is shown with
// what it holds.
//
//gosx:bounds trees of 1-3 calls in one of 3 shapes; one of them with 1 arbitrary printable ASCII byte in its name or an argument, an integer of 17-19 arbitrary last digits as a result, maybe a receiver, an error and a panic
//gosx:budget quick=30s thorough=60s
func SV_legacy() {
	c := svStr("text", 1)
	svAssume(c[0] >= ' ' && c[0] < 0x7f)
	q, _ := json.Marshal(c)
	esc := string(q[1 : len(q)-1])
	num := "24804535128592856" + svStrIn("digits", 2, "0179")
	recv, errored := svChoose("recv", 2) == 1, svChoose("error", 2) == 1
	nameEsc, argEsc, name, arg := "f", esc, "f", c
	if svChoose("in", 2) == 1 {
		nameEsc, argEsc, name, arg = esc, "x", c, "x"
	}
	info := `"Kind":"func","Pkg":"example.com/p","IdentityName":"T.` + nameEsc + `","Name":"` + nameEsc + `","File":"/some/a.go","Line":12`
	if recv {
		info += `,"RecvType":"T","RecvPtr":true,"RecvName":"t","ArgNames":["a","b"],"ResNames":["r"],"FirstArgCtx":true,"LastResultErr":true`
	}
	extra := ""
	if errored {
		extra = `,"Panic":true,"Error":"e"`
	}
	leaf := `{"FuncInfo":{"Pkg":"q","IdentityName":"g"},"Begin":20,"End":30,"Children":null}`
	kids, before, after := "null", "", ""
	shape := svChoose("shape", 3)
	switch shape {
	case 1:
		kids = "[" + leaf + "," + leaf + "]"
	case 2:
		before, after = leaf+",", ","+leaf
	}
	text := `{"Begin":"2024-03-01T12:00:00Z","Children":[` + before + `{"FuncInfo":{` + info + `},"Begin":100,"End":350,"Args":{"a":"` + argEsc + `"},"Results":{"r":` + num + `}` + extra + `,"Children":` + kids + `}` + after + `]}`
	file := filepath.Join(svTempDir(), "Trace.json")
	svAssert(os.WriteFile(file, []byte(text), 0644) == nil, "setup")
	rec, err := parseRecord(file)
	svAssert(err == nil, "a legacy trace cannot be read")
	st := convert(rec)
	svAssert(st.Begin == "2024-03-01T12:00:00Z", "the time of the trace differs")
	all, i := 1, 0
	if shape == 2 {
		all, i = 3, 1
	}
	svAssert(len(st.Children) == all, "a call is missing or twice")
	e := st.Children[i]
	leaves := e.Children
	if shape == 2 {
		svAssert(len(leaves) == 0, "a call is shown below another one")
		leaves = append(leaves, st.Children[0], st.Children[2])
	}
	svAssert(len(leaves) == 2 == (shape != 0), "a call is missing")
	for _, l := range leaves {
		svAssert(l.FuncInfo.Name == "g" && l.FuncInfo.Pkg == "q" && l.BeginNs == 20 && l.EndNs == 30 && l.Error == "" && !l.Panic && len(l.Children) == 0, "a call differs")
	}
	f := e.FuncInfo
	svAssert(string(f.Kind) == "func" && f.Pkg == "example.com/p" && f.Name == "T."+name && f.File == "/some/a.go" && f.Line == 12, "the function differs")
	svAssert(f.RecvPtr == recv && (f.RecvType == "T") == recv && (f.RecvName == "t") == recv && f.FirstArgCtx == recv && f.LastResultErr == recv, "the function differs")
	if recv {
		svAssert(len(f.ArgNames) == 2 && f.ArgNames[0] == "a" && f.ArgNames[1] == "b" && len(f.ResNames) == 1 && f.ResNames[0] == "r", "the names of the arguments differ")
	}
	svAssert(e.BeginNs == 100 && e.EndNs == 350, "the time differs")
	svAssert(e.Panic == errored && (e.Error == "e") == errored, "the error differs")
	b, err := json.Marshal(e.Args)
	svAssert(err == nil, "arguments that are not JSON")
	var args map[string]string
	svAssert(json.Unmarshal(b, &args) == nil && len(args) == 1 && args["a"] == arg, "the arguments differ")
	b, err = json.Marshal(e.Results)
	svAssert(err == nil && string(b) == `{"r":`+num+`}`, "a number differs")
	svReach("legacy")
}
