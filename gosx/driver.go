package main

import (
	"context"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	pathpkg "path"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// hfile is one harness source file.
type hfile struct {
	race     bool   // replays under the race detector
	path     string // in /verif
	mod, pkg string // module dir and package dir, relative to /repo
	with     []string
	replace  map[string]string // repo-relative -> file
	imports  [][3]string       // files (repo-relative glob), import path, path of its stand-in
	consts   [][3]string       // file (repo-relative), constant, its value
	src      []byte
	pkgName  string
	harness  []*hdecl
	mainPkg  bool
}

type hdecl struct {
	name   string
	quick  time.Duration
	thor   time.Duration
	known  string
	bounds string
	reach  []string
	thorOn bool
	nosamp bool
	file   *hfile
	tries  int
}

func repoRoot() string {
	if d := os.Getenv("GOSX_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func parseHarness(path string) (*hfile, error) {
	src, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	h := &hfile{path: path, src: src, replace: map[string]string{}}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	h.pkgName = f.Name.Name
	for _, cg := range f.Comments {
		for _, c := range cg.List {
			t, ok := strings.CutPrefix(c.Text, "//gosx:")
			if !ok {
				continue
			}
			fs := strings.Fields(t)
			switch fs[0] {
			case "pkg":
				h.mod, h.pkg = fs[1], fs[2]
			case "race":
				h.race = true
			case "with":
				for _, w := range fs[1:] {
					h.with = append(h.with, filepath.Join(filepath.Dir(path), w))
				}
			case "replace":
				h.replace[fs[1]] = filepath.Join(filepath.Dir(path), fs[2])
			case "const":
				h.consts = append(h.consts, [3]string{fs[1], fs[2], fs[3]})
			case "import":
				h.imports = append(h.imports, [3]string{fs[1], fs[2], fs[3]})
			}
		}
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Recv != nil || !strings.HasPrefix(fd.Name.Name, "SV_") {
			continue
		}
		hd := &hdecl{name: fd.Name.Name, file: h, quick: 30 * time.Second, thor: 120 * time.Second, tries: 1}
		if fd.Doc != nil {
			for _, c := range fd.Doc.List {
				t, ok := strings.CutPrefix(c.Text, "//gosx:")
				if !ok {
					continue
				}
				k, rest, _ := strings.Cut(t, " ")
				switch k {
				case "budget":
					for _, kv := range strings.Fields(rest) {
						n, v, _ := strings.Cut(kv, "=")
						d, err := time.ParseDuration(v)
						if err != nil {
							return nil, err
						}
						if n == "quick" {
							hd.quick = d
						} else {
							hd.thor = d
						}
					}
				case "known":
					hd.known = strings.TrimSpace(rest)
				case "bounds":
					if hd.bounds != "" {
						hd.bounds += " "
					}
					hd.bounds += strings.TrimSpace(rest)
				case "thorough":
					hd.thorOn = true
				case "tries":
					hd.tries, _ = strconv.Atoi(strings.TrimSpace(rest))
				case "nosample":
					hd.nosamp = true
				}
			}
		}
		ast.Inspect(fd, func(n ast.Node) bool {
			if c, ok := n.(*ast.CallExpr); ok {
				if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "svReach" && len(c.Args) == 1 {
					if bl, ok := c.Args[0].(*ast.BasicLit); ok {
						s, _ := strconv.Unquote(bl.Value)
						hd.reach = append(hd.reach, s)
					}
				}
			}
			return true
		})
		h.harness = append(h.harness, hd)
	}
	return h, nil
}

// group is a set of harness files loaded together (same module, same replacements).
type group struct {
	mod   string
	files []*hfile
	dead  map[*hfile]string
}

func (g *group) pkgs() map[string][]*hfile {
	r := map[string][]*hfile{}
	for _, f := range g.files {
		if g.dead[f] == "" {
			r[f.pkg] = append(r[f.pkg], f)
		}
	}
	return r
}

// overlay builds the file replacements; native adds the replay test.
func (g *group) overlay(native bool) (map[string][]byte, error) {
	ov := map[string][]byte{}
	rt, err := os.ReadFile(filepath.Join(verifRoot(), "gosx/rt/sv_rt.go.tmpl"))
	if err != nil {
		return nil, err
	}
	tt, err := os.ReadFile(filepath.Join(verifRoot(), "gosx/rt/sv_test.go.tmpl"))
	if err != nil {
		return nil, err
	}
	for pkg, fs := range g.pkgs() {
		dir := filepath.Join(repoRoot(), g.mod, pkg)
		ov[filepath.Join(dir, "zz_sv_rt.go")] = []byte(strings.Replace(string(rt), "PKGNAME", fs[0].pkgName, 1))
		var names strings.Builder
		seen := map[string]bool{}
		for _, f := range fs {
			base := strings.TrimSuffix(filepath.Base(f.path), ".go")
			ov[filepath.Join(dir, "zz_sv_h_"+base+".go")] = f.src
			for _, w := range f.with {
				if seen[w] {
					continue
				}
				seen[w] = true
				b, err := os.ReadFile(w)
				if err != nil {
					return nil, err
				}
				b = []byte(strings.Replace(string(b), "package PKGNAME", "package "+f.pkgName, 1))
				ov[filepath.Join(dir, "zz_sv_w_"+strings.TrimSuffix(filepath.Base(w), ".go")+".go")] = b
			}
			for k, v := range f.replace {
				b, err := os.ReadFile(v)
				if err != nil {
					return nil, err
				}
				ov[filepath.Join(repoRoot(), k)] = b
			}
			for _, c := range f.consts {
				if err := setConst(ov, c); err != nil {
					return nil, err
				}
			}
			for _, im := range f.imports {
				if err := standIn(ov, im); err != nil {
					return nil, err
				}
			}
			for _, h := range f.harness {
				fmt.Fprintf(&names, "\t\t%q: %s,\n", h.name, h.name)
			}
		}
		if native {
			s := strings.Replace(string(tt), "PKGNAME", fs[0].pkgName, 1)
			ov[filepath.Join(dir, "zz_sv_replay_test.go")] = []byte(strings.Replace(s, "HARNESSES", names.String(), 1))
		}
	}
	if !native {
		b, err := os.ReadFile(filepath.Join(verifRoot(), "gosx/rt/stub.go.tmpl"))
		if err != nil {
			return nil, err
		}
		ov[filepath.Join(goroot(), "src/zzsvstub/zzsvstub.go")] = b
	}
	return ov, nil
}

// standIn makes the non-test files matching im[0] import im[2] for im[1].
func standIn(ov map[string][]byte, im [3]string) error {
	names, err := filepath.Glob(filepath.Join(repoRoot(), im[0]))
	if err != nil {
		return err
	}
	for _, n := range names {
		if strings.HasSuffix(n, "_test.go") {
			continue
		}
		src := ov[n]
		if src == nil {
			if src, err = os.ReadFile(n); err != nil {
				return err
			}
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, n, src, parser.ImportsOnly)
		if err != nil {
			return err
		}
		for _, s := range f.Imports {
			if s.Path.Value != strconv.Quote(im[1]) {
				continue
			}
			a, b := fset.Position(s.Path.Pos()).Offset, fset.Position(s.Path.End()).Offset
			to := strconv.Quote(im[2])
			if s.Name == nil {
				to = pathpkg.Base(im[1]) + " " + to
			}
			out := string(src[:a]) + to + string(src[b:])
			if im[1] == "embed" {
				out = strings.ReplaceAll(out, "\n//go:embed ", "\n// ")
			}
			ov[n] = []byte(out)
			break
		}
	}
	return nil
}

// setConst gives a constant, which may be local, another value, if it is there.
func setConst(ov map[string][]byte, c [3]string) error {
	n := filepath.Join(repoRoot(), c[0])
	src, err := ov[n], error(nil)
	if src == nil {
		if src, err = os.ReadFile(n); err != nil {
			return nil
		}
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, n, src, 0)
	if err != nil {
		return err
	}
	ast.Inspect(f, func(nd ast.Node) bool {
		if v, ok := nd.(*ast.ValueSpec); ok && len(v.Names) == 1 && len(v.Values) == 1 && v.Names[0].Name == c[1] {
			a, b := fset.Position(v.Values[0].Pos()).Offset, fset.Position(v.Values[0].End()).Offset
			ov[n] = []byte(string(src[:a]) + c[2] + string(src[b:]))
			return false
		}
		return true
	})
	return nil
}

var gorootV string

func goroot() string {
	if gorootV == "" {
		b, err := exec.Command("go", "env", "GOROOT").Output()
		if err != nil {
			panic(err)
		}
		gorootV = strings.TrimSpace(string(b))
	}
	return gorootV
}

// nativeBin compiles the replay test binary of one package.
type nativeBin struct {
	path string
	err  error
	once sync.Once
}

type runner struct {
	id      string
	tier    int
	tierS   string
	work    string
	groups  []*group
	bins    map[string]*nativeBin
	verbose bool
	dead    time.Time
}

func (r *runner) bin(g *group, f *hfile) (string, error) {
	key := g.mod + "|" + f.pkg
	var flags []string
	if f.race {
		key += "|race"
		flags = []string{"-race"}
	}
	b := r.bins[key]
	if b == nil {
		b = &nativeBin{}
		r.bins[key] = b
	}
	b.once.Do(func() {
		ov, err := g.overlay(true)
		if err != nil {
			b.err = err
			return
		}
		h := sha256.Sum256([]byte(key))
		dir := filepath.Join(r.work, fmt.Sprintf("ov%x", h[:4]))
		os.MkdirAll(dir, 0755)
		rep := map[string]string{}
		i := 0
		for k, v := range ov {
			i++
			p := filepath.Join(dir, fmt.Sprintf("%d_%s", i, filepath.Base(k)))
			if err := os.WriteFile(p, v, 0644); err != nil {
				b.err = err
				return
			}
			rep[k] = p
		}
		js, _ := json.Marshal(map[string]any{"Replace": rep})
		oj := filepath.Join(dir, "overlay.json")
		os.WriteFile(oj, js, 0644)
		out := filepath.Join(dir, "replay.test")
		c := exec.Command("go", append(append([]string{"test", "-c", "-vet=off"}, flags...), "-overlay", oj, "-o", out, "./"+f.pkg)...)
		c.Dir = filepath.Join(repoRoot(), g.mod)
		if msg, err := c.CombinedOutput(); err != nil {
			b.err = fmt.Errorf("native build of %s: %v\n%s", f.pkg, err, msg)
			return
		}
		b.path = out
	})
	return b.path, b.err
}

type replayReq struct {
	Harness string
	Vals    []replayVal
}
type replayVal struct {
	Key string
	Val uint64
}
type replayRes struct {
	I   int
	Res string
	Obs []string
}

func (r *runner) native(g *group, f *hfile, reqs []replayReq, timeout time.Duration) (res []replayRes, timedOut bool, err error) {
	bin, err := r.bin(g, f)
	if err != nil {
		return nil, false, err
	}
	js, _ := json.Marshal(reqs)
	d, err := os.MkdirTemp(r.work, "run")
	if err != nil {
		return nil, false, err
	}
	defer os.RemoveAll(d)
	p := filepath.Join(d, "replay.json")
	os.WriteFile(p, js, 0644)
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	c := exec.CommandContext(ctx, bin, "-test.run", "^TestZZSVReplay$", "-test.count=1", "-test.v")
	c.Dir = d
	tier := "0"
	if r.tier > 0 {
		tier = "1"
	}
	c.Env = append(os.Environ(), "SV_REPLAY="+p, "SV_TIER="+tier, "TMPDIR="+d, "GORACE=halt_on_error=1")
	out, err := c.CombinedOutput()
	if os.Getenv("GOSX_ERR") != "" {
		os.Stderr.Write(out)
	}
	for _, l := range strings.Split(string(out), "\n") {
		if k := strings.Index(l, "SVREPLAY {"); k >= 0 {
			var rr replayRes
			if json.Unmarshal([]byte(l[k+len("SVREPLAY "):]), &rr) == nil {
				res = append(res, rr)
			}
		}
	}
	if ctx.Err() != nil {
		return res, true, nil
	}
	if err != nil && len(res) < len(reqs) {
		// the process died: a fatal error in request len(res)
		t := string(out)
		if len(t) > 400 {
			t = t[:400]
		}
		res = append(res, replayRes{I: len(res), Res: "CRASH: " + t})
	}
	return res, false, nil
}

func reqOf(v []nondetRec, h string) replayReq {
	q := replayReq{Harness: h}
	for _, n := range v {
		q.Vals = append(q.Vals, replayVal{n.Key, n.Val})
	}
	return q
}

type knownFinding struct {
	ID       string `json:"id"`
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Msg      string `json:"msg"`  // the assertion that fails
	What     string `json:"what"` // the input and what fails
}

func loadKnown() ([]knownFinding, error) {
	b, err := os.ReadFile(filepath.Join(verifRoot(), "known-findings.json"))
	if err != nil {
		if os.IsNotExist(err) {
			return nil, nil
		}
		return nil, err
	}
	var k struct{ Findings []knownFinding }
	if err := json.Unmarshal(b, &k); err != nil {
		return nil, err
	}
	return k.Findings, nil
}

func runCheck(id string, args []string) int {
	only := ""
	strict := false
	verbose := os.Getenv("GOSX_VERBOSE") != ""
	for i := 0; i < len(args); i++ {
		switch args[i] {
		case "-only":
			i++
			only = args[i]
		case "-strict":
			strict = true
		case "-v":
			verbose = true
		}
	}
	tierS := os.Getenv("VERIF_TIER")
	if tierS != "thorough" {
		tierS = "quick"
	}
	r := &runner{id: id, tierS: tierS, bins: map[string]*nativeBin{}, verbose: verbose}
	if tierS == "thorough" {
		r.tier = 1
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	t0 := time.Now()
	hard := 600 * time.Second
	if r.tier == 1 {
		hard = 780 * time.Second
	}
	r.dead = t0.Add(hard)
	var err error
	r.work, err = os.MkdirTemp("", "gosx")
	if err != nil {
		fmt.Println("gosx:", err)
		return 2
	}
	defer os.RemoveAll(r.work)
	hdir := filepath.Join(verifRoot(), "harness", id)
	ms, _ := filepath.Glob(filepath.Join(hdir, "*.go"))
	if len(ms) == 0 {
		fmt.Println("gosx: no harness for", id)
		return 2
	}
	sort.Strings(ms)
	gm := map[string]*group{}
	for _, p := range ms {
		h, err := parseHarness(p)
		if err != nil {
			fmt.Println("gosx:", err)
			return 2
		}
		if h.pkg == "" {
			continue
		}
		g := gm[h.mod]
		if g == nil {
			g = &group{mod: h.mod, dead: map[*hfile]string{}}
			gm[h.mod] = g
			r.groups = append(r.groups, g)
		}
		g.files = append(g.files, h)
	}
	known, err := loadKnown()
	if err != nil {
		fmt.Println("gosx: known findings:", err)
		return 2
	}
	ev := &evidence{r: r, seed: seed}
	exit := 0
	decided := 0
	for _, g := range r.groups {
		eng, err := r.loadGroup(g)
		if err != nil {
			fmt.Printf("UNDECIDED property=%s module %s cannot be encoded: %v\n", id, g.mod, err)
			ev.reduced = append(ev.reduced, fmt.Sprintf("module %s not encoded: %v", g.mod, firstLine(err.Error(), 4)))
			continue
		}
		for f, why := range g.dead {
			fmt.Printf("REDUCED property=%s harness file %s does not compile against this tree: %s\n", id, filepath.Base(f.path), firstLine(why, 3))
			ev.reduced = append(ev.reduced, "harness file "+filepath.Base(f.path)+" does not compile: "+firstLine(why, 3))
		}
		for _, f := range g.files {
			if g.dead[f] != "" {
				continue
			}
			for _, hd := range f.harness {
				if only != "" && hd.name != only {
					continue
				}
				if hd.thorOn && r.tier == 0 && only == "" {
					continue
				}
				x := r.runHarness(eng, g, hd, known, ev)
				decided++
				if x == 1 {
					exit = 1
				}
				if strict && (x != 0 || ev.lastBad) {
					fmt.Println("STRICT: not clean:", hd.name)
					defer func() { os.Exit(3) }()
				}
			}
		}
		eng.close()
	}
	if decided == 0 {
		fmt.Printf("UNDECIDED property=%s\n", id)
		return 2
	}
	ev.wall = time.Since(t0).Seconds()
	if only == "" {
		if err := ev.write(); err != nil {
			fmt.Println("gosx: evidence:", err)
			return 2
		}
	}
	fmt.Printf("gosx: property %s tier %s: %d harnesses, %d paths, %d queries, %.1fs solver, %.1fs wall, %d traces validated natively, %d violations\n",
		id, tierS, decided, ev.paths, ev.queries, ev.solver, ev.wall, ev.traces, ev.viol)
	return exit
}

func (r *runner) loadGroup(g *group) (*Engine, error) {
	for try := 0; ; try++ {
		ov, err := g.overlay(false)
		if err != nil {
			return nil, err
		}
		var pats []string
		for p := range g.pkgs() {
			pats = append(pats, "./"+p)
		}
		if len(pats) == 0 {
			why := ""
			for _, w := range g.dead {
				why += "\n  " + w
			}
			return nil, fmt.Errorf("no usable harness file%s", why)
		}
		sort.Strings(pats)
		e := &Engine{tier: r.tier, solver: "z3-new"}
		if s := os.Getenv("GOSX_SOLVER"); s != "" {
			e.solver = s
		}
		err = e.load(loadSpec{dir: filepath.Join(repoRoot(), g.mod), patterns: pats, overlay: ov})
		if err != nil {
			// drop harness files that no longer compile
			dropped := false
			for _, f := range g.files {
				base := "zz_sv_h_" + strings.TrimSuffix(filepath.Base(f.path), ".go") + ".go"
				if g.dead[f] == "" {
					for _, l := range strings.Split(err.Error(), "\n") {
						if strings.Contains(l, base+":") {
							g.dead[f] = l
							dropped = true
							break
						}
					}
				}
			}
			if dropped && try < 4 {
				continue
			}
			return nil, err
		}
		n := runtime.NumCPU()
		if n > 8 {
			n = 8
		}
		if s := os.Getenv("GOSX_JOBS"); s != "" {
			n, _ = strconv.Atoi(s)
		}
		for i := 0; i < n; i++ {
			m, err := e.newMachine()
			if err != nil {
				return nil, err
			}
			e.machines = append(e.machines, m)
		}
		return e, nil
	}
}

func (e *Engine) close() {
	for _, m := range e.machines {
		m.solver.Close()
	}
	e.machines = nil
}

func (r *runner) runHarness(e *Engine, g *group, hd *hdecl, known []knownFinding, ev *evidence) int {
	budget := hd.quick
	if r.tier == 1 {
		budget = hd.thor
	}
	if left := time.Until(r.dead); budget > left {
		budget = left
	}
	pkgPath := ""
	for _, p := range e.pkgs {
		if len(p.GoFiles) > 0 && filepath.Dir(p.GoFiles[0]) == filepath.Join(repoRoot(), g.mod, hd.file.pkg) {
			pkgPath = p.PkgPath
		}
	}
	h := &Harness{Name: hd.name, pkgPath: pkgPath, funcStr: hd.name}
	res := e.explore(h, budget, r.tier)
	ev.lastBad = false
	ev.add(hd, res)
	for k, v := range e.initErrs {
		if r.verbose {
			fmt.Println("  init:", k, firstLine(v, 4))
		}
	}
	st := "complete"
	if !res.Complete {
		st = "REDUCED"
		if len(res.Violations) > 0 {
			st = "violated"
		}
	}
	fmt.Printf("%-34s %-8s paths=%d infeasible=%d asserts=%d/%d queries=%d domain=%d ranges=%d/%d merges=%d solver=%.1fs wall=%.1fs steps=%d\n", hd.name, st, res.Paths, res.Infeasible, res.Asserts, res.AssertSym, res.Queries, res.Domain, res.Ranges, res.Confirmed, res.Merges, res.SolverSec, res.WallSec, res.Steps)
	for _, w := range res.Incomplete {
		fmt.Println("   reduced bound:", w)
		ev.lastBad = true
		ev.reduced = append(ev.reduced, hd.name+": "+w)
	}
	for _, l := range hd.reach {
		if res.Reached[l] == 0 && len(res.Violations) == 0 {
			fmt.Printf("   label %q not reached\n", l)
			ev.lastBad = true
			ev.reduced = append(ev.reduced, fmt.Sprintf("%s: label %q was not reached", hd.name, l))
		}
	}
	if res.Asserts == 0 && len(res.Violations) == 0 {
		fmt.Println("   no assertion evaluated")
		ev.lastBad = true
	}
	exit := 0
	// violations: replay natively
	msgs := map[string]bool{}
	for _, v := range res.Violations {
		if r.verbose {
			fmt.Printf("   candidate %s: %s\n     %s\n", v.Kind, firstLine(v.Msg, 6), fmtVals(v.Vals))
		}
		if msgs[v.Kind+firstLine(v.Msg, 1)] {
			continue
		}
		ok, how, bad := r.confirm(g, hd, v)
		if bad != "" {
			fmt.Println("   replay failed:", bad)
			ev.lastBad = true
			continue
		}
		if !ok {
			fmt.Printf("   UNCONFIRMED %s: %s (native: %s)\n     %s\n", v.Kind, firstLine(v.Msg, 2), how, fmtVals(v.Vals))
			ev.reduced = append(ev.reduced, fmt.Sprintf("%s: counterexample not reproduced natively (%s)", hd.name, firstLine(v.Msg, 1)))
			ev.lastBad = true
			continue
		}
		msgs[v.Kind+firstLine(v.Msg, 1)] = true
		isKnown := false
		for _, k := range known {
			if k.Property == r.id && k.Harness == hd.name && strings.Contains(how, k.Msg) {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.id, k.What)
				isKnown = true
				ev.known = append(ev.known, k.ID)
				break
			}
		}
		if isKnown {
			continue
		}
		exit = 1
		ev.viol++
		path := r.writeReplay(g, hd, v, how)
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.id, path)
		fmt.Printf("   %s: %s\n   native replay: %s\n   %s\n", hd.name, firstLine(v.Msg, 3), firstLine(how, 2), fmtVals(v.Vals))
	}
	// differential validation of passing paths
	if len(res.Traces) > 0 && !hd.nosamp {
		var reqs []replayReq
		for _, t := range res.Traces {
			reqs = append(reqs, reqOf(t.vals, hd.name))
		}
		rs, to, err := r.native(g, hd.file, reqs, 60*time.Second)
		if err != nil {
			fmt.Println("   validation:", firstLine(err.Error(), 12))
			ev.lastBad = true
			ev.reduced = append(ev.reduced, hd.name+": traces not validated: "+firstLine(err.Error(), 2))
		}
		if to {
			fmt.Println("   validation: native run timed out")
			ev.lastBad = true
		}
		for _, rr := range rs {
			if rr.I >= len(res.Traces) {
				continue
			}
			t := res.Traces[rr.I]
			if rr.Res != "" || strings.Join(rr.Obs, "\x00") != strings.Join(t.obs, "\x00") {
				fmt.Printf("   DIVERGENCE %s: native %q obs %q, symbolic obs %q\n     %s\n", hd.name, firstLine(rr.Res, 3), rr.Obs, t.obs, fmtVals(t.vals))
				ev.lastBad = true
				ev.diverge++
				ev.reduced = append(ev.reduced, hd.name+": native run and encoding disagree on a sampled path")
				// A native failure of the real code on a concrete input is a violation in its own right.
				if (strings.HasPrefix(rr.Res, "FAIL") || strings.HasPrefix(rr.Res, "PANIC") || strings.HasPrefix(rr.Res, "CRASH")) && exit == 0 && hd.known == "" {
					v := violation{Harness: hd.name, Kind: "native", Msg: rr.Res, Vals: t.vals}
					path := r.writeReplay(g, hd, v, rr.Res)
					fmt.Printf("VIOLATION property=%s replay=%s\n", r.id, path)
					ev.viol++
					exit = 1
				}
			} else {
				ev.traces++
			}
		}
	}
	return exit
}

func fmtVals(vs []nondetRec) string {
	var sb strings.Builder
	strs := map[string][]byte{}
	var order []string
	for _, v := range vs {
		if k := strings.IndexByte(v.Key, '['); k > 0 && v.W == 8 {
			b := v.Key[:k]
			if _, ok := strs[b]; !ok {
				order = append(order, b)
			}
			strs[b] = append(strs[b], byte(v.Val))
			continue
		}
		fmt.Fprintf(&sb, "%s=%d ", v.Key, v.Val)
	}
	for _, b := range order {
		fmt.Fprintf(&sb, "%s=%q ", b, strs[b])
	}
	return sb.String()
}

func (r *runner) confirm(g *group, hd *hdecl, v violation) (ok bool, how string, bad string) {
	for try := 0; try < hd.tries; try++ {
		rs, to, err := r.native(g, hd.file, []replayReq{reqOf(v.Vals, hd.name)}, 25*time.Second)
		if err != nil {
			return false, "", err.Error()
		}
		if to {
			return true, "does not terminate (25 s)", ""
		}
		if len(rs) == 0 {
			return false, "", "no replay output"
		}
		how = rs[0].Res
		if strings.HasPrefix(how, "FAIL") || strings.HasPrefix(how, "PANIC") || strings.HasPrefix(how, "CRASH") {
			return true, how, ""
		}
	}
	if how == "" {
		how = "passed"
	}
	return false, how, ""
}

type replayFile struct {
	Property string
	Module   string
	Package  string
	File     string
	Harness  string
	Kind     string
	Msg      string
	Native   string
	Vals     []replayVal
	Readable string
	HowTo    string
}

func (r *runner) writeReplay(g *group, hd *hdecl, v violation, how string) string {
	dir := filepath.Join(verifRoot(), "evidence", "replay")
	os.MkdirAll(dir, 0755)
	rf := replayFile{Property: r.id, Module: g.mod, Package: hd.file.pkg, File: hd.file.path, Harness: hd.name, Kind: v.Kind, Msg: v.Msg, Native: how,
		Vals: reqOf(v.Vals, "").Vals, Readable: fmtVals(v.Vals), HowTo: "gosx replay <this file>"}
	b, _ := json.MarshalIndent(rf, "", " ")
	h := sha256.Sum256(b)
	p := filepath.Join(dir, fmt.Sprintf("%s-%s-%x.json", r.id, hd.name, h[:4]))
	os.WriteFile(p, b, 0644)
	return p
}

func runReplayCmd(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Println(err)
		return 2
	}
	r := &runner{id: rf.Property, bins: map[string]*nativeBin{}}
	r.work, _ = os.MkdirTemp("", "gosx")
	defer os.RemoveAll(r.work)
	h, err := parseHarness(filepath.Join(verifRoot(), "harness", rf.Property, filepath.Base(rf.File)))
	if err != nil {
		fmt.Println(err)
		return 2
	}
	g := &group{mod: rf.Module, files: []*hfile{h}, dead: map[*hfile]string{}}
	rs, to, err := r.native(g, h, []replayReq{{rf.Harness, rf.Vals}}, 30*time.Second)
	fmt.Println(rs, to, err)
	if to || (len(rs) > 0 && rs[0].Res != "") {
		return 1
	}
	return 0
}

// ---- evidence ----

type evidence struct {
	r         *runner
	seed      int
	paths     int
	decisions int64
	queries   int
	sat       int
	unsat     int
	unknown   int
	solver    float64
	wall      float64
	traces    int
	diverge   int
	viol      int
	known     []string
	reduced   []string
	funcs     map[string]int
	samples   []any
	hs        []any
	lastBad   bool
	complete  int
	total     int
	asserts   int
}

func (ev *evidence) add(hd *hdecl, res *harnessResult) {
	ev.total++
	if res.Complete {
		ev.complete++
	}
	ev.paths += res.Paths
	ev.decisions += res.Decisions
	ev.queries += res.Queries
	ev.sat += res.Sat
	ev.unsat += res.Unsat
	ev.unknown += res.Unknown
	ev.solver += res.SolverSec
	ev.asserts += res.Asserts
	if ev.funcs == nil {
		ev.funcs = map[string]int{}
	}
	for k, n := range res.Funcs {
		ev.funcs[k] += n
	}
	for i, s := range res.Samples {
		if i < 2 && len(ev.samples) < 24 {
			ev.samples = append(ev.samples, hd.name+": "+s)
		}
	}
	ev.hs = append(ev.hs, map[string]any{"harness": hd.name, "bounds": hd.bounds, "complete": res.Complete, "paths": res.Paths, "infeasible": res.Infeasible,
		"assertions": res.Asserts, "symbolic_assertions": res.AssertSym, "queries": res.Queries, "byte_domain_decisions": res.Domain, "range_decisions": res.Ranges, "decisions_confirmed_by_solver": res.Confirmed, "unsat": res.Unsat, "sat": res.Sat, "unknown": res.Unknown,
		"solver_s": round2(res.SolverSec), "wall_s": round2(res.WallSec), "labels_reached": res.Reached})
}

func round2(f float64) float64 { return float64(int(f*100)) / 100 }

func (ev *evidence) write() error {
	var fn []string
	for k := range ev.funcs {
		fn = append(fn, k)
	}
	sort.Strings(fn)
	if ev.samples == nil {
		ev.samples = []any{}
	}
	cov := map[string]any{
		"states": ev.paths, "transitions": ev.decisions, "traces_validated_against_impl": ev.traces, "samples": ev.samples,
		"functions_encoded": fn, "harnesses": ev.hs, "queries_discharged": ev.queries, "queries_unsat": ev.unsat, "queries_sat": ev.sat,
		"queries_unknown": ev.unknown, "solver_s": round2(ev.solver), "assertions_checked": ev.asserts,
		"harnesses_complete_within_bounds": ev.complete, "harnesses_run": ev.total,
		"exhaustive": ev.complete == ev.total && len(ev.reduced) == 0,
		"meaning":    "states = symbolic paths explored to their end; transitions = decisions (branches, choices, concretisations) taken along them; each path stands for every input satisfying its path condition; traces_validated_against_impl = path models re-run in the natively compiled code with equal verdict and observations",
	}
	if len(ev.reduced) > 0 {
		cov["reduced_bounds"] = ev.reduced
	}
	if ev.known != nil {
		cov["known_findings"] = ev.known
	}
	doc := map[string]any{"property": ev.r.id, "tier": ev.r.tierS, "seed": ev.seed, "level": "model_checking", "coverage": cov, "wall_s": round2(ev.wall), "violations": ev.viol,
		"assumptions": []string{"bounds stated per harness under coverage.harnesses; nothing is claimed outside them",
			"environment models of gosx/rt/stub.go.tmpl stand for fmt, os, time and sync primitives",
			"the SSA encoding is regenerated from /repo on every run and compared with the native build on sampled paths"}}
	b, err := json.MarshalIndent(doc, "", " ")
	if err != nil {
		return err
	}
	os.MkdirAll(filepath.Join(verifRoot(), "evidence"), 0755)
	return os.WriteFile(filepath.Join(verifRoot(), "evidence", ev.r.id+".json"), b, 0644)
}
