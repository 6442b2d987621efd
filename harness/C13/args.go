//gosx:pkg . cmd/xgo
//gosx:replace cmd/xgo/internal/vendir/golang.org/x/text/collate/tables.go tables.txt
package main

import (
	"strings"
)

// What the go command says about its flags (cmd/go/internal/work, test).
var svBoolFlags = []string{"race", "i", "short", "a", "n", "msan", "asan", "cover", "v", "work", "x", "linkshared", "modcacherw", "trimpath", "buildvcs", "json", "c", "failfast", "fullpath", "benchmem", "artifacts"}
var svValueFlags = []string{"count", "C", "debug-actiongraph", "debug-runtime-trace", "debug-trace", "ldflags", "exec", "p", "asmflags", "buildmode", "compiler", "covermode", "coverpkg", "coverprofile", "gccgoflags", "gcflags", "installsuffix", "mod", "modfile", "overlay", "pgo", "pkgdir", "tags", "toolexec", "o", "bench", "benchtime", "blockprofile", "blockprofilerate", "cpu", "cpuprofile", "fuzz", "fuzztime", "fuzzminimizetime", "list", "memprofile", "memprofilerate", "mutexprofile", "mutexprofilefraction", "outputdir", "parallel", "run", "shuffle", "skip", "timeout", "trace", "vet"}

func svIn(list []string, s string) bool {
	for _, e := range list {
		if e == s {
			return true
		}
	}
	return false
}

// svGoPackages tells which arguments the go command takes as packages: the
// loops of cmd/go/internal/test.testFlags and of flag.FlagSet.Parse.
func svGoPackages(cmd string, args []string) []string {
	parse := func(arg string) (nonFlag, known, bare, value bool) {
		if len(arg) < 2 || arg[0] != '-' {
			return true, false, false, false
		}
		name := arg[1:]
		if name[0] == '-' {
			name = name[1:]
		}
		i := strings.IndexByte(name, '=')
		bare = i < 0
		if !bare {
			name = name[:i]
		}
		if cmd == "test" && strings.HasPrefix(name, "test.") {
			name = name[len("test."):]
		}
		value = svIn(svValueFlags, name)
		return false, value || svIn(svBoolFlags, name), bare, value
	}
	var pkgs []string
	if cmd != "test" {
		for len(args) > 0 {
			if args[0] == "--" {
				args = args[1:]
				break
			}
			nonFlag, _, bare, value := parse(args[0])
			if nonFlag {
				break
			}
			args = args[1:]
			if bare && value && len(args) > 0 {
				args = args[1:]
			}
		}
		if cmd == "build" {
			return args
		}
		for len(args) > 0 && strings.HasSuffix(args[0], ".go") {
			pkgs = append(pkgs, args[0])
			args = args[1:]
		}
		if len(pkgs) == 0 && len(args) > 0 {
			pkgs = args[:1]
		}
		return pkgs
	}
	seen, inList := false, false
	for len(args) > 0 {
		arg := args[0]
		args = args[1:]
		if arg == "--" {
			break
		}
		nonFlag, known, bare, value := parse(arg)
		if nonFlag {
			if seen && !inList {
				continue // for the test binary
			}
			seen, inList = true, true
			pkgs = append(pkgs, arg)
			continue
		}
		inList = false
		if !known {
			seen = true
			if arg == "-args" || arg == "--args" {
				break
			}
			continue
		}
		if bare && value && len(args) > 0 {
			args = args[1:]
		}
	}
	return pkgs
}

func svSame(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func svFlagName(name string) string {
	dash := []string{"-", "--", "-test."}[svChoose(name+"dash", 2+svTier())]
	k := svChoose(name, 3)
	switch k {
	case 0:
		return dash + svBoolFlags[svChoose(name+"i", 3+svTier()*(len(svBoolFlags)-3))]
	case 1:
		return dash + svValueFlags[svChoose(name+"i", 3+svTier()*(len(svValueFlags)-3))]
	}
	return dash + "my"
}

// SV_packages: the packages xgo prepares are those the go command takes from
// the same arguments, whatever flags are before and after them.
//
//gosx:bounds up to 3 arguments, each a flag (3+3 known ones, thorough all, or unknown; with one or two dashes; bare or with an arbitrary value of 1 byte), an arbitrary argument of 2 bytes, a go file, "--" or "-args"; test, build and run
//gosx:budget quick=40s thorough=300s
func SV_packages() {
	cmd := []string{"test", "build", "run"}[svChoose("cmd", 3)]
	n := svChoose("n", 4)
	var args []string
	for i := 0; i < n; i++ {
		name := "a" + string(rune('0'+i))
		switch svChoose(name+"kind", 6) {
		case 0:
			args = append(args, svFlagName(name))
		case 1:
			args = append(args, svFlagName(name)+"="+svStr(name+"v", 1))
		case 2:
			args = append(args, svStr(name+"s", 2))
		case 3:
			args = append(args, "a.go")
		case 4:
			args = append(args, "--")
		case 5:
			args = append(args, "-args")
		}
	}
	want := svGoPackages(cmd, args)
	got := getPkgArgs(cmd, args)
	svAssert(svSame(got, want), "packages are not those the go command takes")
	svReach("packages")
}

type svOption struct {
	names []string
	kind  int // 0: no value; 1: value; 2: optional value after =; 3: list
	get   func(o *options) string
	list  func(o *options) []string
	// the values after "=" and what they mean, for kind 2
	values map[string]string
}

func svB(b bool) string {
	if b {
		return "true"
	}
	return ""
}

func svOptions(cmd string) []svOption {
	onOff := map[string]string{"": "on", "=": "on", "=on": "on", "=true": "on", "=off": "off", "=false": "off"}
	truth := map[string]string{"": "true", "=true": "true", "=false": ""}
	opts := []svOption{
		{[]string{"-v", "--v"}, 0, func(o *options) string { return svB(o.flagV) }, nil, nil},
		{[]string{"-x", "--x"}, 0, func(o *options) string { return svB(o.flagX) }, nil, nil},
		{[]string{"-o", "--o"}, 1, func(o *options) string { return o.output }, nil, nil},
		{[]string{"-run", "--run"}, 1, func(o *options) string { return o.flagRun }, nil, nil},
		{[]string{"-gcflags", "--gcflags"}, 3, nil, func(o *options) []string { return o.gcflags }, nil},
		{[]string{"--strace", "--stack-trace"}, 2, func(o *options) string { return o.stackTrace }, nil, onOff},
		{[]string{"--strace-dir", "--stack-trace-dir"}, 1, func(o *options) string { return o.stackTraceDir }, nil, nil},
		{[]string{"--trap-all"}, 2, func(o *options) string { return o.trapAll }, nil, map[string]string{"": "true", "=": "true", "=true": "true", "=false": "false"}},
		{[]string{"--trap"}, 3, nil, func(o *options) []string { return o.trap }, nil},
		{[]string{"--project-dir"}, 1, func(o *options) string { return o.projectDir }, nil, nil},
		{[]string{"-mod", "--mod"}, 1, func(o *options) string { return o.mod }, nil, nil},
		{[]string{"-modfile", "--modfile"}, 1, func(o *options) string { return o.modfile }, nil, nil},
		{[]string{"-overlay", "--overlay"}, 1, func(o *options) string { return o.overlay }, nil, nil},
		{[]string{"--mock-rule"}, 3, nil, func(o *options) []string { return o.mockRules }, nil},
		{[]string{"--mock-rule-include-as-main-module"}, 1, func(o *options) string { return strings.TrimSpace(o.mockRuleIncludeAsMainModule) }, nil, nil},
		{[]string{"--log-debug"}, 2, func(o *options) string {
			if o.logDebug == nil {
				return "nil"
			}
			return *o.logDebug
		}, nil, map[string]string{"": "", "=": "", "=stdout": "stdout"}},
	}
	if cmd == "test" {
		opts = append(opts, svOption{[]string{"--unified"}, 2, func(o *options) string { return svB(o.unified) }, nil, truth})
	} else {
		opts = append(opts, svOption{[]string{"--trap-stdlib"}, 2, func(o *options) string { return svB(o.trapStdlib) }, nil, truth})
	}
	if svTier() > 0 {
		opts = append(opts, []svOption{
			{[]string{"-a", "--a"}, 0, func(o *options) string { return svB(o.flagA) }, nil, nil},
			{[]string{"-c", "--c"}, 0, func(o *options) string { return svB(o.flagC) }, nil, nil},
			{[]string{"--log-compile"}, 0, func(o *options) string { return svB(o.logCompile) }, nil, nil},
			{[]string{"--no-build-output"}, 0, func(o *options) string { return svB(o.noBuildOutput) }, nil, nil},
			{[]string{"--no-instrument"}, 0, func(o *options) string { return svB(o.noInstrument) }, nil, nil},
			{[]string{"--reset-instrument"}, 0, func(o *options) string { return svB(o.resetInstrument) }, nil, nil},
			{[]string{"--no-setup"}, 0, func(o *options) string { return svB(o.noSetup) }, nil, nil},
			{[]string{"--no-line-directive"}, 0, func(o *options) string { return svB(o.noLineDirective) }, nil, nil},
			{[]string{"-tags", "--tags"}, 1, func(o *options) string { return o.tags }, nil, nil},
			{[]string{"--with-goroot"}, 1, func(o *options) string { return o.withGoroot }, nil, nil},
			{[]string{"--options-from-file"}, 1, func(o *options) string { return o.optionsFromFile }, nil, nil},
			{[]string{"--dump-ir"}, 1, func(o *options) string { return o.dumpIR }, nil, nil},
			{[]string{"--dump-ast"}, 1, func(o *options) string { return o.dumpAST }, nil, nil},
			{[]string{"--vscode"}, 1, func(o *options) string { return o.vscode }, nil, nil},
			{[]string{"--debug-target"}, 1, func(o *options) string { return o.debugTarget }, nil, nil},
			{[]string{"--build-flag"}, 3, nil, func(o *options) []string { return o.buildFlags }, nil},
			{[]string{"--prog-flag"}, 3, nil, func(o *options) []string { return o.progFlags }, nil},
			{[]string{"--strace-snapshot-main-module-default"}, 2, func(o *options) string { return o.straceSnapshotMainModuleDefault }, nil, map[string]string{"": "", "=": "", "=false": "false"}},
			{[]string{"--use-file-patches"}, 2, func(o *options) string {
				if o.useFilePatches == nil {
					return "nil"
				}
				return svB(*o.useFilePatches)
			}, nil, truth},
			{[]string{"--xgo-race-safe"}, 2, func(o *options) string { return svB(o.xgoRaceSafe) }, nil, truth},
			{[]string{"--debug"}, 2, func(o *options) string {
				if o.debug == nil {
					return "nil"
				}
				return *o.debug
			}, nil, map[string]string{"": "", "=": "", "=a": "a"}},
		}...)
	}
	return opts
}

// SV_options: options of xgo have the values given, the last one if given
// several times, and every other argument reaches the go command, unchanged and
// in the same order; so does all that follows the package of xgo run or -args of
// xgo test.
//
//gosx:bounds 2 (thorough 3) arguments with values, each one of 17 (thorough 38) options of xgo in any of its spellings, or a go flag in 5 forms, a package or a flag of the test binary, then possibly a tail; values of 2 arbitrary bytes; test, build, run
//gosx:budget quick=60s thorough=420s
func SV_options() {
	cmd := []string{"test", "build", "run"}[svChoose("cmd", 3)]
	table := svOptions(cmd)
	base, err := parseOptions(cmd, nil)
	svAssert(err == nil, "no arguments")
	var args, remain, testArgs []string
	want := make([]string, len(table))
	lists := make([][]string, len(table))
	for i, o := range table {
		if o.get != nil {
			want[i] = o.get(base)
		}
	}
	n := 2 + svTier()
	over := false
	for i := 0; i < n && !over; i++ {
		name := "s" + string(rune('0'+i))
		if k := svChoose(name, len(table)+7); k < len(table) {
			o := table[k]
			flag := o.names[svChoose(name+"n", len(o.names))]
			switch o.kind {
			case 0:
				args = append(args, flag)
				want[k] = "true"
			case 1, 3:
				v := svStr(name+"v", 2)
				if o.names[0] == "--mock-rule-include-as-main-module" {
					svAssume(strings.TrimSpace(v) != "")
				}
				if svChoose(name+"eq", 2) == 1 {
					args = append(args, flag+"="+v)
				} else {
					args = append(args, flag, v)
				}
				if o.names[0] == "--mock-rule-include-as-main-module" {
					v = strings.TrimSpace(v)
				}
				want[k] = v
				lists[k] = append(lists[k], v)
			case 2:
				vs := []string{"", "=", "=on", "=true", "=off", "=false", "=stdout", "=a"}
				s := vs[svChoose(name+"v", len(vs))]
				v, ok := o.values[s]
				if !ok {
					return
				}
				args = append(args, flag+s)
				want[k] = v
			}
			continue
		} else {
			switch k - len(table) {
			case 0: // a go flag with a value, which may look like a flag
				f := []string{"-ldflags", "--count", "-timeout"}[svChoose(name+"f", 3)]
				v := svStr(name+"v", 2)
				args = append(args, f, v)
				remain = append(remain, f, v)
			case 1:
				f := []string{"-ldflags=", "-outputdir=", "--vet=", "-debug-trace="}[svChoose(name+"f", 2+2*svTier())]
				v := f + svStr(name+"v", 2)
				args = append(args, v)
				remain = append(remain, v)
			case 2: // no value
				f := []string{"-race", "--short", "-my"}[svChoose(name+"f", 3)]
				args = append(args, f)
				remain = append(remain, f)
			case 3: // a package
				p := svStr(name+"p", 2)
				svAssume(p[0] != '-')
				args = append(args, p)
				remain = append(remain, p)
				// a flag before takes it as its value, or it ends the options of run
				if cmd == "run" {
					if len(args) == 1 || !svTakes(args[len(args)-2]) {
						t := svStr(name+"t", 2)
						args = append(args, t, "-v")
						remain = append(remain, t, "-v")
						over = true
					}
				}
			case 4: // a flag of the test binary with a value
				args = append(args, "-my", "val")
				remain = append(remain, "-my", "val")
			case 5:
				t := svStr(name+"t", 2)
				if cmd != "test" {
					return
				}
				args = append(args, []string{"-args", "--args"}[svChoose(name+"a", 2)], t, "-v")
				testArgs = append(testArgs, t, "-v")
				over = true
			case 6:
				t := svStr(name+"t", 2)
				args = append(args, "--", t, "-v")
				remain = append(remain, t, "-v")
				over = true
			}
		}
	}
	o, err := parseOptions(cmd, args)
	svAssert(err == nil, "a correct command line is refused")
	svAssert(svSame(o.remainArgs, remain), "arguments of the go command are changed, lost or reordered")
	svAssert(svSame(o.testArgs, testArgs), "arguments of the test binary are changed")
	for i, e := range table {
		if e.get != nil {
			svAssert(e.get(o) == want[i], "an option does not have the value given last")
		} else {
			svAssert(svSame(e.list(o), lists[i]), "a repeated option does not have all its values")
		}
	}
	svReach("options")
}

// svTakes tells if a flag before a package is not known, so that what follows may
// be its value.
func svTakes(arg string) bool {
	return arg == "-my"
}

// SV_bad: an option of xgo that needs a value, or has a value it does not know,
// is reported, never a panic.
//
//gosx:bounds one of 9 options at the end of the arguments or with a value of 3 bytes of 6
func SV_bad() {
	cmd := []string{"test", "build"}[svChoose("cmd", 2)]
	f := []string{"-o", "--project-dir", "--strace-dir", "-run", "--trap", "--mock-rule", "--strace", "--unified", "--use-file-patches"}[svChoose("f", 9)]
	if svChoose("value", 2) == 1 {
		v := svStrIn("v", 3, "ofna=-")
		svAssume(v != "off")
		_, err := parseOptions(cmd, []string{f + "=" + v})
		switch f {
		case "--strace", "--use-file-patches":
			svAssert(err != nil, "an unknown value is accepted")
		case "--unified":
			svAssert(cmd == "build" || err != nil, "an unknown value is accepted")
		default:
			svAssert(err == nil, "a value is refused")
		}
		svReach("value")
		return
	}
	_, err := parseOptions(cmd, []string{f})
	switch f {
	case "--strace", "--unified", "--use-file-patches":
		svAssert(err == nil, "an option without value is refused")
	default:
		svAssert(err != nil, "a missing value is not reported")
	}
	svReach("missing")
}

// SV_xgoflags: XGO_FLAGS is split at white space.
//
//gosx:bounds all values of 5 (thorough 7) bytes
func SV_xgoflags() {
	n := 5 + 2*svTier()
	s := svStr("s", n)
	got := parseXgoFlags(s)
	k := 0
	for i := 0; i < n; {
		if isFlagSpace(s[i]) {
			svAssert(s[i] == ' ' || s[i] == '\t' || s[i] == '\r' || s[i] == '\n', "not white space")
			i++
			continue
		}
		svAssert(s[i] != ' ' && s[i] != '\t' && s[i] != '\n', "white space in a flag")
		j := i
		for j < n && !isFlagSpace(s[j]) {
			j++
		}
		svAssert(k < len(got) && got[k] == s[i:j], "a flag is lost or changed")
		k++
		i = j
	}
	svAssert(k == len(got), "there are other flags")
	svReach("split")
}

// SV_loadpkgs: rules that include packages of other modules load exactly these:
// a pattern ending in /** loads what is below, other uses of * are errors; the
// main module is loaded unless it is excluded for both functions and variables.
//
//gosx:bounds 2 rules, package lists of 5 (thorough 6) arbitrary bytes of "a", "/", "*", ",", " "
func SV_loadpkgs() {
	pkg := svStrIn("pkg", 5+svTier(), "a/*, ")
	action := []string{"include", "exclude", ""}[svChoose("action", 3)]
	rules := []Rule{{Pkg: &pkg, Action: action}}
	yes := true
	excl := svChoose("main", 5)
	kinds := []string{"", "func", "var", "func, var", "closure"}[excl]
	if svChoose("hasmain", 2) == 1 {
		r := Rule{MainModule: &yes, Action: "exclude"}
		if kinds != "" {
			r.Kind = &kinds
		}
		rules = append(rules, r)
	} else {
		excl = -1
	}
	main, pkgs, err := getLoadPackages(rules)
	var want []string
	bad := false
	if action == "include" {
		for _, p := range strings.Split(pkg, ",") {
			p = strings.TrimSpace(p)
			if p == "" {
				continue
			}
			if strings.HasSuffix(p, "/**") && !strings.Contains(p[:len(p)-3], "*") {
				p = p[:len(p)-2] + "..."
			} else if strings.Contains(p, "*") {
				bad = true
			}
			want = append(want, p)
		}
	}
	svAssert((err != nil) == bad, "patterns that are not supported are reported, others not")
	if err == nil {
		svAssert(svSame(pkgs, want), "other packages are loaded")
		svAssert(main == !(excl == 0 || excl == 3), "the main module is loaded, unless excluded")
		svReach("loaded")
	}
}

// SV_modules: a package belongs to a module if it is the module or below it.
//
//gosx:bounds package of 4 (thorough 5), module of 0-3 (0-4) arbitrary bytes, a list of one more module of 1-2 (1-3) bytes with white space and commas around
func SV_modules() {
	pkg := svStr("pkg", 4+svTier())
	m := svStr("m", svChoose("n", 4+svTier()))
	e := svStr("e", 1+svChoose("ne", 2+svTier()))
	svAssume(strings.TrimSpace(e) == e && !strings.Contains(e, ","))
	within := func(m string) bool {
		return m != "" && len(m) <= len(pkg) && pkg[:len(m)] == m && (len(m) == len(pkg) || pkg[len(m)] == '/')
	}
	extras := parseModuleList(" ," + e + " , " + e + ",")
	svAssert(len(extras) == 1 && extras[0] == e, "the list of modules is split at commas")
	svAssert(pkgWithinAnyModule(pkg, m, extras) == (within(m) || within(e)), "a package belongs to the wrong module")
	svReach("within")
}
