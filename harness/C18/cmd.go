//gosx:pkg . cmd/xgo/coverage
//gosx:replace cmd/xgo/internal/vendir/golang.org/x/text/collate/tables.go tables.txt
package coverage

import (
	"os"
	"path/filepath"
	"strings"
)

// SV_main: merge and compact write the merged profile of the files to the
// file or to standard output, without the excluded packages.
//
//gosx:bounds merge of 1-2 files or compact of one, together with up to 2 (thorough 3) blocks of 3 packages with a count of 0 or 9; options before or after the files, none or one excluded package with what is below it, the output to another file, over one of the inputs
//gosx:budget quick=20s thorough=60s
func SV_main() {
	dir := svTempDir()
	pkgs := []string{"example.com/m", "example.com/m/p", "example.com/n"}
	compact := svChoose("cmd", 2) == 1
	n := 1
	if !compact {
		n = 1 + svChoose("files", 2)
	}
	exclude := svChoose("exclude", 4) - 1
	var order []string
	sum := map[string]int{}
	var files []string
	left := 2 + svTier()
	for f := 0; f < n; f++ {
		text := "mode: set\n"
		for ; left > 0 && svChoose("more", 2) == 1; left-- {
			p := svChoose("package", 3)
			block := pkgs[p] + "/a.go:1.2,3.4 2"
			d := svStrIn("count", 1, "09")
			text += block + " " + d + "\n"
			if exclude == p || exclude == 0 && p == 1 {
				continue
			}
			if _, ok := sum[block]; !ok {
				order = append(order, block)
			}
			sum[block] += int(d[0] - '0')
		}
		file := filepath.Join(dir, "in"+string(rune('0'+f))+".out")
		svAssert(os.WriteFile(file, []byte(text), 0644) == nil, "setup")
		files = append(files, file)
	}
	out := filepath.Join(dir, "out.out")
	layout := svChoose("layout", 3)
	if layout == 1 {
		out = files[0]
	}
	opts := []string{"-o", out}
	if exclude >= 0 {
		opts = append(opts, "--exclude-prefix", pkgs[exclude])
	}
	args := []string{"merge"}
	if compact {
		args[0] = "compact"
	}
	if layout == 2 {
		args = append(append(args, opts...), files...)
	} else {
		args = append(append(args, files...), opts...)
	}
	Main(args)
	data, err := os.ReadFile(out)
	svAssert(err == nil, "the profile is not written")
	lines := strings.Split(strings.TrimSuffix(string(data), "\n"), "\n")
	svAssert(strings.HasPrefix(lines[0], "mode: "), "the profile has no mode")
	lines = lines[1:]
	svAssert(len(lines) == len(order), "the profile has other blocks")
	for i, l := range lines {
		svAssert(strings.HasPrefix(l, order[i]+" "), "the profile has another block")
		c := 0
		for _, b := range []byte(l[len(order[i])+1:]) {
			c = c*10 + int(b-'0')
		}
		svAssert(c == sum[order[i]], "the count of a block is not the sum")
	}
	svReach("written")
}

// SV_serve_args: serve and load tell when an option lacks its argument, when
// there is no profile and when an option is unknown; they do not crash.
//
//gosx:bounds serve or load with up to 2 preceding profiles or options with a 1-byte argument, then one of the 8 options that take an argument as the last one, an unknown option of 2 arbitrary bytes, or no profile at all
//gosx:budget quick=20s thorough=40s
func SV_serve_args() {
	opts := []string{"--bind", "--port", "--project-dir", "--include", "--exclude", "--build-arg", "--build-args", "--diff-with"}
	cmd := []string{"serve", "load"}[svChoose("cmd", 2)]
	var args []string
	files := 0
	for n := svChoose("before", 3); n > 0; n-- {
		switch svChoose("kind", 3) {
		case 0:
			args = append(args, "a.out")
			files++
		case 1:
			arg := svStr("arg", 1)
			args = append(args, opts[svPick("option", len(opts))], arg)
		case 2:
			args = append(args, "--full")
		}
	}
	switch svChoose("wrong", 3) {
	case 0:
		args = append(args, opts[svPick("last", len(opts))])
	case 1:
		u := "-" + svStr("unknown", 2)
		svAssume(u != "---" && u[1] != 0)
		args = append(args, u)
		if svChoose("more", 2) == 1 {
			args = append(args, "b.out")
		}
	case 2:
		svAssume(files == 0)
	}
	err := handleServe(cmd, args)
	svAssert(err != nil, "wrong arguments are accepted")
	svReach("refused")
}
