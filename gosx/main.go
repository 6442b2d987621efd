// gosx: bounded symbolic execution of Go SSA with an SMT solver.
//
//	gosx check ID     decide one property (harness directory ../harness/ID)
package main

import (
	"fmt"
	"os"
	"path/filepath"
)

func verifRoot() string {
	if d := os.Getenv("GOSX_VERIF"); d != "" {
		return d
	}
	exe, err := os.Executable()
	if err == nil {
		exe, _ = filepath.EvalSymlinks(exe)
		for d := filepath.Dir(exe); d != "/"; d = filepath.Dir(d) {
			if _, err := os.Stat(filepath.Join(d, "gosx", "rt")); err == nil {
				return d
			}
		}
	}
	d, _ := os.Getwd()
	return d
}

func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: gosx check ID [-only SV_name] | gosx replay FILE")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(runCheck(os.Args[2], os.Args[3:]))
	case "replay":
		os.Exit(runReplayCmd(os.Args[2]))
	}
	os.Exit(2)
}
