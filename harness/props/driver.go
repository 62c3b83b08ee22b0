package props

import (
	"bytes"
	"errors"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"

	"verif/pbt"
)

// repoDir is the root of the code under test.
func repoDir() string {
	if s := os.Getenv("VERIF_REPO"); s != "" {
		return s
	}
	return "/repo"
}

// driverModule writes go.mod and go.sum for module q in dir, in which fab is the code under test.
func driverModule(e *pbt.Env, dir string) {
	mod, err := os.ReadFile(filepath.Join(repoDir(), "go.mod"))
	e.Must(err)
	sum, err := os.ReadFile(filepath.Join(repoDir(), "go.sum"))
	e.Must(err)
	rest := regexp.MustCompile(`(?m)^(module|go|toolchain) .*\n`).ReplaceAllString(string(mod), "")
	e.WriteFile(filepath.Join(dir, "go.mod"), "module q\n\ngo 1.20\n\nrequire github.com/bobg/fab v0.0.0\n\nreplace github.com/bobg/fab => "+repoDir()+"\n"+rest)
	e.WriteFile(filepath.Join(dir, "go.sum"), string(sum))
}

// runFab runs a fab command and gives its standard output, standard error and exit status.
func runFab(e *pbt.Env, fabBin, dir, stdin string, args ...string) (stdout, stderr string, code int) {
	cmd := exec.Command(fabBin, args...)
	cmd.Dir = dir
	cmd.Stdin = strings.NewReader(stdin)
	var o, r bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &r
	err := cmd.Run()
	var x *exec.ExitError
	if err != nil && !errors.As(err, &x) {
		e.Infra("fab: %v", err)
	}
	if err != nil {
		code = x.ExitCode()
	}
	if code < 0 || strings.Contains(r.String(), "panic: ") || strings.Contains(r.String(), "fatal error: ") || code == 2 && strings.Contains(r.String(), "goroutine ") {
		e.Fatalf("fab %q crashed (%d): %s%s", args, code, o.String(), r.String())
	}
	return o.String(), r.String(), code
}
