package props

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"pgregory.net/rapid"

	"verif/pbt"
)

// How commands end, and the exit status of fab.

type c25End struct {
	How  string // exit, self (the shell is killed), runner (what runs the targets is killed)
	Code int
	Sig  string
}

type c25ExitCase struct {
	Steps []c25End
	Form  string // seq, deps, list, args
	Flags []string
}

func c25ExitGen(t *rapid.T) c25ExitCase {
	c := c25ExitCase{Form: pick(t, "form", "seq", "deps", "list", "args")}
	n := drawInt(t, 1, 4, "steps")
	bad := drawInt(t, -1, n-1, "bad")
	for i := 0; i < n; i++ {
		x := c25End{How: "exit"}
		if i == bad {
			switch x.How = pick(t, "how", "exit", "self", "runner", "runner"); x.How {
			case "exit":
				x.Code = pick(t, "code", 1, 2, 3, 77, 125, 126, 127, 128, 130, 137, 255)
			default:
				x.Sig = pick(t, "signal", "KILL", "TERM", "INT", "HUP", "ABRT", "PIPE", "QUIT")
			}
			if x.How == "runner" && x.Sig == "PIPE" {
				x.Sig = "KILL" // it may take no notice
			}
		}
		c.Steps = append(c.Steps, x)
	}
	for _, f := range []string{"-v", "-n", "-f"} {
		if chance(t, 15, f) {
			c.Flags = append(c.Flags, f)
		}
	}
	return c
}

func (x c25End) bad() bool { return x.How != "exit" || x.Code != 0 }

func (x c25End) shell(i int, log string) string {
	s := fmt.Sprintf("echo %d >>%s; ", i, log)
	switch x.How {
	case "exit":
		return s + fmt.Sprintf("exit %d", x.Code)
	case "self":
		return s + fmt.Sprintf("kill -%s $$; sleep 1; exit 1", x.Sig)
	}
	// Nothing but fab or a driver is killed.
	return s + fmt.Sprintf(`case "$(readlink /proc/$PPID/exe)" in %s|*/fab.bin) kill -%s $PPID; i=0; while kill -0 $PPID 2>/dev/null && test $i -lt 200; do sleep .01; i=$((i+1)); done;; esac; exit 9`, pbt.FabBin(), x.Sig)
}

func c25ExitDo(e *pbt.Env, c c25ExitCase) {
	c25Build(e)
	var want []string
	ok := true
	dry := false
	for _, f := range c.Flags {
		dry = dry || f == "-n"
	}
	for i, x := range c.Steps {
		if !ok || dry {
			break
		}
		want = append(want, fmt.Sprint(i))
		ok = !x.bad()
	}
	if len(want) > 0 {
		e.NonTrivial()
	}
	for _, driver := range []bool{false, true} {
		dir := filepath.Join(e.Dir, fmt.Sprintf("p%v", driver))
		log := filepath.Join(e.Dir, fmt.Sprintf("log%v", driver))
		driverModule(e, dir)
		top := ""
		names := []string{}
		for i, x := range c.Steps {
			q := fmt.Sprintf("%q", x.shell(i, log))
			switch c.Form {
			case "list":
				if i == 0 {
					top += "T: !Command\n  Shell:\n"
				}
				top += "    - " + q + "\n"
				continue
			case "deps":
				pre := ""
				if i > 0 {
					pre = fmt.Sprintf("S%d", i-1)
				}
				top += fmt.Sprintf("S%d: !Deps\n  Pre: [%s]\n  Post: !Command\n    Shell: %s\n", i, pre, q)
			default:
				top += fmt.Sprintf("S%d: !Command\n  Shell: %s\n", i, q)
			}
			names = append(names, fmt.Sprintf("S%d", i))
		}
		switch c.Form {
		case "seq":
			top += "T: !Seq [" + strings.Join(names, ", ") + "]\n"
		case "deps":
			top += "T: !Seq [" + names[len(names)-1] + "]\n"
		case "args":
			top += "T: !ArgTarget\n  - !Seq [" + strings.Join(names, ", ") + "]\n  - -x\n"
		}
		e.WriteFile(filepath.Join(dir, "fab.yaml"), top)
		cache := filepath.Join(e.Dir, fmt.Sprintf("cache%v", driver))
		if driver {
			e.WriteFile(filepath.Join(dir, "_fab/p.go"), c25Package)
			if c25Driver != "" {
				to := filepath.Join(cache, "q/_fab")
				e.Must(os.MkdirAll(to, 0o755))
				for _, f := range []string{"fab.bin", "hash", "fab-version.json"} {
					if err := os.Link(filepath.Join(c25Driver, f), filepath.Join(to, f)); !os.IsNotExist(err) {
						e.Must(err)
					}
				}
			}
		}
		args := append([]string{"-fab", cache}, c.Flags...)
		cmd := exec.Command(pbt.FabBin(), append(args, "T")...)
		cmd.Dir = dir
		var out bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &out
		err := cmd.Run()
		var x *exec.ExitError
		if err != nil && !errors.As(err, &x) {
			e.Infra("fab: %v", err)
		}
		b, _ := os.ReadFile(log)
		got := strings.Fields(string(b))
		if (err == nil) != ok {
			e.Fatalf("with a driver: %v: fab ends with %v, want success: %v\ncommands executed: %q\n%s\nfab.yaml:\n%s", driver, err, ok, got, out.String(), top)
		}
		if !equalStrings(got, want) {
			e.Fatalf("with a driver: %v: commands %q were executed, want %q\n%s\nfab.yaml:\n%s", driver, got, want, out.String(), top)
		}
	}
	for _, x := range c.Steps {
		e.LabelIf(!dry && x.How == "runner", "runner killed")
		e.LabelIf(!dry && x.How == "self", "command killed")
	}
	e.LabelIf(ok, "success")
}
