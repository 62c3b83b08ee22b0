package props

import (
	"errors"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"syscall"
	"time"

	"pgregory.net/rapid"

	"verif/pbt"
)

// C24: the driver is up to date.

type c24Frag struct {
	Kind string // main, part, extra, syntax, type
	V    int
}

type c24Op struct {
	Op    string // run, set, del, rename, swap, pkg, cache
	File  string
	Other string
	Frags []c24Frag
	V     int

	// For run
	Fab2, Force, List, Verbose bool
	Hook                       string // where something happens: list, modinit, modtidy, build, and whether before or after
	Act                        string // fail, kill, edit; or with Hook "time": kill after V milliseconds
}

type c24Case struct {
	Files map[string][]c24Frag
	Ops   []c24Op
}

// The last two are not part of the package.
var c24Names = []string{"a.go", "b.go", "c.go", "link.go", "w_windows.go", "z_test.go"}

func c24Active(name string) bool {
	return !strings.HasSuffix(name, "_windows.go") && !strings.HasSuffix(name, "_test.go")
}

func c24Text(pkg string, frags []c24Frag) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "package %s\n\nimport (\n\t\"context\"\n\t\"fmt\"\n\n\t\"github.com/bobg/fab\"\n)\n\nvar (\n\t_ context.Context\n\t_ = fmt.Sprint\n\t_ fab.Target\n)\n", pkg)
	for _, f := range frags {
		switch f.Kind {
		case "main":
			fmt.Fprintf(&sb, "\nvar T = fab.F(func(context.Context, *fab.Controller) error { fmt.Println(\"T%d\", part()); return nil })\n", f.V)
		case "part":
			fmt.Fprintf(&sb, "\nfunc part() string { return \"part%d\" }\n", f.V)
		case "extra":
			fmt.Fprintf(&sb, "\nvar X%d = fab.F(func(context.Context, *fab.Controller) error { fmt.Println(\"X%d\"); return nil })\n", f.V, f.V)
		case "comment":
			fmt.Fprintf(&sb, "\n// %d\n", f.V)
		case "syntax":
			fmt.Fprintf(&sb, "\nfunc { %d\n", f.V)
		case "type":
			fmt.Fprintf(&sb, "\nvar _ int = \"%d\"\n", f.V)
		case "undefined":
			fmt.Fprintf(&sb, "\nvar _ = undefined%d\n", f.V)
		}
	}
	return sb.String()
}

func c24DrawFrags(t *rapid.T, k int) []c24Frag {
	var r []c24Frag
	add := func(kind string, max int) { r = append(r, c24Frag{kind, drawInt(t, 0, max, kind)}) }
	switch k {
	case 0:
		add("main", 2)
	case 1, 2, 3:
		if chance(t, 80-10*k, "part") && k == 1 {
			add("part", 2)
		}
		if chance(t, 40, "extra") {
			r = append(r, c24Frag{"extra", 2*k + drawInt(t, 0, 1, "x")})
		}
	default:
		add("main", 2)
		add("extra", 9)
		return r
	}
	if chance(t, 15, "comment") {
		add("comment", 2)
	}
	if chance(t, 3, "bad") {
		add(pick(t, "how", "syntax", "type", "undefined"), 2)
	}
	return r
}

func c24Gen(t *rapid.T) c24Case {
	c := c24Case{Files: map[string][]c24Frag{"a.go": {{"main", 0}}, "b.go": {{"part", 0}}}}
	for k, n := range c24Names[2:] {
		if chance(t, 25, "file") {
			c.Files[n] = c24DrawFrags(t, k+2)
		}
	}
	edit := func() c24Op {
		k := uniform(t, len(c24Names), "which")
		n := c24Names[k]
		switch x := drawInt(t, 0, 99, "change"); {
		case x < 60:
			return c24Op{Op: "set", File: n, Frags: c24DrawFrags(t, k)}
		case x < 70:
			return c24Op{Op: "del", File: n}
		case x < 80:
			return c24Op{Op: "rename", File: n, Other: c24Names[uniform(t, len(c24Names), "to")]}
		case x < 87:
			return c24Op{Op: "swap", File: n, Other: c24Names[uniform(t, len(c24Names), "with")]}
		case x < 92:
			return c24Op{Op: "pkg", V: drawInt(t, 0, 1, "pkg")}
		default:
			return c24Op{Op: "revert"}
		}
	}
	for i := drawInt(t, 3, 7, "runs"); i > 0; i-- {
		for j := drawInt(t, 0, 2, "changes"); j > 0; j-- {
			if chance(t, 20, "cache") {
				c.Ops = append(c.Ops, c24Op{Op: "cache", File: pick(t, "file", "hash", "fab.bin", "fab-version.json", "."), V: drawInt(t, 0, 4, "how")})
			} else {
				c.Ops = append(c.Ops, edit())
			}
		}
		run := c24Op{Op: "run", Force: chance(t, 10, "force"), List: chance(t, 20, "list"), Verbose: chance(t, 20, "verbose"), Fab2: chance(t, 12, "fab2")}
		if chance(t, 22, "event") {
			run.Hook = pick(t, "hook", "list-after", "modinit-before", "modtidy-before", "build-before", "build-after", "time")
			run.Act = pick(t, "act", "fail", "kill", "edit", "edit", "edit")
			run.V = drawInt(t, 0, 3500, "ms")
			if run.Act == "edit" {
				x := edit()
				for x.Op != "set" {
					k := drawInt(t, 0, 3, "file")
					x = c24Op{Op: "set", File: c24Names[k], Frags: c24DrawFrags(t, k)}
				}
				run.File, run.Frags = x.File, x.Frags
			}
			if run.Hook == "time" {
				run.Act = "kill"
			}
		}
		c.Ops = append(c.Ops, run)
	}
	if last := len(c.Ops) - 1; c.Ops[last].Hook != "" {
		// See what comes of it.
		if chance(t, 50, "reverted") {
			c.Ops = append(c.Ops, c24Op{Op: "revert"})
		}
		c.Ops = append(c.Ops, c24Op{Op: "run"})
	}
	return c
}

// c24GenInterrupted: a driver exists, the code is changed, the run that would make a new driver does not get through, and then fab is run again.
func c24GenInterrupted(t *rapid.T) c24Case {
	c := c24Case{Files: map[string][]c24Frag{"a.go": {{"main", 0}}, "b.go": {{"part", 0}}}}
	if drawBool(t, "c") {
		c.Files["c.go"] = []c24Frag{{"extra", 4}}
	}
	run := func() { c.Ops = append(c.Ops, c24Op{Op: "run", Verbose: chance(t, 20, "verbose")}) }
	if chance(t, 85, "firstRun") {
		run()
	}
	for round := pick(t, "rounds", 1, 1, 2); round > 0; round-- {
		v := drawInt(t, 1, 2, "v") + 2*round
		switch drawInt(t, 0, 4, "change") {
		case 0, 1:
			c.Ops = append(c.Ops, c24Op{Op: "set", File: "a.go", Frags: []c24Frag{{"main", v}}})
		case 2, 3:
			c.Ops = append(c.Ops, c24Op{Op: "set", File: "b.go", Frags: []c24Frag{{"part", v}}})
		case 4:
			c.Ops = append(c.Ops, c24Op{Op: "set", File: "c.go", Frags: []c24Frag{{"extra", v}}})
		}
		c.Ops = append(c.Ops, c24Op{Op: "run", Force: chance(t, 15, "force"), Verbose: chance(t, 20, "verbose"), Fab2: chance(t, 10, "fab2"),
			Hook: pick(t, "hook", "modinit-before", "modtidy-before", "modtidy-after", "build-before", "build-before", "build-after"), Act: pick(t, "act", "fail", "kill")})
		if chance(t, 20, "cache") {
			c.Ops = append(c.Ops, c24Op{Op: "cache", File: pick(t, "file", "hash", "fab-version.json")})
		}
	}
	if chance(t, 15, "back") {
		c.Ops = append(c.Ops, c24Op{Op: "revert"})
	}
	run()
	return c
}

var c24Ran = regexp.MustCompile(`(?m)^(T\d part\d|X\d)$`)

func c24Run(e *pbt.Env, c c24Case) {
	var (
		top   = filepath.Join(e.Dir, "top")
		cache = filepath.Join(e.Dir, "cache")
		dir   = filepath.Join(cache, "q/_fab")
		hooks = filepath.Join(e.Dir, "hooks")
		log   = filepath.Join(e.Dir, "log")
		pkgs  = []string{"_fab", "rules"}
		pkg   = pkgs[0]
		trace []string
	)
	driverModule(e, top)
	e.Must(os.MkdirAll(filepath.Join(top, "_fab"), 0o755))
	e.Must(os.MkdirAll(filepath.Join(top, "shared"), 0o755))
	e.Must(os.MkdirAll(hooks, 0o755))
	e.Must(os.Symlink("../shared/link.go", filepath.Join(top, "_fab/link.go")))

	real, err := exec.LookPath("go")
	e.Must(err)
	e.WriteFile("path/go", fmt.Sprintf(`#!/bin/sh
h=$1
case "$1 $2 $*" in
mod*) h=$1$2;;
list*-json*) ;;
*) h=other;;
esac
case "$1" in
build) h=build;;
esac
printf '%%s\n' "$h" >>%[1]s
if [ -e %[2]s/$h-before ]; then
	mv %[2]s/$h-before %[2]s/used
	. %[2]s/used
fi
%[3]s "$@"
rc=$?
if [ -e %[2]s/$h-after ]; then
	mv %[2]s/$h-after %[2]s/used
	. %[2]s/used
fi
exit $rc
`, shellQuote(log), shellQuote(hooks), shellQuote(real)))
	e.Must(os.Chmod(filepath.Join(e.Dir, "path/go"), 0o755))
	oldPath := os.Getenv("PATH")
	os.Setenv("PATH", filepath.Join(e.Dir, "path")+":"+oldPath)
	e.Cleanup(func() { os.Setenv("PATH", oldPath) })

	files := map[string][]c24Frag{}
	place := func(n string) string {
		if n == "link.go" {
			return filepath.Join(top, "shared", n)
		}
		return filepath.Join(top, "_fab", n)
	}
	// Each change of a file is a new file.
	set := func(n string, frags []c24Frag) {
		os.Remove(place(n))
		delete(files, n)
		if n == "link.go" {
			os.Remove(filepath.Join(top, "_fab/link.go"))
		}
		if frags == nil {
			return
		}
		files[n] = frags
		e.WriteFile(place(n), c24Text(pkg, frags))
		if n == "link.go" {
			e.Must(os.Symlink("../shared/link.go", filepath.Join(top, "_fab/link.go")))
		}
	}
	os.Remove(filepath.Join(top, "_fab/link.go"))
	for n, f := range c.Files {
		set(n, f)
	}
	// What the present code is: the output of its targets, or nothing if it cannot be compiled.
	model := func() (lines map[string]string) {
		lines = map[string]string{}
		main, part := -1, -1
		for _, n := range sortedKeys(files) {
			if !c24Active(n) {
				continue
			}
			for _, f := range files[n] {
				switch f.Kind {
				case "main":
					if main >= 0 {
						return nil
					}
					main = f.V
				case "part":
					if part >= 0 {
						return nil
					}
					part = f.V
				case "extra":
					x := fmt.Sprintf("X%d", f.V)
					if lines[x] != "" {
						return nil
					}
					lines[x] = x
				case "comment":
				default:
					return nil
				}
			}
		}
		if main >= 0 && part < 0 {
			return nil
		}
		if main >= 0 {
			lines["T"] = fmt.Sprintf("T%d part%d", main, part)
		}
		return lines
	}
	state := func() string {
		var sb strings.Builder
		sb.WriteString(pkg)
		for _, n := range sortedKeys(files) {
			if c24Active(n) {
				fmt.Fprintf(&sb, "|%s %v", n, files[n])
			}
		}
		return sb.String()
	}
	empty := func() bool {
		for n := range files {
			if c24Active(n) {
				return false
			}
		}
		return true
	}
	clone := func() map[string][]c24Frag {
		r := map[string][]c24Frag{}
		for k, v := range files {
			r[k] = v
		}
		return r
	}
	var (
		good          string // the state in the last successful run, with untouched cache since
		goodFab       bool
		lastFab       = -1 // the fab command that made the driver
		damaged       bool // the driver may be damaged
		prev          = clone()
		reuse, builds int
		stale         int
	)
	for _, op := range c.Ops {
		trace = append(trace, fmt.Sprintf("%+v", op))
		if op.Op != "run" && op.Op != "revert" && op.Op != "cache" {
			prev = clone()
		}
		switch op.Op {
		case "set":
			f := op.Frags
			if f == nil {
				f = []c24Frag{}
			}
			set(op.File, f)
		case "del":
			set(op.File, nil)
		case "rename":
			if f, ok := files[op.File]; ok && op.File != op.Other {
				set(op.File, nil)
				set(op.Other, f)
			}
		case "swap":
			f, g := files[op.File], files[op.Other]
			if f != nil && g != nil && op.File != op.Other {
				set(op.File, g)
				set(op.Other, f)
			}
		case "pkg":
			pkg = pkgs[op.V]
			for n, f := range clone() {
				set(n, f)
			}
		case "revert":
			for _, n := range c24Names {
				set(n, prev[n])
			}
		case "cache":
			good = ""
			if op.File == "." {
				e.Must(os.RemoveAll(dir))
				damaged = false
				break
			}
			p := filepath.Join(dir, op.File)
			data, err := os.ReadFile(p)
			if errors.Is(err, fs.ErrNotExist) {
				break
			}
			e.Must(err)
			e.Must(os.Remove(p))
			switch op.V {
			case 0, 1:
			case 2:
				data = nil
			case 3:
				data = data[:len(data)/2]
			case 4:
				data = append([]byte("damage"), data...)
			}
			if op.V > 1 {
				e.Must(os.WriteFile(p, data, 0o755))
			}
			if op.File == "fab.bin" {
				damaged = op.V > 1
			}
		case "run":
			bin, fab := pbt.FabBin(), 0
			if op.Fab2 {
				bin, fab = os.Getenv("VERIF_FAB2"), 1
			}
			want := model()
			if empty() {
				want = nil
			}
			os.Remove(log)
			args := []string{"-fab", cache}
			if op.Force {
				args = append(args, "-f")
			}
			if op.Verbose {
				args = append(args, "-v")
			}
			if op.List {
				args = append(args, "-list")
			} else if len(want) > 0 {
				args = append(args, sortedKeys(want)...)
			} else {
				args = append(args, "T")
			}
			hook := filepath.Join(hooks, op.Hook)
			switch op.Act {
			case "fail":
				e.WriteFile(hook, "exit 1\n")
			case "kill":
				if op.Hook != "time" {
					e.WriteFile(hook, "kill -9 $PPID\nexit 1\n")
				}
			case "edit":
				f := op.Frags
				if f == nil {
					f = []c24Frag{}
				}
				e.WriteFile(filepath.Join(hooks, "new"), c24Text(pkg, f))
				script := fmt.Sprintf("mv %s %s\n", shellQuote(filepath.Join(hooks, "new")), shellQuote(place(op.File)))
				if op.File == "link.go" {
					script += fmt.Sprintf("ln -sf ../shared/link.go %s\n", shellQuote(filepath.Join(top, "_fab/link.go")))
				}
				e.WriteFile(hook, script)
			}
			var (
				out, errOut string
				code        int
			)
			switch {
			case op.Act == "kill":
				cmd := exec.Command(bin, args...)
				cmd.Dir = top
				cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
				f, err := os.Create(filepath.Join(e.Dir, "killed"))
				e.Must(err)
				cmd.Stdout, cmd.Stderr = f, f
				e.Must(cmd.Start())
				if op.Hook == "time" {
					timer := time.AfterFunc(time.Duration(op.V)*time.Millisecond, func() { syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) })
					err = cmd.Wait()
					timer.Stop()
				} else {
					err = cmd.Wait()
				}
				syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
				f.Close()
				if err != nil {
					code = -1
				}
			default:
				out, errOut, code = runFab(e, bin, top, "", args...)
			}
			logged, _ := os.ReadFile(log)
			built := strings.Contains(string(logged), "build\n")
			happened := op.Act != "" && op.Hook != "time"
			if happened {
				if _, err := os.Stat(hook); err == nil {
					happened = false
					os.Remove(hook)
				}
			}
			fail := func(format string, args ...any) {
				e.Fatalf("%s\n%s\noutput %q %q, exit status %d\npresent code: %s", strings.Join(trace, "\n"), fmt.Sprintf(format, args...), out, errOut, code, state())
			}
			if built && op.Act != "" {
				lastFab = -1 // unknown
			}
			if op.Act == "kill" {
				if happened || op.Hook == "time" {
					e.Label("killed")
					if built || op.Hook == "time" {
						good, lastFab = "", -1
					}
					damaged = damaged && !built
					continue
				}
				data, err := os.ReadFile(filepath.Join(e.Dir, "killed"))
				e.Must(err)
				out = string(data)
			}
			if op.Act == "edit" && happened {
				e.Label("edited during a run")
				prev = clone()
				f := op.Frags
				if f == nil {
					f = []c24Frag{}
				}
				files[op.File] = f
				good = ""
				damaged = damaged && !built
				continue
			}
			if op.Act == "fail" && happened {
				e.Label("a tool failed")
				if code == 0 {
					fail("success, though %s failed", op.Hook)
				}
				if c24Ran.MatchString(out) {
					fail("targets ran, though %s failed", op.Hook)
				}
				continue
			}
			if want == nil {
				e.Label("code that does not compile")
				if code == 0 {
					fail("success, though the code does not compile")
				}
				if c24Ran.MatchString(out) {
					fail("targets ran, though the code does not compile")
				}
				continue
			}
			// The output, without messages.
			var got []string
			for _, l := range strings.Split(out, "\n") {
				l = strings.TrimSpace(l)
				if l != "" && (strings.HasPrefix(l, "T") || strings.HasPrefix(l, "X")) {
					got = append(got, l)
				}
			}
			sort.Strings(got)
			var exp []string
			for n, l := range want {
				if op.List {
					l = n
				}
				exp = append(exp, l)
			}
			sort.Strings(exp)
			if !op.List && len(want) == 0 {
				// There is no target.
				if code == 0 {
					fail("success, though there is no target T")
				}
			} else if code != 0 {
				if !damaged || built {
					fail("failure")
				}
				e.Label("damaged driver")
				good = ""
				continue
			} else if !equalStrings(got, exp) {
				fail("the targets gave %q, want %q", got, exp)
			}
			if built {
				damaged = false
				builds++
			}
			if op.Force && !built {
				fail("the driver was not compiled, though that was forced")
			}
			if lastFab >= 0 && lastFab != fab && !built {
				fail("the driver of another fab command was used")
			}
			if good == state() && goodFab == op.Fab2 && !op.Force {
				if built {
					fail("the driver was compiled, though nothing has changed")
				}
				reuse++
			}
			if good != "" && good != state() {
				stale++
			}
			if built {
				lastFab = fab
			}
			good, goodFab = state(), op.Fab2
		}
	}
	e.LabelIf(reuse > 0, "existing driver used")
	e.LabelIf(stale > 0, "changed code")
	if builds > 1 {
		e.NonTrivial()
	}
}

func init() {
	pbt.Register(&pbt.Prop{
		ID: "C24",
		Subs: []*pbt.Sub{
			pbt.NewSub("history", "histories of changes to the files of a _fab package (set, remove, rename, swap, revert, rename the package, files outside of the build), damage to files of the cache, and runs with -f, -list, -v and another fab command, in which tools fail, fab is killed, or the code is edited at a given stage; non-trivial: the driver was compiled at least twice", 16, 3000, c24Gen, c24Run),
			pbt.NewSub("interrupted", "histories in which the code is changed and the run that would make a new driver fails or is killed at a given stage, once or twice, before fab is run again; non-trivial: as above", 14, 1500, c24GenInterrupted, c24Run),
			pbt.NewSub("replaced", "runs that make a new driver (for changed code, another fab command, or with -f) and are killed when they touch the driver, its hash or its version file, or microseconds later; then the code is reverted, mostly, and fab is run; non-trivial: a killed run did replace the driver", 14, 1500, c24ReplacedGen, c24ReplacedRun),
			pbt.NewSub("contents", "changes to the code that are easy to overlook: files with equal contents that appear, change or go together, contents swapped between files and files renamed (which changes the order of initialization), changes of a few bytes in white space or after up to 6000 lines of comment, with or without keeping lengths and modification times; non-trivial: what the code does was changed", 16, 2500, c24ContentsGen, c24ContentsRun),
		},
		Assumptions: []string{
			"A wrapper of go in PATH shows whether go build ran.",
			"A driver file that is itself damaged may fail instead of being made anew.",
		},
	})
}
