package props

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"pgregory.net/rapid"

	"verif/pbt"
)

// C25: with and without a driver.

type c25Target struct {
	Sub  bool   // in s/fab.yaml
	Kind string // command, cmd, list, files, all, seq, deps, clean, arg
	Kids []int
	Args []string
	Out  string // where output goes
	Err  string
	Dir  string
	Env  []string
	Fail bool
	In   bool // standard input
	Doc  string
	Auto bool
}

type c25Run struct {
	Flags []string // without -fab
	Fab   string   // abs, rel, default
	Args  []string // T3 for a target
	Cwd   string
	Stdin string
	Edit  bool
}

type c25Case struct {
	Targets []c25Target
	Broken  string
	YML     bool
	SubDir  string // the _dir of s/fab.yaml
	Runs    []c25Run
}

func c25Gen(t *rapid.T) c25Case {
	c := c25Case{YML: chance(t, 10, "yml"), SubDir: pick(t, "subdir", "s", "s", "s", "s", "s", "s", "")}
	if chance(t, 14, "broken") {
		c.Broken = pick(t, "broken", "ref", "syntax", "tag", "nodir", "subsyntax", "wrongdir", "kind", "subref", "field")
	}
	n := drawInt(t, 1, 7, "targets")
	stdin := drawInt(t, 0, 2*n, "stdin")
	fails := chance(t, 30, "fails")
	for i := 0; i < n; i++ {
		x := c25Target{Sub: i > 0 && chance(t, 30, "sub"), Kind: pick(t, "kind", "command", "command", "cmd", "list", "files", "files", "all", "seq", "deps", "clean", "arg")}
		if i == 0 {
			x.Kind = pick(t, "kind", "command", "cmd", "files")
		}
		x.In = stdin == i
		x.Fail = fails && chance(t, 30, "fail")
		x.Auto = drawBool(t, "auto")
		for k := drawInt(t, 0, 3, "args"); k > 0; k-- {
			x.Args = append(x.Args, pick(t, "arg", "a", "a b", "$V", "'q'", "*", "", "-n", "é", "\"x\\"))
		}
		x.Out = pick(t, "out", "", "", "$stdout", "$stdout", "$stderr", "$indent", "$verbose", "$discard", "file", ">>file")
		x.Err = pick(t, "err", "", "", "", "$stderr", "$stdout", "$indent", "file2")
		x.Dir = pick(t, "dir", "", "", "", "w", "..")
		if chance(t, 30, "env") {
			x.Env = []string{"V=" + pick(t, "v", "1", "x y", "")}
		}
		x.Doc = pick(t, "doc", "", "", "Docs.", "Two\nlines.")
		switch x.Kind {
		case "all", "seq":
			for k := drawInt(t, 0, 3, "kids"); k > 0; k-- {
				x.Kids = append(x.Kids, uniform(t, i, "kid"))
			}
		case "deps":
			for k := drawInt(t, 1, 3, "kids"); k > 0; k-- {
				x.Kids = append(x.Kids, uniform(t, i, "kid"))
			}
		case "arg":
			x.Kids = []int{uniform(t, i, "kid")}
		}
		c.Targets = append(c.Targets, x)
	}
	for k := drawInt(t, 1, 3, "runs"); k > 0; k-- {
		r := c25Run{Fab: pick(t, "fab", "abs", "rel", "default"), Cwd: pick(t, "cwd", ".", ".", "s", "w/deep", "w", "link"), Stdin: pick(t, "text", "", "input", "two\nlines\n"), Edit: drawBool(t, "edit")}
		for _, f := range []string{"-v", "-n", "-list"} {
			if chance(t, 18, f) {
				r.Flags = append(r.Flags, f)
			}
		}
		if chance(t, 6, "force") {
			r.Flags = append(r.Flags, "-f")
		}
		switch {
		case chance(t, 6, "dashes"):
			r.Args = append([]string{"--"}, pick(t, "arg", "-x", "-list", "-n", "T0", "-h", "-top"))
			if drawBool(t, "more") {
				r.Args = append(r.Args, "T0")
			}
		case chance(t, 10, "with arguments"):
			r.Args = []string{fmt.Sprintf("T%d", uniform(t, n, "target")), pick(t, "arg", "-x", "-n", "--", "-list"), "y"}
		default:
			for j := pick(t, "nargs", 0, 1, 1, 1, 1, 2, 2, 3); j > 0; j-- {
				a := fmt.Sprintf("T%d", uniform(t, n, "target"))
				if c.Broken == "ref" && drawBool(t, "bad") {
					a = "bad"
				}
				if chance(t, 4, "unknown") {
					a = pick(t, "which", "Nope", "s/Nope", "", "./T0", "T0 ")
				}
				r.Args = append(r.Args, a)
			}
		}
		c.Runs = append(c.Runs, r)
	}
	return c
}

func (c c25Case) name(i int) string {
	if c.Targets[i].Sub {
		return fmt.Sprintf("s/T%d", i)
	}
	return fmt.Sprintf("T%d", i)
}

// racy tells whether some run may remove the output of a Files target while that runs.
func (c c25Case) racy() bool {
	racy := false
	type has struct{ clean, files bool }
	var walk func(i int) has
	group := func(kids []int) (all has) {
		for n, k := range kids {
			h := walk(k)
			for m, k2 := range kids {
				if m != n && k2 != k {
					h2 := walk(k2)
					racy = racy || h.clean && h2.files
				}
			}
			all.clean, all.files = all.clean || h.clean, all.files || h.files
		}
		return all
	}
	walk = func(i int) has {
		x := c.Targets[i]
		switch x.Kind {
		case "clean":
			return has{clean: true}
		case "files":
			return has{files: true}
		case "all":
			return group(x.Kids)
		case "deps":
			h, h2 := group(x.Kids[1:]), walk(x.Kids[0])
			return has{h.clean || h2.clean, h.files || h2.files}
		}
		var all has
		for _, k := range x.Kids {
			h := walk(k)
			all.clean, all.files = all.clean || h.clean, all.files || h.files
		}
		return all
	}
	for _, r := range c.Runs {
		var tops []int
		for _, a := range r.Args {
			for i := range c.Targets {
				if a == fmt.Sprintf("T%d", i) {
					tops = append(tops, i)
				}
			}
		}
		group(tops)
	}
	return racy
}

// yaml gives the text of the two files.
func (c c25Case) yaml(rec string) (top, sub string) {
	var a, b strings.Builder
	q := yquote
	anySub := false
	racy := c.racy()
	for i, x := range c.Targets {
		sb := &a
		if x.Sub {
			sb = &b
			anySub = true
		}
		ref := func(k int) string {
			if x.Sub && c.Targets[k].Sub {
				return fmt.Sprintf("./T%d", k)
			}
			return c.name(k)
		}
		var refs []string
		for _, k := range x.Kids {
			refs = append(refs, ref(k))
		}
		for _, l := range strings.Split(x.Doc, "\n") {
			if l != "" {
				fmt.Fprintf(sb, "# %s\n", l)
			}
		}
		fmt.Fprintf(sb, "T%d: ", i)
		shell := func(part string) string {
			s := shellQuote(rec) + " " + fmt.Sprint(i) + part
			for _, arg := range x.Args {
				if arg == "$V" {
					s += " \"$V\""
				} else {
					s += " " + shellQuote(arg)
				}
			}
			return s
		}
		opts := func(indent string) {
			if x.Out != "" {
				o := x.Out
				if !strings.HasPrefix(o, "$") {
					o += fmt.Sprint(i)
				}
				fmt.Fprintf(sb, "%sStdout: %q\n", indent, o)
			}
			if x.Err != "" {
				o := x.Err
				if !strings.HasPrefix(o, "$") {
					o += fmt.Sprint(i)
				}
				fmt.Fprintf(sb, "%sStderr: %q\n", indent, o)
			}
			if x.Dir != "" && !(x.Sub && x.Dir == "w") && !(!x.Sub && x.Dir == "..") {
				fmt.Fprintf(sb, "%sDir: %q\n", indent, x.Dir)
			}
			if x.In {
				fmt.Fprintf(sb, "%sStdin: $stdin\n", indent)
			}
			if len(x.Env) > 0 {
				fmt.Fprintf(sb, "%sEnv: [%q]\n", indent, x.Env[0])
			}
		}
		tail := ""
		if x.In {
			tail = "; cat >>" + shellQuote(rec+".stdin")
		}
		if x.Fail {
			tail += "; exit 3"
		}
		switch x.Kind {
		case "command":
			fmt.Fprintf(sb, "!Command\n  Shell: %s\n", q(shell("")+tail))
			opts("  ")
		case "list":
			fmt.Fprintf(sb, "!Command\n  Shell:\n    - %s\n    - %s\n", q(shell("a")), q(shell("b")+tail))
			opts("  ")
		case "cmd":
			cmd := rec
			if x.Fail {
				cmd = rec + "-fail"
			}
			fmt.Fprintf(sb, "!Command\n  Cmd: %s\n  Args:\n    - \"%d\"\n", q(cmd), i)
			for _, arg := range x.Args {
				fmt.Fprintf(sb, "    - %s\n", q(arg))
			}
			opts("  ")
		case "files":
			fmt.Fprintf(sb, "!Files\n  In: [in0, in1]\n  Out: [f%d]\n", i)
			if x.Auto {
				fmt.Fprintf(sb, "  Autoclean: true\n")
			}
			fmt.Fprintf(sb, "  Target: !Command\n    Shell: %s\n", q(shell("")+fmt.Sprintf("; cat in0 in1 >f%d", i)+tail))
			x.Dir, x.In = "", false
			opts("    ")
		case "all":
			fmt.Fprintf(sb, "!All [%s]\n", strings.Join(refs, ", "))
		case "seq":
			fmt.Fprintf(sb, "!Seq [%s]\n", strings.Join(refs, ", "))
		case "deps":
			fmt.Fprintf(sb, "!Deps\n  Post: %s\n  Pre: [%s]\n", refs[0], strings.Join(refs[1:], ", "))
		case "arg":
			fmt.Fprintf(sb, "!ArgTarget [%s, -x, y]\n", refs[0])
		case "clean":
			if racy {
				fmt.Fprintf(sb, "!Clean\n  Files: [none]\n")
				break
			}
			fmt.Fprintf(sb, "!Clean\n  Files: [f0, f1, f2, none]\n  Autoclean: %v\n", x.Auto)
		}
	}
	if anySub {
		// The targets of s are known if they are mentioned.
		fmt.Fprintf(&a, "all-of-s: !All [")
		for i, x := range c.Targets {
			if x.Sub {
				fmt.Fprintf(&a, "s/T%d, ", i)
			}
		}
		fmt.Fprintf(&a, "]\n")
	}
	switch c.Broken {
	case "ref":
		a.WriteString("bad: !Seq [Missing]\n")
	case "syntax":
		a.WriteString("bad: [\n")
	case "tag":
		a.WriteString("bad: !Nothing {}\n")
	case "nodir":
		a.WriteString("bad: !Seq [nodir/X]\n")
	case "subsyntax":
		a.WriteString("bad: !Seq [s/X]\n")
		b.WriteString("X: !Command [\n")
	case "subref":
		a.WriteString("bad: !Seq [s/X]\n")
	case "wrongdir":
		a.WriteString("bad: !Seq [s/X]\n")
		b.WriteString("X: !Seq []\n")
	case "kind":
		a.WriteString("bad: !Command [x]\n")
	case "field":
		a.WriteString("bad: !Clean\n  Files: {a: b}\n")
	}
	top, sub = a.String(), b.String()
	if sub != "" || c.Broken == "subref" {
		switch {
		case c.Broken == "wrongdir":
			sub = "_dir: other\n" + sub
		case c.SubDir != "":
			sub = "_dir: " + c.SubDir + "\n" + sub
		}
	}
	return
}

var (
	c25Once   sync.Once
	c25Driver string // a cache with the driver
	c25Err    error
)

const c25Package = "package _fab\n\nimport _ \"github.com/bobg/fab\"\n"

// c25Build makes the driver once per process.
func c25Build(e *pbt.Env) {
	c25Once.Do(func() {
		dir := filepath.Join(filepath.Dir(e.Dir), "driver")
		driverModule(e, filepath.Join(dir, "p"))
		e.WriteFile(filepath.Join(dir, "p/_fab/p.go"), c25Package)
		e.WriteFile(filepath.Join(dir, "p/fab.yaml"), "T: !Seq []\n")
		_, _, code := runFab(e, pbt.FabBin(), filepath.Join(dir, "p"), "", "-fab", filepath.Join(dir, "cache"), "T")
		if code == 0 {
			c25Driver = filepath.Join(dir, "cache/q/_fab")
		}
	})
}

type c25Result struct {
	Code  int
	Out   []string
	Err   []string
	Log   []string
	Stdin string
	Files map[string]string
}

var c25Messages = map[string]bool{
	"Running in driverless mode": true, "Using existing driver": true, "Forcing recompilation of driver": true, "Compiling driver": true, "Recompiling driver": true,
}

func c25Lines(s string, code int) []string {
	var r []string
	for _, l := range strings.Split(s, "\n") {
		if c25Messages[l] {
			continue
		}
		if code != 0 && !strings.Contains(l, "[out]") && !strings.Contains(l, "[err]") {
			continue // messages may differ
		}
		r = append(r, strings.TrimLeft(l, " ")) // the indentation of targets that run at once varies
	}
	sort.Strings(r)
	return r
}

func c25Exec(e *pbt.Env, c c25Case, driver bool, rec string) []c25Result {
	p := filepath.Join(e.Dir, "p")
	e.Must(os.RemoveAll(p))
	e.Must(os.RemoveAll(filepath.Join(e.Dir, "cache")))
	driverModule(e, p)
	top, sub := c.yaml(rec)
	name := "fab.yaml"
	if c.YML {
		name = "fab.yml"
	}
	e.WriteFile(filepath.Join(p, name), top)
	for _, d := range []string{"s", "w/deep"} {
		e.Must(os.MkdirAll(filepath.Join(p, d), 0o755))
	}
	if sub != "" {
		e.WriteFile(filepath.Join(p, "s/fab.yaml"), sub)
	}
	for _, d := range []string{"", "s"} {
		e.WriteFile(filepath.Join(p, d, "in0"), "in0\n")
		e.WriteFile(filepath.Join(p, d, "in1"), "in1\n")
	}
	e.Must(os.Symlink("w", filepath.Join(p, "link")))
	if driver {
		e.WriteFile(filepath.Join(p, "_fab/p.go"), c25Package)
		if c25Driver != "" {
			to := filepath.Join(e.Dir, "cache/fab/q/_fab")
			e.Must(os.MkdirAll(to, 0o755))
			for _, f := range []string{"fab.bin", "hash", "fab-version.json"} {
				if err := os.Link(filepath.Join(c25Driver, f), filepath.Join(to, f)); !os.IsNotExist(err) {
					e.Must(err)
				}
			}
		}
	}
	var rr []c25Result
	for i, r := range c.Runs {
		cwd := filepath.Join(p, r.Cwd)
		args := append([]string{}, r.Flags...)
		switch r.Fab {
		case "abs":
			args = append(args, "-fab", filepath.Join(e.Dir, "cache/fab"))
		case "rel":
			// Relative to the real directory.
			base := cwd
			if r.Cwd == "link" {
				base = filepath.Join(p, "w")
			}
			rel, err := filepath.Rel(base, filepath.Join(e.Dir, "cache/fab"))
			e.Must(err)
			args = append(args, "-fab="+rel)
		}
		for _, a := range r.Args {
			var k int
			if _, err := fmt.Sscanf(a, "T%d", &k); err == nil && a == fmt.Sprintf("T%d", k) && k < len(c.Targets) {
				a = c.name(k)
			}
			args = append(args, a)
		}
		if r.Edit && i > 0 {
			e.WriteFile(filepath.Join(p, "in0"), fmt.Sprintf("edit %d\n", i))
		}
		os.Remove(rec + ".log")
		os.Remove(rec + ".stdin")
		out, errOut, code := runFab(e, pbt.FabBin(), cwd, r.Stdin, args...)
		logged, _ := os.ReadFile(rec + ".log")
		input, _ := os.ReadFile(rec + ".stdin")
		log := strings.Split(string(logged), "\n")
		sort.Strings(log)
		rr = append(rr, c25Result{Code: code, Out: c25Lines(out, code), Err: c25Lines(errOut, code), Log: log, Stdin: string(input), Files: snapshot(p, false, "_fab")})
		if driver && strings.Contains(out, "driverless") && c.SubDir != "" {
			e.Fatalf("no driver was used: %s", out)
		}
	}
	return rr
}

func c25Do(e *pbt.Env, c c25Case) {
	c25Build(e)
	os.Setenv("XDG_CACHE_HOME", filepath.Join(e.Dir, "cache"))
	e.Cleanup(func() { os.Unsetenv("XDG_CACHE_HOME") })
	rec := filepath.Join(e.Dir, "rec")
	script := fmt.Sprintf(`#!/bin/sh
s="$V|$(pwd -P)|$(env | grep -v -e ^_= -e ^PWD= -e ^OLDPWD= | sort | md5sum)"
for a; do s="$s|$a"; done
printf '%%s\n' "$s" >>%s
echo "[out] $1"
echo "[err] $1" >&2
`, shellQuote(rec+".log"))
	e.WriteFile(rec, script)
	e.WriteFile(rec+"-fail", script+"exit 4\n")
	e.Must(os.Chmod(rec, 0o755))
	e.Must(os.Chmod(rec+"-fail", 0o755))

	without := c25Exec(e, c, false, rec)
	with := c25Exec(e, c, true, rec)
	top, sub := c.yaml(rec)
	show := func() string { return fmt.Sprintf("runs: %+v\nfab.yaml:\n%s\ns/fab.yaml:\n%s", c.Runs, top, sub) }
	ran := 0
	for i, r := range c.Runs {
		a, b := without[i], with[i]
		if (a.Code == 0) != (b.Code == 0) {
			e.Fatalf("run %d %+v: exit status %d without a driver (%q), %d with one (%q)\n%s", i, r, a.Code, a.Out, b.Code, b.Out, show())
		}
		if !equalStrings(a.Log, b.Log) || a.Stdin != b.Stdin {
			e.Fatalf("run %d %+v: commands without a driver:\n%s\n(input %q), with one:\n%s\n(input %q)\n%s", i, r, strings.Join(a.Log, "\n"), a.Stdin, strings.Join(b.Log, "\n"), b.Stdin, show())
		}
		if !equalStrings(a.Out, b.Out) || !equalStrings(a.Err, b.Err) {
			e.Fatalf("run %d %+v: output without a driver:\n%q\n%q\nwith one:\n%q\n%q\n%s", i, r, a.Out, a.Err, b.Out, b.Err, show())
		}
		if d := diffMaps(a.Files, b.Files); d != "" {
			e.Fatalf("run %d %+v: files without and with a driver:\n%s\n%s", i, r, d, show())
		}
		if len(a.Log) > 1 {
			ran++
		}
		// The exit status.
		if c.SubDir == "" && r.Cwd == "s" && sub != "" {
			continue // s is a project of its own
		}
		want := c25Succeeds(c, r)
		if (a.Code == 0) != want {
			e.Fatalf("run %d %+v: exit status %d, want success: %v (%q)\n%s", i, r, a.Code, want, a.Out, show())
		}
		e.LabelIf(!want, "failing run")
		e.LabelIf(r.Cwd != ".", "from a subdirectory")
	}
	e.LabelIf(c.Broken != "", "broken YAML")
	if ran > 0 {
		e.NonTrivial()
	}
}

// c25Succeeds tells whether a run should succeed.
func c25Succeeds(c c25Case, r c25Run) bool {
	list, dry := false, false
	for _, f := range r.Flags {
		list = list || f == "-list"
		dry = dry || f == "-n"
	}
	if _, sub := c.yaml("rec"); c.Broken != "" && c.Broken != "ref" || sub != "" && c.SubDir == "" {
		return false
	}
	if list {
		return true
	}
	args := r.Args
	if len(args) > 0 && args[0] == "--" {
		args = args[1:]
	}
	if len(args) > 1 && strings.HasPrefix(args[1], "-") {
		args = args[:1]
	}
	var fails func(i int) bool
	fails = func(i int) bool {
		x := c.Targets[i]
		switch x.Kind {
		case "command", "cmd", "list", "files":
			return x.Fail && !dry
		}
		for _, k := range x.Kids {
			if fails(k) {
				return true
			}
		}
		return false
	}
	for _, a := range args {
		ok := a == "all-of-s"
		for i := range c.Targets {
			if a == fmt.Sprintf("T%d", i) {
				ok = !fails(i)
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

func init() {
	pbt.Register(&pbt.Prop{
		ID: "C25",
		Subs: []*pbt.Sub{
			pbt.NewSub("modes", "projects of up to seven targets of the built-in kinds in two YAML files (some of them broken), and up to three runs with flags, arguments, working directory and standard input: the same without and with a _fab package; non-trivial: some command ran", 110, 12000, c25Gen, c25Do),
			pbt.NewSub("exits", "one to four commands in a Seq, Deps, list or ArgTarget, of which one may exit with any status, be killed by a signal, or kill fab or the driver by one: the exit status, and what was executed, without and with a _fab package; non-trivial: a command ran", 40, 4000, c25ExitGen, c25ExitDo),
		},
		Assumptions: []string{
			"Only the tags of package fab are used: which others there are depends on what the command and the driver import.",
			"The text of error messages and of messages about the driver may differ.",
		},
	})
}
