package props

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"github.com/bobg/fab"
	"pgregory.net/rapid"

	"verif/pbt"
)

// C30: failures name what failed, and output is shown.

type c30Piece struct {
	Err  bool // on standard error
	Bare bool // without a newline
}

type c30Node struct {
	Kind   string // cmd, none, clean, all, seq, deps, arg, files
	Named  bool
	Kids   []c30Node
	Pieces []c30Piece // of cmd
	Code   int        // of cmd; number of files of clean
	Stdout string     // file
	Stderr string
}

type c30Case struct {
	Root    c30Node
	Verbose bool
	YAML    bool
	Long    bool // output of many kilobytes
	Dry     bool
}

func c30Gen(yaml bool) func(t *rapid.T) c30Case {
	return func(t *rapid.T) c30Case {
		c := c30Case{Verbose: chance(t, 40, "verbose"), YAML: yaml || drawBool(t, "yaml"), Long: chance(t, 10, "long")}
		c.Long = c.Long && !c.Verbose // long output of several commands can be mixed within lines
		c.Dry = chance(t, 12, "dry")
		fails := pick(t, "fails", 0, 20, 50)
		var gen func(depth int) c30Node
		gen = func(depth int) c30Node {
			n := c30Node{Named: drawBool(t, "named")}
			x := drawInt(t, 0, 99, "kind")
			if depth == 0 || x < 35 {
				if chance(t, fails/4, "none") {
					n.Kind = "none"
					return n
				}
				if chance(t, 10, "clean") {
					n.Kind, n.Code = "clean", drawInt(t, 0, 2, "files")
					return n
				}
				n.Kind = "cmd"
				for k := drawInt(t, 0, 4, "pieces"); k > 0; k-- {
					n.Pieces = append(n.Pieces, c30Piece{drawBool(t, "err"), !c.Verbose && chance(t, 30, "bare")})
				}
				if chance(t, fails, "fails") {
					n.Code = pick(t, "code", 1, 2, 7, 255)
				}
				if chance(t, 15, "stdoutFile") {
					n.Stdout = "so"
				}
				if chance(t, 15, "stderrFile") {
					n.Stderr = "se"
				}
				return n
			}
			lo, hi := 0, 3
			switch {
			case x < 55:
				n.Kind = "all"
			case x < 75:
				n.Kind = "seq"
			case x < 85:
				n.Kind, lo = "deps", 1
			case x < 92:
				n.Kind, lo, hi = "arg", 1, 1
			default:
				n.Kind, lo, hi = "files", 1, 1
			}
			for k := drawInt(t, lo, hi, "kids"); k > 0; k-- {
				n.Kids = append(n.Kids, gen(depth-1))
			}
			return n
		}
		c.Root = gen(pick(t, "depth", 0, 1, 2, 3))
		c.Root.Named = true
		return c
	}
}

// c30Leaf is a command in the tree.
type c30Leaf struct {
	n    c30Node
	id   int
	path []string // names of it and the targets above it, innermost first; "" for those that have none
	ran  bool
}

type c30State struct {
	e      *pbt.Env
	c      c30Case
	leaves []*c30Leaf
	defs   []string // YAML definitions
	ids    int
}

func (st *c30State) token(id, k int) string {
	s := fmt.Sprintf("out%dx%dy", id, k)
	if st.c.Long {
		s += strings.Repeat("z", 40000)
	}
	return s
}

func (st *c30State) file(id int, kind string) string {
	return filepath.Join(st.e.Dir, fmt.Sprintf("%s%d", kind, id))
}

func (st *c30State) command(id int, n c30Node) *fab.Command {
	var s []string
	for k, p := range n.Pieces {
		tok := st.token(id, k)
		short := strings.TrimRight(tok, "z")
		x := "printf " + short
		if len(tok) > len(short) {
			x += fmt.Sprintf(`; head -c %d /dev/zero | tr '\0' z`, len(tok)-len(short))
		}
		if !p.Bare {
			x += "; echo"
		}
		if p.Err {
			x = "{ " + x + "; } >&2"
			if !p.Bare && !st.c.Long {
				x = "echo " + tok + " >&2"
			}
		} else if !p.Bare && !st.c.Long {
			x = "echo " + tok
		}
		s = append(s, x)
	}
	s = append(s, fmt.Sprintf("exit %d", n.Code))
	c := &fab.Command{Shell: strings.Join(s, "; ")}
	if n.Stdout != "" {
		c.StdoutFile = st.file(id, "so")
	}
	if n.Stderr != "" {
		c.StderrFile = st.file(id, "se")
	}
	return c
}

// build makes the target (or its YAML), and returns whether running it fails.
// It runs only if live.
func (st *c30State) build(con *fab.Controller, n c30Node, path []string, live bool) (t fab.Target, y string, fails bool) {
	st.ids++
	id := st.ids
	name := ""
	if n.Named {
		name = fmt.Sprintf("Name%dn", id)
	}
	if id == 1 {
		name = "T"
	}
	path = append([]string{name}, path...)
	var (
		ts []fab.Target
		ys []string
	)
	kid := func(k c30Node, live bool) bool {
		t, y, f := st.build(con, k, path, live)
		ts, ys = append(ts, t), append(ys, y)
		return f
	}
	quote := func(s string) string { return fmt.Sprintf("%q", s) }
	list := func() string { return "[" + strings.Join(ys, ", ") + "]" }
	switch n.Kind {
	case "cmd", "none":
		cmd := st.command(id, n)
		if n.Kind == "none" {
			cmd = &fab.Command{Cmd: fmt.Sprintf("/no/such/program%dp", id)}
			y = "!Command {Cmd: " + quote(cmd.Cmd) + "}"
		} else {
			y = "!Command {Shell: " + quote(cmd.Shell)
			if n.Stdout != "" {
				y += ", Stdout: " + quote(cmd.StdoutFile)
			}
			if n.Stderr != "" {
				y += ", Stderr: " + quote(cmd.StderrFile)
			}
			y += "}"
		}
		t, fails = cmd, !st.c.Dry && (n.Code != 0 || n.Kind == "none")
		st.leaves = append(st.leaves, &c30Leaf{n, id, path, live && !st.c.Dry})
	case "clean":
		x := &fab.Clean{}
		for k := 0; k < n.Code; k++ {
			f := st.file(id, fmt.Sprintf("junk%d-", k))
			if k == 0 {
				st.e.Must(os.WriteFile(f, nil, 0o644))
			}
			x.Files = append(x.Files, f)
			ys = append(ys, quote(f))
		}
		t, y = x, "!Clean {Files: "+list()+"}"
	case "all":
		for _, k := range n.Kids {
			f := kid(k, live)
			fails = fails || f
		}
		t, y = fab.All(ts...), "!All "+list()
	case "seq":
		for _, k := range n.Kids {
			f := kid(k, live && !fails)
			fails = fails || f
		}
		t, y = fab.Seq(ts...), "!Seq "+list()
	case "deps":
		// The first one runs last.
		for _, k := range n.Kids[1:] {
			f := kid(k, live)
			fails = fails || f
		}
		f := kid(n.Kids[0], live && !fails)
		fails = fails || f
		last := len(ts) - 1
		ts = append([]fab.Target{ts[last]}, ts[:last]...)
		ys = append([]string{ys[last]}, ys[:last]...)
		t, y = fab.Deps(ts[0], ts[1:]...), "!Deps "+list()
	case "arg":
		fails = kid(n.Kids[0], live)
		ys = append(ys, `"x"`)
		t, y = fab.ArgTarget(ts[0], "x"), "!ArgTarget "+list()
	case "files":
		fails = kid(n.Kids[0], live)
		o := st.file(id, "out")
		t, y = fab.Files(ts[0], nil, []string{o}), "!Files {Target: "+ys[0]+", Out: ["+quote(o)+"]}"
	}
	if name != "" {
		st.defs = append(st.defs, name+": "+y+"\n")
		y = name
		if con != nil {
			_, err := con.RegisterTarget(name, "", t)
			st.e.Must(err)
		}
	}
	return t, y, fails
}

// check compares what was said with what should have been.
// Messages are the text of the error or, with the fab command, all that it wrote.
func (st *c30State) check(message string, failed, wantFail bool, stdout, stderr string, cli bool) {
	e, c := st.e, st.c
	if failed != wantFail {
		e.Fatalf("fails: %v, want %v: %s", failed, wantFail, message)
	}
	nfailed := 0
	for _, l := range st.leaves {
		bad := l.n.Code != 0 || l.n.Kind == "none"
		if bad && l.ran {
			nfailed++
			for _, name := range l.path {
				if name != "" && !strings.Contains(message, name) {
					e.Fatalf("%s (above the failing command %d) is not in the message: %s", name, l.id, message)
				}
			}
			if l.n.Kind == "none" && !strings.Contains(message, fmt.Sprintf("program%dp", l.id)) {
				e.Fatalf("the program that cannot be run is not in the message: %s", message)
			}
			if l.n.Code != 0 && !strings.Contains(message, fmt.Sprintf("exit status %d", l.n.Code)) {
				e.Fatalf("exit status %d is not in the message: %s", l.n.Code, message)
			}
			e.Label("failing command")
		}
		if n := l.path[0]; !cli && n != "" && !(bad && l.ran) && strings.Contains(message, n+":") {
			e.Fatalf("%s did not fail, but is in the message: %s", n, message)
		}
		var out string
		for k, p := range l.n.Pieces {
			file := l.n.Stdout
			kind := "so"
			if p.Err {
				file, kind = l.n.Stderr, "se"
			}
			tok := st.token(l.id, k)
			if file != "" {
				data, _ := os.ReadFile(st.file(l.id, kind))
				if got := bytes.Contains(data, []byte(tok)); got != l.ran {
					e.Fatalf("output %s: in the file: %v, command executed: %v", tok, got, l.ran)
				}
			} else {
				out += tok
				if !p.Bare {
					out += "\n"
				}
			}
			shown, other := stdout, stderr
			if p.Err {
				shown, other = stderr, stdout
			}
			count := func(s string) (n int) {
				for _, line := range strings.Split(s, "\n") {
					if strings.TrimLeft(line, " ") == tok {
						n++
					}
				}
				return n
			}
			want := 0
			if c.Verbose && file == "" && l.ran {
				want = 1
			}
			switch {
			case !c.Verbose && cli:
			case p.Bare:
			case count(shown) != want:
				e.Fatalf("verbose: %v, executed: %v: output line %.40s is shown %d times, want %d", c.Verbose, l.ran, tok, count(shown), want)
			case count(other) != 0 && !cli:
				e.Fatalf("output line %.40s is shown on the wrong stream", tok)
			}
		}
		if !c.Verbose {
			if bad && l.ran && !strings.Contains(message, out) {
				e.Fatalf("the output %q of a failing command is not in the message: %s", out, message)
			}
			if out != "" && !(bad && l.ran) && strings.Contains(message, fmt.Sprintf("out%dx", l.id)) {
				e.Fatalf("the output %q of a command that did not fail is in the message: %s", out, message)
			}
			if out != "" && bad && l.ran {
				e.Label("output in message")
			}
		} else if out != "" {
			e.LabelIf(l.ran, "output shown")
		}
	}
	e.LabelIf(nfailed > 1, "several failures")
	if nfailed > 0 || c.Verbose {
		e.NonTrivial()
	}
}

func c30Run(e *pbt.Env, c c30Case) {
	var streams [2]*os.File
	for i := range streams {
		f, err := os.Create(filepath.Join(e.Dir, fmt.Sprintf("stream%d", i)))
		e.Must(err)
		streams[i] = f
		e.Cleanup(func() { f.Close() })
	}
	os.Stdout, os.Stderr = streams[0], streams[1]
	ctx := fab.WithHashDB(fab.WithDryRun(fab.WithVerbose(context.Background(), c.Verbose), c.Dry), newMemDB())
	st := &c30State{e: e, c: c}
	var (
		con      *fab.Controller
		root     fab.Target
		wantFail bool
	)
	prepare := func() {
		st.leaves, st.defs, st.ids = nil, nil, 0
		con = fab.NewController(e.Dir)
		if c.YAML {
			_, _, wantFail = st.build(nil, c.Root, nil, true)
			text := strings.Join(st.defs, "")
			if err := con.ReadYAML(strings.NewReader(text), ""); err != nil {
				e.Fatalf("ReadYAML: %s\n%s", err, text)
			}
			root, _ = con.RegistryTarget("T")
		} else {
			root, _, wantFail = st.build(con, c.Root, nil, true)
		}
	}
	prepare()
	err := con.Run(ctx, root)
	read := func(i int) string {
		data, err := os.ReadFile(streams[i].Name())
		e.Must(err)
		return string(data)
	}
	message := ""
	if err != nil {
		message = err.Error()
	}
	st.check(message, err != nil, wantFail, read(0), read(1), false)
	if !c.Verbose && (read(0) != "" || read(1) != "") {
		e.Fatalf("a quiet run wrote %q and %q", read(0), read(1))
	}
	if !c.Verbose && !wantFail {
		// Now some of it is up to date.
		prepare()
		err := con.Run(ctx, root)
		if err != nil || read(0) != "" || read(1) != "" {
			e.Fatalf("a second quiet run wrote %q and %q (%v)", read(0), read(1), err)
		}
	}
	// The error has everything in a form for programs too.
	var codes []int
	outputs := map[string]bool{}
	var walk func(error)
	walk = func(err error) {
		switch x := err.(type) {
		case nil:
			return
		case fab.CommandErr:
			outputs[string(x.Output)] = true
		case *exec.ExitError:
			codes = append(codes, x.ExitCode())
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			walk(x.Unwrap())
		case interface{ Unwrap() []error }:
			for _, y := range x.Unwrap() {
				walk(y)
			}
		}
	}
	walk(err)
	want := 0
	for _, l := range st.leaves {
		if !l.ran || l.n.Code == 0 {
			continue
		}
		want++
		out := ""
		for k, p := range l.n.Pieces {
			if p.Err && l.n.Stderr == "" || !p.Err && l.n.Stdout == "" {
				out += st.token(l.id, k)
				if !p.Bare {
					out += "\n"
				}
			}
		}
		if !c.Verbose && out != "" && !outputs[out] {
			e.Fatalf("no CommandErr has the output %q", out)
		}
		found := false
		for _, x := range codes {
			found = found || x == l.n.Code
		}
		if !found {
			e.Fatalf("no exec.ExitError has code %d", l.n.Code)
		}
	}
	if len(codes) != want {
		e.Fatalf("the error has exit codes %v, want %d of them", codes, want)
	}
	if c.Verbose && len(outputs) > 0 {
		e.Fatalf("output was shown, and is in a CommandErr as well")
	}
	var none *exec.Error
	var pathErr *os.PathError
	for _, l := range st.leaves {
		if l.ran && l.n.Kind == "none" && !errors.As(err, &none) && !errors.As(err, &pathErr) {
			e.Fatalf("the error for a program that cannot be run cannot be found in %v", err)
		}
	}
}

func c30CLI(e *pbt.Env, c c30Case) {
	st := &c30State{e: e, c: c}
	_, _, wantFail := st.build(nil, c.Root, nil, true)
	top := filepath.Join(e.Dir, "top")
	e.WriteFile(filepath.Join(top, "fab.yaml"), strings.Join(st.defs, ""))
	args := []string{"-fab", filepath.Join(e.Dir, "fabdir")}
	if c.Verbose {
		args = append(args, "-v")
	}
	if c.Dry {
		args = append(args, "-n")
	}
	cmd := exec.Command(pbt.FabBin(), append(args, "T")...)
	cmd.Dir = top
	var stdout, stderr bytes.Buffer
	cmd.Stdout, cmd.Stderr = &stdout, &stderr
	err := cmd.Run()
	var x *exec.ExitError
	if err != nil && !errors.As(err, &x) {
		e.Infra("fab: %s", err)
	}
	if !wantFail && !c.Verbose && stdout.Len()+stderr.Len() > 0 {
		e.Fatalf("fab wrote %q and %q", stdout.String(), stderr.String())
	}
	st.check(stdout.String()+stderr.String(), err != nil, wantFail, stdout.String(), stderr.String(), true)
}

func init() {
	pbt.Register(&pbt.Prop{
		ID: "C30",
		Subs: []*pbt.Sub{
			pbt.NewSub("library", "trees of composites, Files and Clean over commands that write pieces of output to either stream or to files and may fail or not exist, some of them named, quiet or verbose, from Go and YAML; non-trivial: a failing command was executed, or verbose", 8000, 400000, c30Gen(false), c30Run),
			pbt.NewSub("cli", "the same with the fab command", 1200, 50000, c30Gen(true), c30CLI),
		},
		Assumptions: []string{"with the fab command, messages may be on either stream"},
	})
}
