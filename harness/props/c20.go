package props

import (
	"context"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"github.com/bobg/fab"
	"github.com/bobg/fab/golang"
	"github.com/bobg/fab/sqlite"
	"pgregory.net/rapid"

	"verif/pbt"
)

// C20: go.Binary.

type c20Op struct {
	Op   string // run, edit, del, break, out, delout, restore, flags, clean
	File string
	Text string
	Bin  int
}

type c20Bin struct {
	Dir  string // below the directory of the YAML file
	Out  string // as given, or ""
	Flag int    // index of c20Flags
}

type c20Case struct {
	Mode  string // cli, go
	Top   string // name of the project directory
	Sub   string // directory of the YAML file, or the working directory, in the project
	Mod   string // directory of the module, below Sub
	Bins  []c20Bin
	Form  string // in Go: abs, rel; abs directory and rel output
	Link  bool   // the directory is a symbolic link
	Gen   bool   // lib/gen.go is the output of another rule
	Wrap  string // all, seq
	Extra []string
	Ops   []c20Op
}

var c20Flags = [][]string{
	nil, {"-trimpath"}, {"-tags=t"}, {"-tags", "t"}, {"-ldflags=-X main.X=1"}, {"-ldflags", "-X main.X=2 -s -w"}, {"-tags=u,t", "-ldflags=-X 'main.X=a b'"}, {"-p=2", "-v"},
	// Of flags given more than once, the last one counts.
	{"-tags", "x", "-tags", "t"},
	{"-tags", "t", "-tags", ""},
	{"-ldflags", "", "-tags", "t"},
	{"-p", "2", "-ldflags", "-X main.X=1", "-tags", "t", "-v", "-tags", "t"},
	{"-ldflags=-X main.X=1", "-ldflags=-X main.X=2"},
	{"-ldflags=-X main.X=2", "-ldflags=-X main.X=1"},
}

func c20X(flag int) string {
	return []string{"none", "none", "none", "none", "1", "2", "a b", "none", "none", "none", "none", "1", "2", "1"}[flag]
}

func c20Tag(flag int) bool {
	return flag == 2 || flag == 3 || flag == 6 || flag == 8 || flag == 10 || flag == 11
}

// Files of the module, by the role they play.
var c20Files = []string{"main.go", "lib/lib.go", "lib/sub/sub.go", "e.txt", "extra.go", "tag.go", "nottag.go", "lib/asm.s", "lib/gen.go", "main_test.go", "lib/lib_test.go", "w_windows.go", "unused/u.go", "README.md", "lib/e.txt", "nest/n.go"}

func c20Gen(t *rapid.T) c20Case {
	c := c20Case{
		Mode: pick(t, "mode", "cli", "go"),
		Top:  pick(t, "top", "p", "p q", "p[1]"),
		Sub:  pick(t, "sub", "", "", "s"),
		Mod:  pick(t, "mod", "", "m", "a/m"),
		Link: chance(t, 10, "link"),
		Wrap: pick(t, "wrap", "all", "seq"),
	}
	c.Form = pick(t, "form", "abs", "rel", "mixed")
	c.Gen = c.Mode == "cli" && chance(t, 30, "gen")
	n := 1
	if chance(t, 40, "two") {
		n = 2
	}
	for i := 0; i < n; i++ {
		b := c20Bin{Dir: c.Mod, Flag: uniform(t, len(c20Flags), "flags")}
		if i == 1 {
			b.Dir = filepath.Join(c.Mod, "cmd/b")
		}
		if i == 1 || drawBool(t, "out") {
			b.Out = pick(t, "outfile", "o", "bin/o", "new/dir/o", "o x", "./q/../o") + fmt.Sprint(i)
		}
		c.Bins = append(c.Bins, b)
	}
	for _, f := range []string{"extra.go", "tag.go", "nottag.go", "lib/asm.s", "lib/lib_test.go", "lib/gen.go"} {
		if chance(t, 50, "present") || f == "lib/gen.go" && c.Gen {
			c.Extra = append(c.Extra, f)
		}
	}
	text := func() string { return pick(t, "text", "a", "b", "c") }
	steps := drawInt(t, 2, 5, "steps")
	for i := 0; i < steps; i++ {
		if i > 0 {
			for k := drawInt(t, 0, 2, "changes"); k > 0; k-- {
				b := drawInt(t, 0, n-1, "bin")
				switch x := drawInt(t, 0, 99, "change"); {
				case x < 55:
					f := c20Files[uniform(t, len(c20Files), "file")]
					if f == "lib/gen.go" && c.Gen {
						f = "gen.txt"
					}
					c.Ops = append(c.Ops, c20Op{Op: "edit", File: f, Text: text()})
				case x < 62:
					c.Ops = append(c.Ops, c20Op{Op: "del", File: pick(t, "del", "extra.go", "tag.go", "nottag.go", "lib/asm.s", "main_test.go", "lib/gen.go")})
				case x < 70:
					c.Ops = append(c.Ops, c20Op{Op: "break", File: pick(t, "broken", "main.go", "lib/lib.go", "lib/sub/sub.go", "unused/u.go", "link")})
				case x < 76:
					c.Ops = append(c.Ops, c20Op{Op: "out", Bin: b})
				case x < 82:
					c.Ops = append(c.Ops, c20Op{Op: "delout", Bin: b})
				case x < 88:
					c.Ops = append(c.Ops, c20Op{Op: "restore", Bin: b})
				case x < 96:
					c.Ops = append(c.Ops, c20Op{Op: "flags", Bin: b, Text: fmt.Sprint(uniform(t, len(c20Flags), "flags"))})
				case c.Mode == "cli":
					c.Ops = append(c.Ops, c20Op{Op: "clean"})
				}
			}
		}
		c.Ops = append(c.Ops, c20Op{Op: "run"})
		if chance(t, 30, "again") {
			c.Ops = append(c.Ops, c20Op{Op: "run"})
		}
	}
	if c.Gen {
		for i := range c.Ops {
			if c.Ops[i].File == "lib/gen.go" && c.Ops[i].Op == "del" {
				c.Ops[i].File = "extra.go" // Go code that is not there cannot be examined
			}
		}
	}
	return c
}

// c20Source gives the text of a file.
func c20Source(f, v string, broken bool) string {
	s := ""
	switch f {
	case "main.go":
		s = "package main\n\nimport (\n\t_ \"embed\"\n\n\t\"example.com/m/lib\"\n)\n\n//go:embed e.txt\nvar emb string\n\nvar X = \"none\"\n\nvar extra, tag string\n\nfunc main() {\n\tprintln(\"" + v + "\", lib.V()+lib.G, \"extra=\"+extra+\" tag=\"+tag+\" emb=\"+emb+\" X=\"+X)\n}\n"
	case "cmd/b/main.go":
		s = "package main\n\nimport \"example.com/m/lib\"\n\nvar X = \"none\"\n\nfunc main() { println(\"B" + v + "\", lib.V()+lib.G, \"X=\"+X) }\n"
	case "lib/lib.go":
		s = "package lib\n\nimport \"example.com/m/lib/sub\"\n\nvar G string\n\nfunc V() string { return \"" + v + "\" + sub.V }\n"
	case "lib/sub/sub.go":
		s = "package sub\n\nconst V = \"" + v + "\"\n"
	case "extra.go":
		s = "package main\n\nfunc init() { extra = \"" + v + "\" }\n"
	case "tag.go":
		s = "//go:build t\n\npackage main\n\nfunc init() { tag += \"t" + v + "\" }\n"
	case "nottag.go":
		s = "//go:build !t\n\npackage main\n\nfunc init() { tag += \"n" + v + "\" }\n"
	case "lib/gen.go":
		s = "package lib\n\nfunc init() { G = \"gen " + v + "\" }\n"
	case "lib/asm.s":
		s = "// " + v + "\n"
	case "main_test.go":
		s = "package main\n\nvar Test = \"" + v + "\"\n"
	case "lib/lib_test.go":
		s = "package lib\n\nvar Test = \"" + v + "\"\n"
	case "w_windows.go":
		s = "package main\n\nfunc init() { extra = \"windows" + v + "\" }\n"
	case "unused/u.go":
		s = "package unused\n\nconst V = \"" + v + "\"\n"
	case "nest/n.go":
		s = "package nest\n\nconst V = \"" + v + "\"\n"
	default:
		return v
	}
	if broken {
		s += "\nvar Broken int = \"text\"\n"
	}
	return s
}

// c20Model predicts what happens.
type c20Model struct {
	c       c20Case
	files   map[string]string // current text, in the module
	broken  map[string]bool
	link    bool // does not link
	flags   []int
	seen    []map[string]bool // recorded states of each binary
	genSeen map[string]bool
	genText string
}

func (m *c20Model) uses(i int) []string {
	r := []string{"lib/lib.go", "lib/sub/sub.go"}
	if i == 0 {
		r = append(r, "main.go", "e.txt")
	} else {
		r = append(r, "cmd/b/main.go")
	}
	opt := []string{"lib/asm.s", "lib/gen.go"}
	if i == 0 {
		opt = append(opt, "extra.go")
		if c20Tag(m.flags[i]) {
			opt = append(opt, "tag.go")
		} else {
			opt = append(opt, "nottag.go")
		}
	}
	for _, f := range opt {
		if _, ok := m.files[f]; ok {
			r = append(r, f)
		}
	}
	if m.link {
		r = append(r, "lib/nolink.go")
	}
	sort.Strings(r)
	return r
}

// ok tells whether the build succeeds.
func (m *c20Model) ok(i int) (loads, builds bool) {
	loads, builds = true, !m.link
	for _, f := range m.uses(i) {
		if m.broken[f] {
			builds = false
			if f == "main.go" && i == 0 {
				loads = false
			}
		}
	}
	return
}

func (m *c20Model) output(i int) string {
	v := func(f, pre string) string {
		if s, ok := m.files[f]; ok {
			return pre + s
		}
		return ""
	}
	lib := m.files["lib/lib.go"] + m.files["lib/sub/sub.go"] + v("lib/gen.go", "gen ")
	x := c20X(m.flags[i])
	if i == 1 {
		return "B" + m.files["cmd/b/main.go"] + " " + lib + " X=" + x + "\n"
	}
	tag := v("nottag.go", "n")
	if c20Tag(m.flags[i]) {
		tag = v("tag.go", "t")
	}
	return fmt.Sprintf("%s %s extra=%s tag=%s emb=%s X=%s\n", m.files["main.go"], lib, v("extra.go", ""), tag, m.files["e.txt"], x)
}

// key identifies the state that decides whether there is something to do.
func (m *c20Model) key(i int, out string) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%q\n", c20Flags[m.flags[i]])
	for _, f := range m.uses(i) {
		fmt.Fprintf(&sb, "%s %q %v\n", f, m.files[f], m.broken[f])
	}
	content, err := os.ReadFile(out)
	if err != nil {
		return sb.String() + "no output"
	}
	return sb.String() + string(content)
}

func c20Run(e *pbt.Env, c c20Case) {
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	e.Must(err)
	e.Cleanup(func() { null.Close() })
	os.Stdout, os.Stderr = null, null

	var (
		top  = filepath.Join(e.Dir, c.Top)
		base = filepath.Join(top, c.Sub)
		mod  = filepath.Join(base, c.Mod)
		log  = filepath.Join(e.Dir, "builds")
		uniq = filepath.Base(filepath.Dir(e.Dir)) + filepath.Base(e.Dir) // relative names are registered for the whole process
	)
	real, err := exec.LookPath("go")
	e.Must(err)
	e.WriteFile("path/go", fmt.Sprintf("#!/bin/sh\nif [ \"$1\" = build ]; then s=; for x in \"$@\"; do s=\"$s$x\t\"; done; printf '%%s\\n' \"$s\" >>%s; fi\nexec %s \"$@\"\n", shellQuote(log), shellQuote(real)))
	e.Must(os.Chmod(filepath.Join(e.Dir, "path/go"), 0o755))
	oldPath := os.Getenv("PATH")
	os.Setenv("PATH", filepath.Join(e.Dir, "path")+":"+oldPath)
	e.Cleanup(func() { os.Setenv("PATH", oldPath) })

	if c.Link {
		// The module is somewhere else.
		mod = filepath.Join(e.Dir, "far/away/module")
		l := filepath.Join(base, c.Mod)
		if c.Mod == "" {
			c.Link = false
			mod = base
		} else {
			e.Must(os.MkdirAll(filepath.Dir(l), 0o755))
			e.Must(os.MkdirAll(mod, 0o755))
			e.Must(os.Symlink(mod, l))
		}
	}
	m := &c20Model{c: c, files: map[string]string{}, broken: map[string]bool{}, genSeen: map[string]bool{}, genText: "a"}
	write := func(f string) {
		e.WriteFile(filepath.Join(mod, f), c20Source(f, m.files[f], m.broken[f]))
	}
	e.Must(os.MkdirAll(filepath.Join(base, "bin"), 0o755))
	e.WriteFile(filepath.Join(mod, "go.mod"), "module example.com/m\n\ngo 1.21\n")
	e.WriteFile(filepath.Join(mod, "nest/go.mod"), "module example.com/m/nest\n\ngo 1.21\n")
	for _, f := range append([]string{"main.go", "cmd/b/main.go", "lib/lib.go", "lib/sub/sub.go", "e.txt", "w_windows.go", "unused/u.go", "README.md"}, c.Extra...) {
		m.files[f] = "a"
		write(f)
	}
	if c.Gen {
		e.WriteFile(filepath.Join(mod, "gen.txt"), "a")
	}
	e.Must(os.Chdir(base))

	var outs []string
	for i, b := range c.Bins {
		m.flags = append(m.flags, b.Flag)
		m.seen = append(m.seen, map[string]bool{})
		out := b.Out
		if out == "" {
			// The documentation: the last element of the directory.
			out = filepath.Base(filepath.Join(base, b.Dir))
			if b.Dir == "" && c.Mode == "go" {
				c.Bins[i].Dir = "."
			}
			if _, err := os.Stat(filepath.Join(base, out)); err == nil {
				// A directory is there (the package itself).
				out = "o" + fmt.Sprint(i)
				c.Bins[i].Out = out
			}
		}
		if c.Mode == "go" && c.Form != "abs" && c.Bins[i].Out != "" {
			out = uniq + filepath.Base(out)
			c.Bins[i].Out = out
		}
		outs = append(outs, filepath.Join(base, out))
	}

	dbfile := filepath.Join(e.Dir, "fabdir", "hash.db")
	e.Must(os.MkdirAll(filepath.Dir(dbfile), 0o755))
	doc := func() string {
		y := ymap("")
		all := yseq("All")
		if c.Wrap == "seq" {
			all = yseq("Seq")
		}
		for i, b := range c.Bins {
			d := b.Dir
			if d == "" {
				d = "."
			}
			n := ymap("go.Binary", "Dir", ystr(d))
			if b.Out != "" {
				n.add("Out", ystr(b.Out))
			}
			if fl := c20Flags[m.flags[i]]; fl != nil {
				f := yseq("")
				for _, s := range fl {
					f.Seq = append(f.Seq, ystr(s))
				}
				n.add("Flags", f)
			}
			name := fmt.Sprintf("B%d", i)
			y.add(name, n)
			all.Seq = append(all.Seq, ystr("./"+name))
		}
		y.add("T", all)
		y.add("Clean", ymap("Clean", "Autoclean", yraw("true")))
		if c.Gen {
			g := ymap("Command", "Shell", ystr("(printf 'package lib\\n\\nfunc init() { G = \"gen '; cat gen.txt; printf '\" }\\n') >lib/gen.go"), "Dir", ystr(filepath.Join(".", c.Mod)))
			y.add("Gen", ymap("Files", "In", yseq("", ystr(filepath.Join(c.Mod, "gen.txt"))), "Out", yseq("", ystr(filepath.Join(c.Mod, "lib/gen.go"))), "Target", g))
		}
		s := y.text()
		if c.Sub != "" {
			s = "_dir: " + c.Sub + "\n" + s
		}
		return s
	}
	run := func(target string) error {
		if c.Mode == "cli" {
			e.WriteFile(filepath.Join(base, "fab.yaml"), doc())
			if c.Sub != "" {
				e.WriteFile(filepath.Join(top, "fab.yaml"), fmt.Sprintf("T: !Seq [%s/T]\nClean: !Seq [%s/Clean]\n", c.Sub, c.Sub))
			}
			cmd := exec.Command(pbt.FabBin(), "-fab", filepath.Dir(dbfile), target)
			cmd.Dir = base
			out, err := cmd.CombinedOutput()
			var x *exec.ExitError
			if err != nil && !errors.As(err, &x) {
				e.Infra("%s: %s", err, out)
			}
			if strings.Contains(string(out), "panic: ") {
				e.Fatalf("fab crashed: %s", out)
			}
			if err != nil {
				err = fmt.Errorf("%w: %s\n%s", err, out, doc())
			}
			return err
		}
		db, err := sqlite.Open(dbfile)
		e.Must(err)
		defer db.Close()
		ctx := fab.WithHashDB(context.Background(), db)
		con := fab.NewController("")
		var ts []fab.Target
		for i, b := range c.Bins {
			dir, out := b.Dir, b.Out
			if c.Form != "rel" {
				dir = filepath.Join(base, dir)
			}
			if c.Form == "abs" && out != "" {
				out = filepath.Join(base, out)
			}
			if dir == "" {
				dir = "."
			}
			t, err := golang.Binary(dir, out, c20Flags[m.flags[i]]...)
			if err != nil {
				return err
			}
			ts = append(ts, t)
		}
		if c.Wrap == "seq" {
			return con.Run(ctx, fab.Seq(ts...))
		}
		return con.Run(ctx, fab.All(ts...))
	}

	var (
		builds, skips int
		saved         = map[int][]byte{}
		trace         []string
	)
	for _, op := range c.Ops {
		trace = append(trace, strings.TrimSpace(fmt.Sprintf("%s %s %s", op.Op, op.File, op.Text)))
		switch op.Op {
		case "edit":
			if op.File == "gen.txt" {
				m.genText = op.Text
				e.WriteFile(filepath.Join(mod, "gen.txt"), op.Text)
				continue
			}
			m.files[op.File] = op.Text
			delete(m.broken, op.File)
			if op.File == "main.go" && m.link {
				m.link = false
				os.Remove(filepath.Join(mod, "lib/nolink.go"))
			}
			write(op.File)
		case "del":
			delete(m.files, op.File)
			delete(m.broken, op.File)
			os.Remove(filepath.Join(mod, op.File))
		case "break":
			if op.File == "link" {
				m.link = true
				e.WriteFile(filepath.Join(mod, "lib/nolink.go"), "package lib\n\nimport _ \"unsafe\"\n\n//go:linkname nothere example.com/nowhere.nothere\nfunc nothere()\n\nfunc init() { nothere() }\n")
				e.WriteFile(filepath.Join(mod, "lib/asm.s"), c20Source("lib/asm.s", "a", false))
				m.files["lib/asm.s"] = "a"
				continue
			}
			m.broken[op.File] = true
			write(op.File)
		case "out":
			os.Remove(outs[op.Bin]) // it is possibly still busy
			e.WriteFile(outs[op.Bin], "#!/bin/sh\n")
		case "delout":
			os.Remove(outs[op.Bin])
		case "restore":
			if b, ok := saved[op.Bin]; ok {
				os.Remove(outs[op.Bin])
				e.Must(os.WriteFile(outs[op.Bin], b, 0o755))
			}
		case "flags":
			fmt.Sscan(op.Text, &m.flags[op.Bin])
		case "clean":
			loads := true
			for i := range c.Bins {
				l, _ := m.ok(i)
				loads = loads && l
			}
			before := snapshot(base, false, "fab.yaml")
			err := run("Clean")
			if (err == nil) != loads {
				e.Fatalf("%s\nClean: %v", strings.Join(trace, "\n"), err)
			}
			if loads {
				for _, o := range outs {
					rel, _ := filepath.Rel(base, o)
					delete(before, rel)
				}
			}
			if d := diffMaps(before, snapshot(base, false, "fab.yaml")); d != "" {
				e.Fatalf("%s\nClean with Autoclean:\n%s", strings.Join(trace, "\n"), d)
			}
			e.LabelIf(loads, "autocleaned")
		case "run":
			os.Remove(log)
			// The prediction.
			loads := true
			for i := range c.Bins {
				l, _ := m.ok(i)
				loads = loads && l
			}
			var (
				wantBuilds []string
				fails      = !loads
				maybe      = map[string]bool{} // may or may not be attempted, when another one fails
			)
			if loads {
				if c.Gen {
					// Files of both binaries depend on the generated file.
					k := m.genText + "\x00" + m.files["lib/gen.go"]
					if !m.genSeen[k] {
						m.files["lib/gen.go"] = m.genText
						m.genSeen[m.genText+"\x00"+m.genText] = true
					}
				}
				for i := range c.Bins {
					if m.seen[i][m.key(i, outs[i])] {
						continue
					}
					if fails && c.Wrap == "seq" {
						break
					}
					wantBuilds = append(wantBuilds, outs[i])
					if _, b := m.ok(i); !b {
						fails = true
					}
				}
				if fails && c.Wrap == "all" {
					for _, o := range wantBuilds {
						maybe[o] = true
					}
				}
			}
			var before []string
			for _, o := range outs {
				s, _ := os.ReadFile(o)
				before = append(before, string(s))
			}
			err := run("T")
			if (err != nil) != fails {
				e.Fatalf("%s\nresult: %v\nwant failure: %v", strings.Join(trace, "\n"), err, fails)
			}
			got := map[string]int{}
			logged, _ := os.ReadFile(log)
			for _, l := range strings.Split(strings.TrimSuffix(string(logged), "\n"), "\n") {
				if l == "" {
					continue
				}
				var o, chdir string
				args := strings.Split(l, "\t")
				for k := range args {
					if args[k] == "-o" {
						o = args[k+1]
					}
					if args[k] == "-C" {
						chdir = args[k+1]
					}
				}
				if !filepath.IsAbs(o) {
					// Relative to the directory in which the go command runs.
					d := chdir
					if !filepath.IsAbs(d) {
						d = filepath.Join(base, d)
					}
					if r, err := filepath.EvalSymlinks(d); err == nil {
						d = r
					}
					o = filepath.Join(d, o)
				}
				got[filepath.Clean(o)]++
			}
			for _, o := range wantBuilds {
				if got[o] != 1 && !maybe[o] {
					e.Fatalf("%s\n%s was built %d times, want once\nlog: %q", strings.Join(trace, "\n"), o, got[o], logged)
				}
				delete(got, o)
			}
			for o, k := range got {
				e.Fatalf("%s\n%s was built %d times, want none\nlog: %q", strings.Join(trace, "\n"), o, k, logged)
			}
			builds += len(wantBuilds)
			skips += len(c.Bins) - len(wantBuilds)
			for i, o := range outs {
				_, b := m.ok(i)
				built := false
				for _, w := range wantBuilds {
					built = built || w == o
				}
				if fails && (!b || !built || maybe[o]) {
					if maybe[o] && b && loads {
						// It may have been completed and recorded.
						now, _ := os.ReadFile(o)
						if string(now) != before[i] {
							m.seen[i][m.key(i, o)] = true
						} else if m.seen[i][m.key(i, o)] {
							continue
						} else {
							// It is not known whether it was recorded: make the state a new one.
							os.Remove(o)
							e.WriteFile(o, fmt.Sprintf("unknown %d", len(trace)))
						}
					}
					e.Label("failing build")
					continue
				}
				cmd := exec.Command(o)
				var stderr strings.Builder
				cmd.Stderr = &stderr
				if err := cmd.Run(); err != nil {
					e.Fatalf("%s\nrunning %s: %v", strings.Join(trace, "\n"), o, err)
				}
				if want := m.output(i); stderr.String() != want {
					e.Fatalf("%s\n%s printed %q, want %q", strings.Join(trace, "\n"), o, stderr.String(), want)
				}
				m.seen[i][m.key(i, o)] = true
				data, err := os.ReadFile(o)
				e.Must(err)
				saved[i] = data
			}
		}
	}
	e.Label("%s", c.Mode)
	e.LabelIf(c.Gen, "generated source")
	e.LabelIf(c.Link, "symbolic link")
	e.LabelIf(skips > 0, "nothing to do")
	if builds > 1 && skips > 0 {
		e.NonTrivial()
	}
}

func init() {
	pbt.Register(&pbt.Prop{
		ID: "C20",
		Subs: []*pbt.Sub{
			pbt.NewSub("history", "histories of edits, deletions, errors, changes of flags and of the output, and builds of one or two binaries of a module, from Go and YAML; non-trivial: there are at least two builds and a run with nothing to do", 64, 3000, c20Gen, c20Run),
		},
		Assumptions: []string{
			"The go command is right. A wrapper in PATH counts its builds.",
			"Changes to go.mod, the toolchain, the environment and other modules are outside the property: go.Deps does not list them.",
		},
	})
}
