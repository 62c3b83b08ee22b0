package props

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"pgregory.net/rapid"

	"verif/pbt"
)

// C32: projects that share a fab directory.

type c32Op struct {
	Op    string // run, edit, del, copy
	Proj  int
	File  string
	Text  string
	Force bool
	Cwd   string
	Both  bool // both projects at the same time
}

type c32Case struct {
	Roots [2]*c04Node
	Init  [2]map[string]string
	Ops   []c32Op
	Where [2]string // directories of the projects
}

func c32Gen(t *rapid.T) c32Case {
	var (
		c     c32Case
		files [2][]string
	)
	c.Roots[0], c.Init[0], files[0] = c06Project(t)
	if chance(t, 70, "same rules") {
		c.Roots[1], files[1] = c.Roots[0], files[0]
		c.Init[1] = map[string]string{}
		for k, v := range c.Init[0] {
			if chance(t, 15, "different") {
				v = pick(t, "text", "a", "b", "")
			}
			c.Init[1][k] = v
		}
	} else {
		c.Roots[1], c.Init[1], files[1] = c06Project(t)
	}
	c.Where = pick(t, "where", [2]string{"p", "q"}, [2]string{"p", "q"}, [2]string{"p", "x/p"}, [2]string{"p", "pp"}, [2]string{"a b", "a  b"})
	for i := drawInt(t, 3, 9, "ops"); i > 0; i-- {
		p := drawInt(t, 0, 1, "project")
		switch x := drawInt(t, 0, 99, "op"); {
		case x < 55:
			c.Ops = append(c.Ops, c32Op{Op: "run", Proj: p, Force: chance(t, 8, "force"), Cwd: pick(t, "cwd", ".", ".", "w"), Both: chance(t, 25, "both")})
		case x < 72:
			c.Ops = append(c.Ops, c32Op{Op: "edit", Proj: p, File: files[p][uniform(t, len(files[p]), "file")], Text: pick(t, "text", "a", "b", "")})
		case x < 85:
			c.Ops = append(c.Ops, c32Op{Op: "del", Proj: p, File: files[p][uniform(t, len(files[p]), "file")]})
		default:
			// One project's files become those of the other.
			c.Ops = append(c.Ops, c32Op{Op: "copy", Proj: p})
		}
	}
	return c
}

func c32Play(e *pbt.Env, c c32Case, name string, shared bool) map[string]string {
	var (
		dirs [2]string
		res  = map[string]string{}
		n    = 0
	)
	for p := range dirs {
		dirs[p] = filepath.Join(e.Dir, name, c.Where[p])
		e.Must(os.MkdirAll(filepath.Join(dirs[p], "w"), 0o755))
		for f, v := range c.Init[p] {
			e.WriteFile(filepath.Join(dirs[p], f), v)
		}
		e.WriteFile(filepath.Join(dirs[p], "fab.yaml"), c06Case{Root: c.Roots[p], Style: p}.yaml())
	}
	fabdir := func(p int) string {
		if shared {
			p = 0
		}
		return filepath.Join(e.Dir, name+"fab", fmt.Sprint(p))
	}
	command := func(op c32Op, p int) *exec.Cmd {
		args := []string{"-fab", fabdir(p)}
		if op.Force {
			args = append(args, "-f")
		}
		cmd := exec.Command(pbt.FabBin(), append(args, "T")...)
		cmd.Dir = dirs[p]
		if shared {
			cmd.Dir = filepath.Join(dirs[p], op.Cwd)
		}
		var out bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &out
		return cmd
	}
	note := func(p int, cmd *exec.Cmd, err error) {
		var x *exec.ExitError
		if err != nil && !errors.As(err, &x) {
			e.Infra("%s", err)
		}
		out := cmd.Stdout.(*bytes.Buffer).String()
		if strings.Contains(out, "panic: ") {
			e.Fatalf("fab crashed: %s", out)
		}
		what := "success"
		if err != nil {
			what = "failure"
			if strings.Contains(out, "locked") {
				what += out
			}
		}
		res[fmt.Sprintf("run %d of project %d", n, p)] = what
		log, _ := os.ReadFile(filepath.Join(dirs[p], "log"))
		os.Remove(filepath.Join(dirs[p], "log"))
		lines := strings.Fields(string(log))
		sort.Strings(lines)
		res[fmt.Sprintf("commands in run %d of project %d", n, p)] = strings.Join(lines, " ")
	}
	for _, op := range c.Ops {
		switch op.Op {
		case "run":
			n++
			if !op.Both {
				cmd := command(op, op.Proj)
				note(op.Proj, cmd, cmd.Run())
				break
			}
			var cmds [2]*exec.Cmd
			for p := range dirs {
				cmds[p] = command(op, p)
				e.Must(cmds[p].Start())
			}
			for p := range dirs {
				note(p, cmds[p], cmds[p].Wait())
			}
		case "edit":
			e.WriteFile(filepath.Join(dirs[op.Proj], op.File), op.Text)
		case "del":
			os.Remove(filepath.Join(dirs[op.Proj], op.File))
		case "copy":
			from, to := dirs[op.Proj], dirs[1-op.Proj]
			e.Must(os.RemoveAll(to))
			out, err := exec.Command("cp", "-a", from, to).CombinedOutput()
			if err != nil {
				e.Infra("cp: %s: %s", err, out)
			}
		}
	}
	for p, dir := range dirs {
		for f, s := range snapshot(dir, false) {
			res[fmt.Sprintf("file %s of project %d", f, p)] = s
		}
	}
	return res
}

func c32Run(e *pbt.Env, c c32Case) {
	shared := c32Play(e, c, "a", true)
	private := c32Play(e, c, "b", false)
	if d := diffMaps(private, shared); d != "" {
		e.Fatalf("with a shared fab directory, the effects differ from those with one for each project:\n%s", d)
	}
	var ran [2]bool
	for k, v := range shared {
		if v != "" && strings.HasPrefix(k, "commands") {
			ran[int(k[len(k)-1]-'0')] = true
		}
	}
	for _, op := range c.Ops {
		e.Label(op.Op)
		e.LabelIf(op.Both, "at the same time")
	}
	if ran[0] && ran[1] {
		e.NonTrivial()
	}
}

// The same with drivers.

type c32DriverOp struct {
	Proj int
	Text int // the program is changed first
	Both bool
	Fab2 bool
}

type c32DriverCase struct {
	Modules []string
	Texts   []int
	Ops     []c32DriverOp
}

func c32DriverGen(t *rapid.T) c32DriverCase {
	var c c32DriverCase
	ops := 0
	if chance(t, 45, "same") {
		c.Modules = []string{"q", "q"}
		c.Texts = pick(t, "texts", []int{0, 1}, []int{0, 1}, []int{0, 0})
		ops = drawInt(t, 3, 6, "ops")
	} else {
		// Paths that are different, and similar.
		c.Modules = []string{pick(t, "module", "q", "example.com/x", "example.com/q/r", "x.y-z")}
		for i := drawInt(t, 1, 3, "others"); i > 0; i-- {
			m := c.Modules[drawInt(t, 0, len(c.Modules)-1, "like")]
			m = pick(t, "how", strings.ToUpper(m), strings.ToUpper(m), strings.ToUpper(m), m+"/v2", m+"/"+m, m+"x", "x"+m, filepath.Base(m), "other.example/"+filepath.Base(m), strings.ReplaceAll(m, "/", "-"), strings.ReplaceAll(m, "/", "."), strings.ReplaceAll(m, ".", "_"), strings.ToUpper(m[:1])+m[1:])
			known := false
			for _, x := range c.Modules {
				known = known || m == x
			}
			if !known {
				c.Modules = append(c.Modules, m)
			}
		}
		if len(c.Modules) == 1 {
			c.Modules = append(c.Modules, strings.ToUpper(c.Modules[0]))
		}
		for range c.Modules {
			c.Texts = append(c.Texts, drawInt(t, 0, 1, "text"))
		}
		// Every project is used, and used again, and then some are.
		for i := range append(c.Modules, c.Modules...) {
			c.Ops = append(c.Ops, c32DriverOp{Proj: i % len(c.Modules), Text: -1})
		}
		ops = drawInt(t, 0, 4, "ops")
	}
	for i := ops; i > 0; i-- {
		op := c32DriverOp{Proj: drawInt(t, 0, len(c.Modules)-1, "project"), Text: -1, Fab2: chance(t, 8, "fab2")}
		if chance(t, 20, "edit") {
			op.Text = drawInt(t, 0, 2, "text")
		}
		// With the same package path, one driver replaces the other.
		op.Both = c.Modules[0] != c.Modules[1] && chance(t, 50, "both")
		c.Ops = append(c.Ops, op)
	}
	return c
}

var c32Word = regexp.MustCompile(`(?m)^word\d .*$`)

func c32DriverRun(e *pbt.Env, c c32DriverCase) {
	dirs := make([]string, len(c.Modules))
	texts := append([]int{}, c.Texts...)
	write := func(p int) {
		e.WriteFile(filepath.Join(dirs[p], "_fab/p.go"), fmt.Sprintf("package rules\n\nimport (\n\t\"context\"\n\t\"fmt\"\n\t\"os\"\n\n\t\"github.com/bobg/fab\"\n)\n\nvar T = fab.F(func(context.Context, *fab.Controller) error {\n\tdir, err := os.Getwd()\n\tfmt.Println(\"word%d\", dir)\n\treturn err\n})\n", texts[p]))
	}
	for p := range dirs {
		dirs[p] = filepath.Join(e.Dir, fmt.Sprintf("p%d", p))
		driverModule(e, dirs[p])
		data, err := os.ReadFile(filepath.Join(dirs[p], "go.mod"))
		e.Must(err)
		e.WriteFile(filepath.Join(dirs[p], "go.mod"), strings.Replace(string(data), "module q\n", "module "+c.Modules[p]+"\n", 1))
		write(p)
	}
	real, err := exec.LookPath("go")
	e.Must(err)
	e.WriteFile("path/go", fmt.Sprintf("#!/bin/sh\nif [ \"$1\" = build ]; then echo build >>\"$C32LOG\"; fi\nexec %s \"$@\"\n", shellQuote(real)))
	e.Must(os.Chmod(filepath.Join(e.Dir, "path/go"), 0o755))
	changes := 0
	made := make([]string, len(c.Modules)) // the fab command and the text of the last successful run
	for i, op := range c.Ops {
		if op.Text >= 0 {
			texts[op.Proj] = op.Text
			write(op.Proj)
		}
		bin := pbt.FabBin()
		if op.Fab2 {
			bin = os.Getenv("VERIF_FAB2")
		}
		command := func(p int) (*exec.Cmd, *bytes.Buffer) {
			var out bytes.Buffer
			cmd := exec.Command(bin, "-fab", filepath.Join(e.Dir, "fab"), "T")
			cmd.Dir = dirs[p]
			cmd.Stdout, cmd.Stderr = &out, &out
			cmd.Env = append(os.Environ(), "PATH="+filepath.Join(e.Dir, "path")+":"+os.Getenv("PATH"), "C32LOG="+filepath.Join(e.Dir, fmt.Sprintf("log%d", p)))
			return cmd, &out
		}
		check := func(p int, out string, err error) {
			got := strings.Join(c32Word.FindAllString(out, -1), "; ")
			if want := fmt.Sprintf("word%d %s", texts[p], dirs[p]); err != nil || got != want {
				e.Fatalf("op %d (%+v): in project %d, fab T printed %q, want %q (%v)\n%s", i, op, p, got, want, err, out)
			}
			log := filepath.Join(e.Dir, fmt.Sprintf("log%d", p))
			data, _ := os.ReadFile(log)
			os.Remove(log)
			state := fmt.Sprint(texts[p], bin)
			if c.Modules[0] != c.Modules[1] && made[p] == state && len(data) > 0 {
				e.Fatalf("op %d (%+v): the driver of project %d was compiled, though nothing has changed there", i, op, p)
			}
			made[p] = state
		}
		if i > 0 && (op.Both || op.Proj != c.Ops[i-1].Proj) {
			changes++
		}
		if !op.Both {
			cmd, out := command(op.Proj)
			err := cmd.Run()
			check(op.Proj, out.String(), err)
			continue
		}
		e.Label("at the same time")
		p0, p1 := op.Proj, (op.Proj+1)%len(dirs)
		cmd0, out0 := command(p0)
		cmd1, out1 := command(p1)
		e.Must(cmd0.Start())
		e.Must(cmd1.Start())
		err0, err1 := cmd0.Wait(), cmd1.Wait()
		check(p0, out0.String(), err0)
		check(p1, out1.String(), err1)
	}
	e.LabelIf(c.Modules[0] == c.Modules[1], "same package path")
	if changes > 0 {
		e.NonTrivial()
	}
}

func init() {
	pbt.Register(&pbt.Prop{
		ID: "C32",
		Subs: []*pbt.Sub{
			pbt.NewSub("projects", "two projects, mostly with the same rules, and histories of edits, copies of all files from one to the other, and runs of fab in either or in both at the same time, from the top or a subdirectory; played with one fab directory for both and again with one for each; non-trivial: commands were executed in both", 250, 12000, c32Gen, c32Run),
			pbt.NewSub("drivers", "two projects with a _fab package each and the same package path, or two to four with different and similar ones, run and edited in turn (with different package paths also two at the same time) with one fab directory; non-trivial: runs in more than one", 16, 1500, c32DriverGen, c32DriverRun),
			pbt.NewSub("rules", "the Files rules of two projects in process, mostly the same, from Go and YAML, with targets that do not tell in which project they are; histories of edits, deletions, copies and runs, with one hash database for both and again with one for each; non-trivial: targets ran in both", 4000, 200000, c32LibGen, c32LibRun),
		},
		Assumptions: []string{"Projects whose _fab packages have the same package path are not run at the same time: there is one driver file for both."},
	})
}
