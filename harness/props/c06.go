package props

import (
	"bytes"
	"context"
	"database/sql"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"github.com/bobg/fab"
	"github.com/bobg/fab/golang"
	"github.com/bobg/fab/proto"
	"github.com/bobg/fab/sqlite"
	"github.com/bobg/fab/ts"
	"pgregory.net/rapid"

	"verif/pbt"
)

// C06: dry runs.

type c06Op struct {
	Op      string // real, edit, del
	File    string
	Text    string
	Force   bool
	Verbose bool
}

type c06Case struct {
	Root    *c04Node
	Init    map[string]string
	History []c06Op
	Force   bool // in the dry run
	Verbose bool
	Twice   bool
	After   []c06Op // ends in a real run
	YAML    bool
	Style   int
}

// c06Project makes a rule tree over files of a project.
// Every command appends to the log.
func c06Project(t *rapid.T) (*c04Node, map[string]string, []string) {
	var (
		id    int
		srcs  []string
		outs  []string
		init  = map[string]string{}
		all   = !chance(t, 30, "sequential")
		text  = func() string { return pick(t, "text", "a", "b", "") }
		leaf  func() *c04Node
		files []string
	)
	for i := drawInt(t, 0, 3, "sources"); i >= 0; i-- {
		s := fmt.Sprintf("s%d", i)
		if chance(t, 30, "sub") {
			s = "w/" + s
		}
		init[s] = text()
		srcs = append(srcs, s)
	}
	cmd := func() *c04Node {
		id++
		nd := &c04Node{Kind: "shell", Dir: ".", S: fmt.Sprintf("echo %d >>log", id)}
		switch drawInt(t, 0, 5, "cmd") {
		case 0:
			nd.S += "; echo out"
			nd.Stdout = pick(t, "stdout", "", ">>", ">> ") + pick(t, "stdoutDir", "", "", "", "absent/") + fmt.Sprintf("stdout%d", id)
		case 1:
			nd.S += "; echo err >&2"
			nd.Stderr = pick(t, "stderr", "", ">>") + pick(t, "stderrDir", "", "", "", "absent/") + fmt.Sprintf("stderr%d", id)
		case 2:
			nd.Stdin = srcs[uniform(t, len(srcs), "stdin")]
			nd.S += fmt.Sprintf("; cat >copy%d", id)
		case 3:
			nd.S += fmt.Sprintf("; rm -f victim%d; touch created%d", id, id)
			init[fmt.Sprintf("victim%d", id)] = "v"
		case 4:
			nd.Kind, nd.S, nd.Args = "cmd", "sh", []string{"-c", nd.S + "; echo args $0 $X >>log2", "x"}
			nd.Env = []string{"X=1"}
		}
		return nd
	}
	rule := func() *c04Node {
		id++
		nd := &c04Node{Kind: "files", Auto: drawBool(t, "auto")}
		for k := drawInt(t, 0, 2, "ins"); k >= 0; k-- {
			if len(outs) > 0 && drawBool(t, "chained") {
				nd.Args = append(nd.Args, outs[uniform(t, len(outs), "from")])
			} else {
				nd.Args = append(nd.Args, srcs[uniform(t, len(srcs), "src")])
			}
		}
		nd.Env = []string{fmt.Sprintf("out%d", id)}
		if drawBool(t, "two") {
			nd.Env = append(nd.Env, fmt.Sprintf("w/out%d", id))
		}
		if chance(t, 30, "newdir") {
			nd.Env = append(nd.Env, fmt.Sprintf("new%d/d/out%d", id, id))
		}
		k := &c04Node{Kind: "shell", Dir: ".", S: fmt.Sprintf("echo %d >>log", id)}
		for _, o := range nd.Env {
			if d := filepath.Dir(o); d != "." {
				k.S += "; mkdir -p " + d
			}
			k.S += fmt.Sprintf("; cat %s 2>/dev/null >%s; echo from %d >>%s", strings.Join(nd.Args, " "), o, id, o)
		}
		nd.Kids = []*c04Node{k}
		outs = append(outs, nd.Env...)
		files = append(files, nd.Env...)
		return nd
	}
	leaf = func() *c04Node {
		switch x := drawInt(t, 0, 99, "leaf"); {
		case x < 40:
			return rule()
		case x < 65:
			id++
			nd := &c04Node{Kind: "clean"}
			for k := drawInt(t, 0, 3, "files"); k >= 0; k-- {
				f := fmt.Sprintf("junk%d_%d", id, k)
				if !all && len(outs) > 0 && drawBool(t, "out") {
					f = outs[uniform(t, len(outs), "which")]
				} else if drawBool(t, "exists") {
					init[f] = "junk"
				}
				nd.Args = append(nd.Args, f)
			}
			nd.Auto = !all && drawBool(t, "auto")
			return nd
		default:
			return cmd()
		}
	}
	var gen func(depth int) *c04Node
	gen = func(depth int) *c04Node {
		x := drawInt(t, 0, 99, "node")
		if depth == 0 || x < 25 {
			return leaf()
		}
		nd := &c04Node{Kind: "seq"}
		lo, hi := 0, 4
		switch {
		case x < 45 && all:
			nd.Kind = "all"
		case x < 60 && all:
			nd.Kind, lo = "deps", 1
		case x < 70:
			nd.Kind, lo, hi = "arg", 1, 1
			nd.Args = []string{"x"}
		}
		for k := drawInt(t, lo, hi, "kids"); k > 0; k-- {
			nd.Kids = append(nd.Kids, gen(depth-1))
		}
		return nd
	}
	root := gen(3)
	for f := range init {
		files = append(files, f)
	}
	sort.Strings(files)
	return root, init, files
}

func c06Ops(t *rapid.T, files []string, max int) []c06Op {
	var ops []c06Op
	for k := drawInt(t, 0, max, "ops"); k > 0; k-- {
		f := files[uniform(t, len(files), "file")]
		switch drawInt(t, 0, 3, "op") {
		case 0, 1:
			ops = append(ops, c06Op{Op: "real", Force: chance(t, 15, "force")})
		case 2:
			ops = append(ops, c06Op{Op: "edit", File: f, Text: pick(t, "text", "a", "b", "")})
		default:
			ops = append(ops, c06Op{Op: "del", File: f})
		}
	}
	return ops
}

func c06Gen(t *rapid.T) c06Case {
	root, init, files := c06Project(t)
	return c06Case{
		Root: root, Init: init,
		History: c06Ops(t, files, 4),
		Force:   chance(t, 20, "force"),
		Verbose: chance(t, 40, "verbose"),
		Twice:   chance(t, 10, "twice"),
		After:   append(c06Ops(t, files, 2), c06Op{Op: "real"}),
		YAML:    drawBool(t, "yaml"),
		Style:   drawInt(t, 0, 1000, "style"),
	}
}

func dbRows(e *pbt.Env, file string) []string {
	if _, err := os.Stat(file); err != nil {
		return nil
	}
	db, err := sql.Open("sqlite3", file)
	e.Must(err)
	defer db.Close()
	rows, err := db.Query("SELECT hex(hash) FROM hashes ORDER BY 1")
	e.Must(err)
	defer rows.Close()
	var r []string
	for rows.Next() {
		var s string
		e.Must(rows.Scan(&s))
		r = append(r, s)
	}
	e.Must(rows.Err())
	return r
}

// c06Play performs the case in one copy of the project, with or without the dry run,
// and tells the outcome.
func c06Play(e *pbt.Env, c c06Case, name string, dry bool, run func(dir, db string, dry, force, verbose bool) error) map[string]string {
	var (
		dir = filepath.Join(e.Dir, name, "p")
		db  = filepath.Join(e.Dir, name+"db", "hash.db")
		res = map[string]string{}
	)
	e.Must(os.MkdirAll(filepath.Dir(db), 0o755))
	e.Must(os.MkdirAll(filepath.Join(dir, "w"), 0o755))
	for f, v := range c.Init {
		e.WriteFile(filepath.Join(dir, f), v)
	}
	n := 0
	play := func(ops []c06Op) {
		for _, op := range ops {
			p := filepath.Join(dir, op.File)
			switch op.Op {
			case "real":
				err := run(dir, db, false, op.Force, op.Verbose)
				res[fmt.Sprintf("run %d", n)] = fmt.Sprint(err != nil)
				log, _ := os.ReadFile(filepath.Join(dir, "log"))
				lines := strings.Split(string(log), "\n")
				sort.Strings(lines)
				res[fmt.Sprintf("log %d", n)] = strings.Join(lines, " ")
				os.Remove(filepath.Join(dir, "log"))
				n++
			case "edit":
				e.WriteFile(p, op.Text)
			case "del":
				os.Remove(p)
			}
		}
	}
	play(c.History)
	if dry {
		for i := 0; i < 1 || i < 2 && c.Twice; i++ {
			rows := dbRows(e, db)
			before := snapshot(filepath.Dir(dir), true)
			err := run(dir, db, true, c.Force, c.Verbose)
			if d := diffMaps(before, snapshot(filepath.Dir(dir), true)); d != "" {
				e.Fatalf("the dry run changed files:\n%s", d)
			}
			if after := dbRows(e, db); !equalStrings(rows, after) {
				e.Fatalf("the dry run changed the recorded states from %v to %v", rows, after)
			}
			e.LabelIf(err != nil, "dry run with error")
		}
	}
	play(c.After)
	for f, s := range snapshot(dir, false) {
		res["file "+f] = s
	}
	return res
}

func c06Exec(e *pbt.Env, c c06Case, run func(dir, db string, dry, force, verbose bool) error) {
	a := c06Play(e, c, "a", true, run)
	b := c06Play(e, c, "b", false, run)
	if d := diffMaps(b, a); d != "" {
		e.Fatalf("what happens after the dry run differs from what would have happened without:\n%s", d)
	}
	nodes := c04State{Root: c.Root}.nodes()
	for _, nd := range nodes {
		e.Label("has %s", nd.Kind)
	}
	e.LabelIf(c.Verbose, "verbose")
	e.LabelIf(c.YAML, "YAML")
	e.LabelIf(len(c.History) > 0, "after other operations")
	if len(a) > 0 {
		for k, v := range a {
			if strings.HasPrefix(k, "log") && v != "" {
				e.NonTrivial()
			}
		}
	}
}

func (c c06Case) yaml() string {
	doc := ymap("")
	root := c.Root.yaml(doc)
	doc.add("T", root)
	doc.styleBy(c.Style)
	return doc.text()
}

func c06Run(e *pbt.Env, c c06Case) {
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	e.Must(err)
	e.Cleanup(func() { null.Close() })
	os.Stdout, os.Stderr = null, null
	c06Exec(e, c, func(dir, dbfile string, dry, force, verbose bool) error {
		db, err := sqlite.Open(dbfile)
		e.Must(err)
		defer db.Close()
		ctx := fab.WithHashDB(context.Background(), db)
		ctx = fab.WithDryRun(ctx, dry)
		ctx = fab.WithForce(ctx, force)
		ctx = fab.WithVerbose(ctx, verbose)
		con := fab.NewController(dir)
		if !c.YAML {
			return con.Run(ctx, c.Root.goTarget(con))
		}
		if err := con.ReadYAML(strings.NewReader(c.yaml()), ""); err != nil {
			e.Fatalf("ReadYAML: %s\n%s", err, c.yaml())
		}
		t, _ := con.RegistryTarget("T")
		return con.Run(ctx, t)
	})
}

func c06CLI(e *pbt.Env, c c06Case) {
	c.Init["fab.yaml"] = c.yaml()
	c06Exec(e, c, func(dir, db string, dry, force, verbose bool) error {
		return c06Fab(e, dir, filepath.Dir(db), dry, force, verbose)
	})
}

func c06Fab(e *pbt.Env, dir, fabdir string, dry, force, verbose bool, in ...*os.File) error {
	args := []string{"-fab", fabdir}
	if dry {
		args = append(args, "-n")
	}
	if force {
		args = append(args, "-f")
	}
	if verbose {
		args = append(args, "-v")
	}
	cmd := exec.Command(pbt.FabBin(), append(args, "T")...)
	cmd.Dir = dir
	for _, f := range in {
		cmd.Stdin = f
	}
	out, err := cmd.CombinedOutput()
	var x *exec.ExitError
	if err != nil && !errors.As(err, &x) {
		e.Infra("%s: %s", err, out)
	}
	if bytes.Contains(out, []byte("panic: ")) {
		e.Fatalf("fab crashed: %s", out)
	}
	return err
}

// Language targets.

type c06LangCase struct {
	Kind    string // binary, proto, decls
	YAML    bool
	Prior   bool // a real run first
	Edit    string
	OutGone bool
	Force   bool
	Verbose bool
	Wrap    string
}

func c06LangGen(t *rapid.T) c06LangCase {
	return c06LangCase{
		Kind: pick(t, "kind", "binary", "proto", "decls"), YAML: drawBool(t, "yaml"), Prior: drawBool(t, "prior"),
		Edit: pick(t, "edit", "", "source", "bad"), OutGone: chance(t, 30, "gone"), Force: chance(t, 30, "force"), Verbose: drawBool(t, "verbose"),
		Wrap: pick(t, "wrap", "", "all", "seq", "arg"),
	}
}

func c06LangRun(e *pbt.Env, c c06LangCase) {
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	e.Must(err)
	e.Cleanup(func() { null.Close() })
	os.Stdout, os.Stderr = null, null
	cc := c06Case{Root: &c04Node{Kind: c.Kind}, Verbose: c.Verbose, Force: c.Force, YAML: c.YAML, Init: map[string]string{
		"m/go.mod":   "module m\n\ngo 1.20\n",
		"m/main.go":  "package main\n\nfunc main() { println(\"hello\") }\n\ntype S struct{}\n\nfunc (S) M(string) int { return 0 }\n",
		"pb/a.proto": "syntax = \"proto3\";\nimport \"b.proto\";\nmessage A { B b = 1; }\n",
		"pb/b.proto": "syntax = \"proto3\";\nmessage B {}\n",
	}}
	if c.Prior {
		cc.History = append(cc.History, c06Op{Op: "real"})
	}
	src := map[string]string{"binary": "m/main.go", "decls": "m/main.go", "proto": "pb/b.proto"}[c.Kind]
	switch c.Edit {
	case "source":
		cc.History = append(cc.History, c06Op{Op: "edit", File: src, Text: cc.Init[src] + "// changed\n"})
	case "bad":
		cc.History = append(cc.History, c06Op{Op: "edit", File: src, Text: cc.Init[src] + "\n}}} = ;\n"})
	}
	if c.OutGone {
		cc.History = append(cc.History, c06Op{Op: "del", File: "w/out"})
	}
	cc.After = []c06Op{{Op: "real"}}
	changed := false
	c06Exec(e, cc, func(dir, dbfile string, dry, force, verbose bool) error {
		db, err := sqlite.Open(dbfile)
		e.Must(err)
		defer db.Close()
		ctx := fab.WithHashDB(context.Background(), db)
		ctx = fab.WithDryRun(ctx, dry)
		ctx = fab.WithForce(ctx, force)
		ctx = fab.WithVerbose(ctx, verbose)
		con := fab.NewController(dir)
		var t fab.Target
		if c.YAML {
			doc := map[string]string{
				"binary": "T: !go.Binary {Dir: m, Out: w/out, Flags: [-trimpath]}\n",
				"decls":  "T: !ts.Decls {Dir: m, Type: S, Prefix: /s, Out: w/out}\n",
				"proto":  "T: !proto.Proto {Inputs: [pb/a.proto], Outputs: [w/out], Includes: [pb], Opts: ['--descriptor_set_out=" + filepath.Join(dir, "w/out") + "']}\n",
			}[c.Kind]
			if err := con.ReadYAML(strings.NewReader(doc), ""); err != nil {
				return err
			}
			t, _ = con.RegistryTarget("T")
		} else {
			out := filepath.Join(dir, "w/out")
			switch c.Kind {
			case "binary":
				t, err = golang.Binary(filepath.Join(dir, "m"), out, "-trimpath")
			case "decls":
				t, err = ts.Decls(filepath.Join(dir, "m"), "S", "/s", out)
			case "proto":
				t, err = proto.Proto([]string{filepath.Join(dir, "pb/a.proto")}, []string{out}, []string{filepath.Join(dir, "pb")}, []string{"--descriptor_set_out=" + out})
			}
			if err != nil {
				return err
			}
		}
		switch c.Wrap {
		case "all":
			t = fab.All(t, t)
		case "seq":
			t = fab.Seq(t, t)
		case "arg":
			t = fab.ArgTarget(t, "x")
		}
		before := snapshot(dir, true)
		err = con.Run(ctx, t)
		if !dry && diffMaps(before, snapshot(dir, true)) != "" {
			changed = true
		}
		return err
	})
	if changed {
		e.NonTrivial()
	}
}

func init() {
	pbt.Register(&pbt.Prop{
		ID: "C06",
		Subs: []*pbt.Sub{
			pbt.NewSub("tree", "rule trees of all the built-in types, from Go and YAML, with a dry run somewhere in a history of edits and builds, compared with the same history without the dry run; non-trivial: real builds execute commands", 1200, 60000, c06Gen, c06Run),
			pbt.NewSub("cli", "the same through fab -n in driverless mode; non-trivial as for tree", 300, 12000, c06Gen, c06CLI),
			pbt.NewSub("lang", "go.Binary, proto.Proto and ts.Decls, from Go and YAML; non-trivial: a real run changed files", 32, 1500, c06LangGen, c06LangRun),
		},
	})
}
