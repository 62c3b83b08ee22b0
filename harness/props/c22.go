package props

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/bobg/fab"
	"github.com/bobg/fab/golang"
	"github.com/bobg/fab/sqlite"
	"github.com/bobg/fab/ts"
	"github.com/bobg/tsdecls"
	"pgregory.net/rapid"

	"verif/pbt"
)

// C22: TypeScript declarations.

type c22Method struct {
	Recv   string // S, *S, R
	Name   string
	Params []string
	Result []string
}

type c22File struct {
	Pkg     string
	Fields  []string // of the type of this file; none if there is no type
	Methods []c22Method
	V       int // in a comment
	Broken  int // 0 no, 1 syntax, 2 types
}

// The kinds of file. All are read by the generator, but not all are in the package that is built.
var c22Names = []string{"svc.go", "a.go", "b_test.go", "c_windows.go", "d.go", "_e.go", "x_test.go"}

func (f c22File) text(name string) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "// V%d\n", f.V)
	if name == "d.go" {
		sb.WriteString("\n//go:build ignore\n")
	}
	fmt.Fprintf(&sb, "\npackage %s\n\n", f.Pkg)
	ctx := false
	for _, m := range f.Methods {
		for _, p := range m.Params {
			ctx = ctx || p == "context.Context"
		}
	}
	if ctx {
		sb.WriteString("import \"context\"\n\n")
	}
	if name == "svc.go" {
		sb.WriteString("type S struct {\n\tR\n}\n\ntype R struct{}\n\n")
	}
	if len(f.Fields) > 0 {
		fmt.Fprintf(&sb, "type %s struct {\n", c22Type(name))
		for i, t := range f.Fields {
			tag := ""
			if i == 1 {
				tag = " `json:\"second,omitempty\"`"
			}
			fmt.Fprintf(&sb, "\tF%d %s%s\n", i, t, tag)
		}
		sb.WriteString("}\n\n")
	}
	for _, m := range f.Methods {
		var ps []string
		for i, p := range m.Params {
			ps = append(ps, fmt.Sprintf("p%d %s", i, p))
		}
		var rs []string
		for i, r := range m.Result {
			rs = append(rs, fmt.Sprintf("r%d %s", i, r))
		}
		fmt.Fprintf(&sb, "func (%s) %s(%s) (%s) { return }\n", m.Recv, m.Name, strings.Join(ps, ", "), strings.Join(rs, ", "))
	}
	switch f.Broken {
	case 1:
		sb.WriteString("\nfunc {\n")
	case 2:
		sb.WriteString("\nvar _ int = \"x\"\n")
	}
	return sb.String()
}

// tweak changes f in such a way that sizes stay the same, probably those of the declarations too.
func (f *c22File) tweak(v int) bool {
	if len(f.Methods) == 0 || v%3 == 0 && len(f.Fields) > 0 {
		if len(f.Fields) == 0 {
			return false
		}
		f.Fields = append([]string(nil), f.Fields...)
		i := v / 3 % len(f.Fields)
		if n, ok := map[string]string{"int": "uint", "uint": "string", "string": "int", "*R": "*S", "*S": "*R"}[f.Fields[i]]; ok {
			f.Fields[i] = n
			return true
		}
		return false
	}
	f.Methods = append([]c22Method(nil), f.Methods...)
	m := &f.Methods[v/3%len(f.Methods)]
	n := len(m.Name) - 1
	m.Name = fmt.Sprintf("%s%d", m.Name[:n], (int(m.Name[n]-'0')+3)%10)
	return true
}

func c22Type(name string) string {
	return "T" + strings.Trim(strings.TrimSuffix(name, ".go"), "_")
}

func c22DrawFile(t *rapid.T, k int) c22File {
	name := c22Names[k]
	f := c22File{Pkg: "svc", V: drawInt(t, 0, 3, "v")}
	if name == "x_test.go" {
		f.Pkg = "svc_test"
		return f
	}
	if name == "d.go" && chance(t, 12, "other") {
		f.Pkg = "other"
		return f
	}
	typ := func() string {
		own := pick(t, "type", c22Type(name), c22Type(name), "R", "string", "int64", "bool", "float64")
		if own == c22Type(name) && len(f.Fields) == 0 {
			own = "R"
		}
		if chance(t, 4, "foreign") {
			own = c22Type(c22Names[uniform(t, 6, "whose")])
		}
		return pick(t, "form", "", "", "", "*", "[]", "[3]", "map[string]", "[]*") + own
	}
	if chance(t, 75, "type") {
		for i := drawInt(t, 1, 3, "fields"); i > 0; i-- {
			f.Fields = append(f.Fields, pick(t, "field", "int", "string", "[]byte", "bool", "map[string]int", "R", "*R", "[]R"))
		}
	}
	for i := drawInt(t, 0, 2, "methods"); i > 0; i-- {
		m := c22Method{Recv: pick(t, "recv", "S", "*S", "*S", "R"), Name: fmt.Sprintf("%s%s%d", pick(t, "name", "Do", "GetThing", "do"), c22Type(name), i)}
		switch drawInt(t, 0, 5, "params") {
		case 0:
		case 1:
			m.Params = []string{"context.Context"}
		case 2:
			m.Params = []string{"context.Context", typ()}
		case 3:
			m.Params = []string{typ(), typ()}
		default:
			m.Params = []string{typ()}
		}
		switch drawInt(t, 0, 4, "results") {
		case 0:
		case 1:
			m.Result = []string{"error"}
		case 2:
			m.Result = []string{typ()}
		default:
			m.Result = []string{typ(), "error"}
		}
		f.Methods = append(f.Methods, m)
	}
	return f
}

type c22Op struct {
	Op   string // run, edit, tweak, new, del, break, noise, out, delout, restore, type, prefix, outfile
	File string
	New  c22File
	V    int
}

type c22Case struct {
	Files map[string]c22File
	YAML  bool
	Rel   bool
	Auto  bool
	Dir   string
	Ops   []c22Op
}

var (
	c22Types    = []string{"S", "R", "Nope", "S", "S", "R", "S"}
	c22Prefixes = []string{"/api", "/apj", "/s", "", "/x y\""}
	c22Outs     = []string{"out.ts", "svc/out.ts", "new/dir/out.ts"}
	c22Dirs     = []string{"svc", "d 1/svc", "."}
)

func c22Gen(t *rapid.T) c22Case {
	c := c22Case{Files: map[string]c22File{}, YAML: drawBool(t, "yaml"), Rel: drawBool(t, "rel"), Auto: drawBool(t, "auto"), Dir: pick(t, "dir", c22Dirs...)}
	c.Files["svc.go"] = c22DrawFile(t, 0)
	for k := 1; k < len(c22Names); k++ {
		if chance(t, 30, "file") {
			c.Files[c22Names[k]] = c22DrawFile(t, k)
		}
	}
	for i := drawInt(t, 2, 6, "steps"); i > 0; i-- {
		for j := drawInt(t, 0, 2, "changes"); j > 0; j-- {
			k := uniform(t, len(c22Names), "which")
			n := c22Names[k]
			switch x := drawInt(t, 0, 99, "change"); {
			case x < 14:
				c.Ops = append(c.Ops, c22Op{Op: "tweak", File: n, V: drawInt(t, 0, 20, "v")})
			case x < 30:
				c.Ops = append(c.Ops, c22Op{Op: "edit", File: n, V: drawInt(t, 0, 3, "v")})
			case x < 50:
				c.Ops = append(c.Ops, c22Op{Op: "new", File: n, New: c22DrawFile(t, k)})
			case x < 56:
				c.Ops = append(c.Ops, c22Op{Op: "del", File: n})
			case x < 61:
				c.Ops = append(c.Ops, c22Op{Op: "break", File: n, V: drawInt(t, 1, 2, "how")})
			case x < 66:
				c.Ops = append(c.Ops, c22Op{Op: "noise", V: drawInt(t, 0, 3, "v")})
			case x < 72:
				c.Ops = append(c.Ops, c22Op{Op: "out", V: drawInt(t, 0, 1, "how")})
			case x < 78:
				c.Ops = append(c.Ops, c22Op{Op: "delout"})
			case x < 84:
				c.Ops = append(c.Ops, c22Op{Op: "restore"})
			case x < 90:
				c.Ops = append(c.Ops, c22Op{Op: "type", V: uniform(t, len(c22Types), "v")})
			case x < 96:
				c.Ops = append(c.Ops, c22Op{Op: "prefix", V: uniform(t, len(c22Prefixes), "v")})
			default:
				c.Ops = append(c.Ops, c22Op{Op: "outfile", V: drawInt(t, 0, 1, "v")})
			}
		}
		c.Ops = append(c.Ops, c22Op{Op: "run", V: pick(t, "force", 0, 0, 0, 0, 0, 0, 1)})
	}
	return c
}

func c22Run(e *pbt.Env, c c22Case) {
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	e.Must(err)
	e.Cleanup(func() { null.Close() })
	os.Stdout, os.Stderr = null, null

	top := filepath.Join(e.Dir, "top")
	e.WriteFile("top/go.mod", "module m\n\ngo 1.22\n")
	files := map[string]c22File{}
	write := func(n string, f c22File) {
		files[n] = f
		e.WriteFile(filepath.Join(top, c.Dir, n), f.text(n))
	}
	for n, f := range c.Files {
		write(n, f)
	}
	e.Must(os.MkdirAll(filepath.Join(top, "svc"), 0o755))
	cwd, base := top, top
	if c.Rel {
		cwd = filepath.Dir(filepath.Dir(e.Dir))
		base, err = filepath.Rel(cwd, top)
		e.Must(err)
	}
	e.Must(os.Chdir(cwd))
	var (
		typ, prefix, out = 0, 0, 0
		pdir             = filepath.Join(base, c.Dir)
	)
	if pdir == c.Dir && c.Rel {
		e.Infra("directory")
	}
	outfile := func() string { return filepath.Join(base, c22Outs[out]) }
	dbfile := filepath.Join(e.Dir, "hash.db")
	run := func(force bool) error {
		db, err := sqlite.Open(dbfile)
		e.Must(err)
		defer db.Close()
		ctx := fab.WithHashDB(context.Background(), db)
		ctx = fab.WithForce(ctx, force)
		con := fab.NewController(base)
		if !c.YAML {
			t, err := ts.Decls(pdir, c22Types[typ], c22Prefixes[prefix], outfile(), fab.Autoclean(c.Auto))
			if err != nil {
				return err
			}
			return con.Run(ctx, t)
		}
		y := ymap("ts.Decls", "Dir", ystr(c.Dir), "Type", ystr(c22Types[typ]), "Prefix", ystr(c22Prefixes[prefix]), "Out", ystr(c22Outs[out]))
		if c.Auto {
			y.add("Autoclean", yraw("true"))
		}
		if err := con.ReadYAML(strings.NewReader(ymap("", "T", y).text()), ""); err != nil {
			return err
		}
		t, _ := con.RegistryTarget("T")
		return con.Run(ctx, t)
	}

	var (
		recorded     = map[string]bool{}
		made, none   int
		failed       int
		trace        []string
		saved        = map[string][]byte{}
		old          = time.Unix(1000000000, 0)
		extra, built bool
	)
	type reference struct {
		derr, gerr error
		want       []byte
	}
	refs := map[string]reference{}
	key := func() string {
		var sb strings.Builder
		fmt.Fprintf(&sb, "%q %q %q\n", c22Types[typ], c22Prefixes[prefix], outfile())
		for _, n := range sortedKeys(files) {
			fmt.Fprintf(&sb, "%s %q\n", n, files[n].text(n))
		}
		data, err := os.ReadFile(outfile())
		fmt.Fprintf(&sb, "%v %x\n", err != nil, data)
		return sb.String()
	}
	for _, op := range c.Ops {
		trace = append(trace, fmt.Sprintf("%s %s %d %+v", op.Op, op.File, op.V, op.New))
		switch op.Op {
		case "edit":
			if f, ok := files[op.File]; ok {
				f.V = op.V
				f.Broken = 0
				write(op.File, f)
				extra = extra || op.File != "svc.go" && op.File != "a.go"
			}
		case "tweak":
			if f, ok := files[op.File]; ok && f.tweak(op.V) {
				write(op.File, f)
				extra = extra || op.File != "svc.go" && op.File != "a.go"
			}
		case "new":
			write(op.File, op.New)
			extra = extra || op.File != "svc.go" && op.File != "a.go"
		case "break":
			if f, ok := files[op.File]; ok {
				f.Broken = op.V
				write(op.File, f)
			}
		case "del":
			delete(files, op.File)
			os.Remove(filepath.Join(top, c.Dir, op.File))
		case "noise":
			// None of this concerns the generator.
			e.WriteFile(filepath.Join(top, c.Dir, "readme.txt"), fmt.Sprint(op.V))
			e.WriteFile(filepath.Join(top, c.Dir, "sub/sub.go"), fmt.Sprintf("package sub\n\nconst V = %d\n", op.V))
			e.WriteFile(filepath.Join(top, "elsewhere/e.go"), fmt.Sprintf("package elsewhere\n\nconst V = %d\n", op.V))
		case "out":
			if data, err := os.ReadFile(outfile()); err == nil {
				if op.V == 1 && len(data) > 0 {
					data[len(data)/2] ^= 1
				} else {
					data = []byte("damaged")
				}
				e.Must(os.WriteFile(outfile(), data, 0o644))
			}
		case "delout":
			os.Remove(outfile())
		case "restore":
			for o, data := range saved {
				if _, err := os.Stat(filepath.Dir(o)); err == nil {
					e.Must(os.WriteFile(o, data, 0o644))
				}
			}
		case "type":
			typ = op.V
		case "prefix":
			prefix = op.V
		case "outfile":
			out = op.V
		case "run":
			k := key()
			ref, ok := refs[k]
			if !ok {
				_, ref.derr = golang.Deps(pdir, false, false)
				var buf bytes.Buffer
				ref.gerr = tsdecls.Write(&buf, pdir, c22Types[typ], c22Prefixes[prefix])
				ref.want = buf.Bytes()
				refs[k] = ref
			}
			derr, gerr, want := ref.derr, ref.gerr, ref.want
			_, serr := os.Stat(outfile())
			if serr == nil {
				e.Must(os.Chtimes(outfile(), old, old))
			}
			err := run(op.V == 1)
			info, serr2 := os.Stat(outfile())
			changed := (serr == nil) != (serr2 == nil) || serr == nil && !info.ModTime().Equal(old)
			if derr == nil && op.V == 0 && recorded[k] {
				if err != nil {
					e.Fatalf("%s\nerror: %v, in a state that was up to date", strings.Join(trace, "\n"), err)
				}
				if changed {
					e.Fatalf("%s\nthe output was written anew, though nothing changed", strings.Join(trace, "\n"))
				}
				none++
			} else {
				if (err != nil) != (derr != nil || gerr != nil) {
					e.Fatalf("%s\nresult: %v, but loading the package gives %v and the generator %v", strings.Join(trace, "\n"), err, derr, gerr)
				}
				if err == nil && op.V == 1 && !changed && serr == nil {
					// Written with the same content or not at all.
					e.Label("forced without effect on the file")
				}
			}
			if err != nil {
				if derr != nil && changed {
					e.Fatalf("%s\nthe output was touched, though the package cannot be loaded", strings.Join(trace, "\n"))
				}
				failed++
				continue
			}
			got, rerr := os.ReadFile(outfile())
			if rerr != nil || !bytes.Equal(got, want) {
				e.Fatalf("%s\nthe output (%v) is\n%s\nwant\n%s", strings.Join(trace, "\n"), rerr, got, want)
			}
			if !recorded[k] {
				made++
				if extra && built {
					e.Label("after a change in a file outside of the build")
				}
				extra, built = false, true
			}
			saved[outfile()] = got
			recorded[key()] = true
			refs[key()] = ref // the output makes no difference
		}
	}
	con := fab.NewController(base)
	before := snapshot(top, false)
	if err := con.Run(context.Background(), &fab.Clean{Autoclean: true}); err != nil {
		e.Fatalf("Clean: %v", err)
	}
	if c.Auto {
		for o := range saved {
			rel, _ := filepath.Rel(base, o)
			delete(before, rel)
		}
	}
	after := snapshot(top, false)
	if c.Auto && failed > 0 {
		// A target that failed has an output too.
		for _, o := range c22Outs {
			delete(before, o)
			delete(after, o)
		}
	}
	if d := diffMaps(before, after); d != "" {
		e.Fatalf("Clean with Autoclean, where the target has Autoclean %v:\n%s", c.Auto, d)
	}
	e.LabelIf(failed > 0, "failing run")
	e.LabelIf(none > 0, "nothing to do")
	e.LabelIf(c.YAML, "from YAML")
	if made > 1 {
		e.NonTrivial()
	}
}

func init() {
	pbt.Register(&pbt.Prop{
		ID: "C22",
		Subs: []*pbt.Sub{
			pbt.NewSub("decls", "histories of changes to the files of a package with a service type (including tests and files outside of the build), to the output and to the parameters, and runs of a ts.Decls target from Go and YAML, compared with the generator; non-trivial: at least two different states of the package and parameters were generated successfully", 150, 8000, c22Gen, c22Run),
		},
		Assumptions: []string{
			"tsdecls.Write is right, and golang.Deps fails in the right cases (C19).",
			"Service packages import nothing but the standard library (a limitation of the generator).",
		},
	})
}
