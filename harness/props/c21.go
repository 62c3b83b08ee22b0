package props

import (
	"context"
	"errors"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"github.com/bobg/fab"
	"github.com/bobg/fab/proto"
	"github.com/bobg/fab/sqlite"
	"pgregory.net/rapid"

	"verif/pbt"
)

// C21: protocol buffers.

type c21Import struct {
	Name string
	Kind string // "", public, weak
	Form int
}

type c21File struct {
	Imports []c21Import
	Decoys  int // bits: kinds of text that is not an import
	V       int // version
	Broken  bool
}

var c21Names = []string{"a.proto", "b.proto", "x/c.proto", "x/d.proto", "x y.proto", "é.proto", "import.proto"}

func (f c21File) text(path string) string {
	var sb strings.Builder
	if f.Decoys&1 != 0 {
		sb.WriteString("// import \"a.proto\";\n")
	}
	if f.Decoys&2 != 0 {
		sb.WriteString("/* A comment\nimport \"b.proto\";\n import 'x/c.proto'; */\n")
	}
	sb.WriteString("syntax = \"proto3\";")
	if f.Decoys&4 == 0 {
		sb.WriteString("\n")
	}
	// Each file has a package of its own.
	pkg := "p"
	for _, r := range path {
		pkg += fmt.Sprintf("_%x", r)
	}
	fmt.Fprintf(&sb, "package %s;", pkg)
	if f.Decoys&8 == 0 {
		sb.WriteString("\n")
	}
	for _, im := range f.Imports {
		kind, q := "", `"`
		if im.Kind != "" {
			kind = im.Kind + " "
		}
		if im.Form&1 != 0 {
			q = "'"
		}
		name := q + im.Name + q
		switch im.Form / 2 {
		case 0:
			fmt.Fprintf(&sb, "import %s%s;\n", kind, name)
		case 1:
			fmt.Fprintf(&sb, "  \timport\t%s  %s ;  // comment\n", kind, name)
		case 2:
			fmt.Fprintf(&sb, "import %s%s; ", kind, name) // the next one is on the same line
		case 3:
			if kind == "" {
				fmt.Fprintf(&sb, "import%s;\n", name)
			} else {
				fmt.Fprintf(&sb, "import %s%s;\n", im.Kind, name)
			}
		case 4:
			fmt.Fprintf(&sb, "import\n  %s\n  %s\n;\n", kind, name)
		case 5:
			fmt.Fprintf(&sb, "import /* \"x/d.proto\" */ %s// 'b.proto'\n%s;\r\n", kind, name)
		case 6:
			fmt.Fprintf(&sb, "/* ; */ import %s%s; /*\n*/", kind, name)
		case 7:
			fmt.Fprintf(&sb, "option java_package = \"%s\"; import %s%s;\n", strings.Repeat("x", 70000), kind, name)
		}
	}
	if f.Decoys&16 != 0 {
		sb.WriteString("option objc_class_prefix = \"; import 'a.proto';\";\n")
	}
	if f.Decoys&32 != 0 {
		sb.WriteString("option csharp_namespace = '; /* ';\n// */ import \"b.proto\"; '\n")
	}
	fmt.Fprintf(&sb, "message M { string imported = 1; int32 v%d = 2; } // import \"x/d.proto\";", f.V)
	if f.Decoys&64 == 0 {
		sb.WriteString("\n")
	}
	if f.Decoys&128 != 0 {
		sb.WriteString("\nmessage importer { message import {} import x1 = 1 [json_name = \"a.proto\"]; }\n")
	}
	if f.Broken {
		sb.WriteString("\nmessage {\n")
	}
	return sb.String()
}

func c21DrawFile(t *rapid.T, names []string) c21File {
	var f c21File
	for k := drawInt(t, 0, 3, "imports"); k > 0; k-- {
		if len(names) == 0 {
			break
		}
		im := c21Import{Name: names[uniform(t, len(names), "import")], Kind: pick(t, "kind", "", "", "public", "weak"), Form: drawInt(t, 0, 13, "form")}
		if chance(t, 2, "long") {
			im.Form = 14
		}
		dup := false
		for _, x := range f.Imports {
			dup = dup || x.Name == im.Name // protoc does not allow it
		}
		longs := im.Form/2 == 7
		for _, x := range f.Imports {
			if longs && x.Form/2 == 7 {
				im.Form = 0 // options are given once
			}
		}
		if !dup {
			f.Imports = append(f.Imports, im)
		}
	}
	if drawBool(t, "decoys") {
		f.Decoys = drawInt(t, 0, 255, "which")
	}
	return f
}

// Dependencies.

type c21DepsCase struct {
	Dirs  []string // include directories
	Files map[string]c21File
	Odd   map[string]string // link (to itself), dir, dangling
	Entry string
	Via   string // api, yaml
	Rel   bool
	YDir  string
	Valid bool // acceptable to protoc
}

func c21DepsGen(t *rapid.T) c21DepsCase {
	c := c21DepsCase{Files: map[string]c21File{}, Odd: map[string]string{}, Via: pick(t, "via", "api", "yaml"), Rel: drawBool(t, "rel"), YDir: pick(t, "ydir", "", "y")}
	c.Valid = chance(t, 35, "valid")
	for i := drawInt(t, 1, 3, "dirs"); i > 0; i-- {
		c.Dirs = append(c.Dirs, []string{"i 1", "i2/sub", "i3"}[i-1])
	}
	if chance(t, 10, "twice") && !c.Valid {
		c.Dirs = append(c.Dirs, c.Dirs[0])
	}
	var all []string
	for _, d := range c.Dirs {
		for k, n := range c21Names {
			if !chance(t, 45, "file") {
				continue
			}
			var names []string
			if c.Valid {
				names = c21Names[k+1:]
			} else {
				names = append([]string{"missing.proto", "odd.proto"}, c21Names...)
			}
			p := d + "/" + n
			if _, dup := c.Files[p]; dup {
				continue
			}
			c.Files[p] = c21DrawFile(t, names)
			all = append(all, p)
		}
	}
	if len(all) == 0 {
		c.Files[c.Dirs[0]+"/a.proto"] = c21File{}
		all = append(all, c.Dirs[0]+"/a.proto")
	}
	c.Entry = all[uniform(t, len(all), "entry")]
	if !c.Valid {
		if chance(t, 20, "outside") {
			c.Entry = "outside.proto"
			c.Files[c.Entry] = c21DrawFile(t, c21Names)
		}
		if chance(t, 20, "odd") {
			c.Odd[c.Dirs[uniform(t, len(c.Dirs), "in")]+"/odd.proto"] = pick(t, "how", "loop", "dir", "dangling")
		}
		if chance(t, 4, "noentry") {
			c.Entry = "nowhere.proto"
		}
	} else {
		// Everything imported is somewhere.
		have := map[string]bool{}
		for p := range c.Files {
			for _, n := range c21Names {
				if strings.HasSuffix(p, "/"+n) {
					have[n] = true
				}
			}
		}
		for p, f := range c.Files {
			var ims []c21Import
			for _, im := range f.Imports {
				if have[im.Name] {
					ims = append(ims, im)
				}
			}
			f.Imports = ims
			c.Files[p] = f
		}
	}
	return c
}

// c21Ref computes the dependencies.
func c21Ref(files map[string]c21File, odd map[string]string, dirs []string, entry string) (deps []string, fails bool) {
	seen := map[string]bool{}
	var visit func(p string)
	visit = func(p string) {
		if seen[p] {
			return
		}
		if odd[p] == "loop" || odd[p] == "dir" {
			fails = true
			return
		}
		f, ok := files[p]
		if !ok {
			fails = true
			return
		}
		seen[p] = true
		for _, im := range f.Imports {
			for _, d := range dirs {
				q := filepath.Join(d, im.Name)
				_, ok := files[q]
				if ok || odd[q] == "loop" || odd[q] == "dir" {
					visit(q)
					break
				}
			}
		}
	}
	visit(entry)
	return sortedKeys(seen), fails
}

func c21DepsRun(e *pbt.Env, c c21DepsCase) {
	top := filepath.Join(e.Dir, "top")
	e.Must(os.MkdirAll(top, 0o755))
	for p, f := range c.Files {
		e.WriteFile(filepath.Join(top, p), f.text(p))
	}
	for p, how := range c.Odd {
		full := filepath.Join(top, p)
		e.Must(os.MkdirAll(filepath.Dir(full), 0o755))
		switch how {
		case "loop":
			e.Must(os.Symlink(filepath.Base(full), full))
		case "dir":
			e.Must(os.Mkdir(full, 0o755))
		case "dangling":
			e.Must(os.Symlink("nothing", full))
		}
	}
	for _, d := range c.Dirs {
		e.Must(os.MkdirAll(filepath.Join(top, d), 0o755))
	}
	e.Must(os.MkdirAll(filepath.Join(top, c.YDir), 0o755))
	want, fails := c21Ref(c.Files, c.Odd, c.Dirs, c.Entry)
	e.Must(os.Chdir(top))
	base := top
	if c.Rel {
		base = ""
	}
	var (
		got []string
		err error
		inc []string
	)
	if c.Via == "api" {
		for _, d := range c.Dirs {
			inc = append(inc, filepath.Join(base, d))
		}
		got, err = proto.Deps(filepath.Join(base, c.Entry), inc)
	} else {
		up := ""
		if c.YDir != "" {
			up = "../"
		}
		y := yseq("")
		for _, d := range c.Dirs {
			y.Seq = append(y.Seq, ystr(up+d))
			inc = append(inc, filepath.Join(base, d))
		}
		got, err = yamlListOf(e, fab.NewController(base), ymap("proto.Deps", "File", ystr(up+c.Entry), "Includes", y), c.YDir)
	}
	if fails {
		e.Label("unreadable")
		if err == nil {
			e.Fatalf("no error for an unreadable file; got %q", got)
		}
		return
	}
	if err != nil {
		e.Fatalf("Deps: %v", err)
	}
	for i := range want {
		want[i] = filepath.Join(base, want[i])
	}
	sort.Strings(want)
	if !equalStrings(got, want) {
		missing, extra := diffSets(want, got)
		e.Fatalf("Deps gave %q\nlacking %q, in excess %q\ncontent of %s: %.3000s", got, missing, extra, c.Entry, c.Files[c.Entry].text(c.Entry))
	}
	if len(want) > 1 {
		e.NonTrivial()
	}
	e.LabelIf(len(want) > 3, "more than three files")
	e.LabelIf(len(c.Dirs) > 1, "several include directories")
	for _, w := range want {
		e.LabelIf(c.Files[w].Decoys != 0, "text that looks like an import")
	}
	if c.Valid {
		// Ask protoc itself.
		args := []string{}
		for _, d := range inc {
			args = append(args, "-I"+d)
		}
		args = append(args, "--dependency_out=dep", "--descriptor_set_out=out.pb", filepath.Join(base, c.Entry))
		out, err := exec.Command("protoc", args...).CombinedOutput()
		if err != nil {
			if strings.Contains(string(out), "is shadowed in") {
				// protoc does not take a file that is found elsewhere first.
				e.Label("shadowed")
				return
			}
			e.Infra("protoc: %v: %s", err, out)
		}
		data, err := os.ReadFile("dep")
		e.Must(err)
		_, list, _ := strings.Cut(string(data), ":")
		list = strings.ReplaceAll(list, "\\\n", "\n")
		var ref []string
		for _, l := range strings.Split(list, "\n") {
			if l = strings.TrimSpace(l); l != "" {
				ref = append(ref, filepath.Clean(strings.ReplaceAll(l, "\\ ", " ")))
			}
		}
		sort.Strings(ref)
		if !equalStrings(got, ref) {
			e.Fatalf("Deps gave %q, protoc says %q", got, ref)
		}
		e.Label("compared with protoc")
	}
}

// Builds.

type c21Op struct {
	Op   string // run, edit, add, del, break, out, delout, restore, rule, force
	File string
	New  c21File
	V    int
}

type c21Case struct {
	Files  map[string]c21File
	Dirs   []string
	Inputs []string
	Outs   int // 1: a descriptor set; 2: C++ output of the only input
	YAML   bool
	Rel    bool
	Auto   bool
	Opts   int
	Ops    []c21Op
}

var c21Opts = [][]string{nil, {"--include_source_info"}, {"--experimental_allow_proto3_optional"}}

func c21BuildGen(t *rapid.T) c21Case {
	c := c21Case{Files: map[string]c21File{}, Dirs: []string{"i1"}, YAML: drawBool(t, "yaml"), Rel: drawBool(t, "rel"), Auto: drawBool(t, "auto"), Opts: uniform(t, len(c21Opts), "opts")}
	names := []string{"a.proto", "b.proto", "x/c.proto", "x/d.proto"}
	file := func(k int) c21File { return c21DrawFile(t, names[k+1:]) }
	for k, n := range names {
		c.Files["i1/"+n] = file(k)
	}
	if chance(t, 50, "two") {
		c.Dirs = []string{"i0", "i1"}
	}
	c.Inputs = []string{c.Dirs[len(c.Dirs)-1] + "/a.proto"}
	if chance(t, 25, "twoInputs") {
		c.Inputs = append(c.Inputs, "i1/x/d.proto")
	}
	c.Outs = 1
	if len(c.Inputs) == 1 && chance(t, 30, "cpp") {
		c.Outs = 2
	}
	for i := drawInt(t, 2, 6, "steps"); i > 0; i-- {
		for k := drawInt(t, 0, 2, "changes"); k > 0; k-- {
			n := drawInt(t, 0, len(names)-1, "name")
			dir := "i1"
			if len(c.Dirs) == 2 && n > 0 && n < 3 && chance(t, 40, "shadow") {
				dir = "i0"
			}
			f := dir + "/" + names[n]
			switch x := drawInt(t, 0, 99, "change"); {
			case x < 40:
				op := c21Op{Op: "edit", File: f, V: drawInt(t, 0, 3, "v")}
				c.Ops = append(c.Ops, op)
			case x < 60:
				c.Ops = append(c.Ops, c21Op{Op: "add", File: f, New: file(n)})
			case x < 68:
				c.Ops = append(c.Ops, c21Op{Op: "del", File: f})
			case x < 74:
				c.Ops = append(c.Ops, c21Op{Op: "break", File: f})
			case x < 80:
				c.Ops = append(c.Ops, c21Op{Op: "out", V: drawInt(t, 0, c.Outs-1, "out")})
			case x < 86:
				c.Ops = append(c.Ops, c21Op{Op: "delout", V: drawInt(t, 0, c.Outs-1, "out")})
			case x < 92:
				c.Ops = append(c.Ops, c21Op{Op: "restore"})
			default:
				c.Ops = append(c.Ops, c21Op{Op: "rule", V: uniform(t, len(c21Opts), "opts")})
			}
		}
		c.Ops = append(c.Ops, c21Op{Op: "run", V: pick(t, "force", 0, 0, 0, 0, 0, 0, 1)})
	}
	return c
}

func c21BuildRun(e *pbt.Env, c c21Case) {
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	e.Must(err)
	e.Cleanup(func() { null.Close() })
	os.Stdout, os.Stderr = null, null

	top := filepath.Join(e.Dir, "top")
	e.Must(os.MkdirAll(top, 0o755))
	for _, d := range c.Dirs {
		e.Must(os.MkdirAll(filepath.Join(top, d), 0o755))
	}
	files := map[string]c21File{}
	for p, f := range c.Files {
		files[p] = f
		e.WriteFile(filepath.Join(top, p), f.text(p))
	}
	log := filepath.Join(e.Dir, "log")
	real, err := exec.LookPath("protoc")
	e.Must(err)
	e.WriteFile("path/protoc", fmt.Sprintf("#!/bin/sh\ns=; for x in \"$@\"; do s=\"$s$x\t\"; done; printf '%%s\\n' \"$s\" >>%s\nexec %s \"$@\"\n", shellQuote(log), shellQuote(real)))
	e.Must(os.Chmod(filepath.Join(e.Dir, "path/protoc"), 0o755))
	oldPath := os.Getenv("PATH")
	os.Setenv("PATH", filepath.Join(e.Dir, "path")+":"+oldPath)
	e.Cleanup(func() { os.Setenv("PATH", oldPath) })

	// Relative names are registered for the whole process, and so must be different in each case.
	cwd, base := top, top
	if c.Rel {
		cwd = filepath.Dir(filepath.Dir(e.Dir))
		base, err = filepath.Rel(cwd, top)
		e.Must(err)
	}
	e.Must(os.Chdir(cwd))
	opts := c.Opts
	// The command line, apart from the directory for output.
	rule := func(outdir string) (inputs, outputs, includes, others []string) {
		for _, i := range c.Inputs {
			inputs = append(inputs, filepath.Join(base, i))
		}
		for _, d := range c.Dirs {
			includes = append(includes, filepath.Join(base, d))
		}
		others = append(others, c21Opts[opts]...)
		if c.Outs == 1 {
			o := filepath.Join(base, outdir, "out.pb")
			outputs = []string{o}
			others = append(others, "--descriptor_set_out="+o, "--include_imports")
		} else {
			outputs = []string{filepath.Join(base, outdir, "a.pb.cc"), filepath.Join(base, outdir, "a.pb.h")}
			others = append(others, "--cpp_out="+filepath.Join(base, outdir))
		}
		return
	}
	e.Must(os.MkdirAll(filepath.Join(top, "gen"), 0o755))
	e.Must(os.MkdirAll(filepath.Join(top, "ref"), 0o755))

	dbfile := filepath.Join(e.Dir, "hash.db")
	run := func(force bool) error {
		db, err := sqlite.Open(dbfile)
		e.Must(err)
		defer db.Close()
		ctx := fab.WithHashDB(context.Background(), db)
		ctx = fab.WithForce(ctx, force)
		inputs, outputs, includes, others := rule("gen")
		con := fab.NewController(base)
		if !c.YAML {
			t, err := proto.Proto(inputs, outputs, includes, others, fab.Autoclean(c.Auto))
			if err != nil {
				return err
			}
			return con.Run(ctx, t)
		}
		list := func(xs []string, strip bool) *Y {
			y := yseq("")
			for _, x := range xs {
				if strip {
					x, _ = filepath.Rel(base, x)
				}
				y.Seq = append(y.Seq, ystr(x))
			}
			return y
		}
		y := ymap("proto.Proto", "Inputs", list(inputs, true), "Outputs", list(outputs, true), "Includes", list(includes, true), "Opts", list(others, false))
		if c.Auto {
			y.add("Autoclean", yraw("true"))
		}
		if err := con.ReadYAML(strings.NewReader(ymap("", "T", y).text()), ""); err != nil {
			return err
		}
		t, _ := con.RegistryTarget("T")
		return con.Run(ctx, t)
	}

	var (
		recorded     = map[string]bool{}
		builds, none int
		trace        []string
		saved        = map[string][]byte{}
	)
	key := func(deps []string) string {
		var sb strings.Builder
		fmt.Fprintf(&sb, "%d\n", opts)
		for _, d := range deps {
			fmt.Fprintf(&sb, "%s %q\n", d, files[d].text(d))
		}
		_, outs, _, _ := rule("gen")
		for _, o := range outs {
			data, err := os.ReadFile(o)
			fmt.Fprintf(&sb, "%v %x\n", err != nil, data)
		}
		return sb.String()
	}
	for _, op := range c.Ops {
		trace = append(trace, fmt.Sprintf("%s %s %d %+v", op.Op, op.File, op.V, op.New))
		full := filepath.Join(top, op.File)
		_, outs, _, _ := rule("gen")
		switch op.Op {
		case "edit":
			if f, ok := files[op.File]; ok {
				f.V = op.V
				f.Broken = false
				files[op.File] = f
				e.WriteFile(full, f.text(op.File))
			}
		case "add":
			files[op.File] = op.New
			e.WriteFile(full, op.New.text(op.File))
		case "del":
			delete(files, op.File)
			os.Remove(full)
		case "break":
			if f, ok := files[op.File]; ok {
				f.Broken = true
				files[op.File] = f
				e.WriteFile(full, f.text(op.File))
			}
		case "out":
			e.WriteFile(filepath.Join(cwd, strings.TrimPrefix(outs[op.V], cwd)), "damaged")
		case "delout":
			os.Remove(outs[op.V])
		case "restore":
			for o, data := range saved {
				e.Must(os.WriteFile(o, data, 0o644))
			}
		case "rule":
			opts = op.V
		case "run":
			os.Remove(log)
			var (
				deps  = map[string]bool{}
				loads = true
			)
			for _, in := range c.Inputs {
				d, fails := c21Ref(files, nil, c.Dirs, in)
				if fails {
					loads = false
				}
				for _, x := range d {
					deps[x] = true
				}
			}
			dl := sortedKeys(deps)
			want := loads && (op.V == 1 || !recorded[key(dl)])
			// What protoc gives now.
			fails := !loads
			inputs, refOuts, includes, others := rule("ref")
			if loads {
				args := []string{}
				for _, i := range includes {
					args = append(args, "-I"+i)
				}
				for _, o := range refOuts {
					os.Remove(o)
				}
				args = append(append(args, others...), inputs...)
				if err := exec.Command(real, args...).Run(); err != nil {
					var x *exec.ExitError
					if !errors.As(err, &x) {
						e.Infra("protoc: %v", err)
					}
					fails = true
				}
			}
			err := run(op.V == 1)
			logged, lerr := os.ReadFile(log)
			if lerr != nil && !errors.Is(lerr, fs.ErrNotExist) {
				e.Must(lerr)
			}
			n := strings.Count(string(logged), "\n")
			if want && n != 1 || !want && n != 0 {
				e.Fatalf("%s\nprotoc ran %d times, want it to run: %v\ndependencies: %q", strings.Join(trace, "\n"), n, want, dl)
			}
			if !want && loads {
				// Nothing to do, as before.
				if err != nil {
					e.Fatalf("%s\nerror: %v", strings.Join(trace, "\n"), err)
				}
				none++
			}
			if want {
				builds++
				if (err != nil) != fails {
					e.Fatalf("%s\nresult: %v, want failure: %v", strings.Join(trace, "\n"), err, fails)
				}
				_, _, _, wantOthers := rule("gen")
				wantArgs := []string{}
				for _, i := range includes {
					wantArgs = append(wantArgs, "-I"+i)
				}
				wantArgs = append(append(wantArgs, wantOthers...), inputs...)
				if got := strings.Split(strings.TrimSuffix(string(logged), "\t\n"), "\t"); !equalStrings(got, wantArgs) {
					e.Fatalf("%s\nprotoc ran with %q, want %q", strings.Join(trace, "\n"), got, wantArgs)
				}
			}
			if !loads && err == nil {
				e.Fatalf("%s\nno error, though an input is missing", strings.Join(trace, "\n"))
			}
			if err != nil {
				e.Label("failing run")
				continue
			}
			for i, o := range outs {
				a, err := os.ReadFile(o)
				e.Must(err)
				b, err := os.ReadFile(refOuts[i])
				e.Must(err)
				if string(a) != string(b) {
					e.Fatalf("%s\n%s is not what protoc gives for the present files", strings.Join(trace, "\n"), o)
				}
				saved[o] = a
			}
			recorded[key(dl)] = true
		}
	}
	// Only an output declared as such is cleaned automatically.
	_, outs, _, _ := rule("gen")
	con := fab.NewController(base)
	before := snapshot(top, false)
	if err := con.Run(context.Background(), &fab.Clean{Autoclean: true}); err != nil {
		e.Fatalf("Clean: %v", err)
	}
	if c.Auto && builds > 0 {
		for _, o := range outs {
			rel, _ := filepath.Rel(base, o)
			delete(before, rel)
		}
	}
	if d := diffMaps(before, snapshot(top, false)); d != "" {
		e.Fatalf("Clean with Autoclean, where the target has Autoclean %v:\n%s", c.Auto, d)
	}
	e.LabelIf(none > 0, "nothing to do")
	e.LabelIf(c.YAML, "from YAML")
	if builds > 1 && none > 0 {
		e.NonTrivial()
	}
}

func init() {
	pbt.Register(&pbt.Prop{
		ID: "C21",
		Subs: []*pbt.Sub{
			pbt.NewSub("deps", "up to 21 .proto files in up to three include directories, with imports in many notations, text that looks like an import, shadowing, cycles, missing and unreadable files, compared with a reference that knows the imports and, where it accepts the files, with protoc --dependency_out; non-trivial: there is more than one file in the result", 8000, 400000, c21DepsGen, c21DepsRun),
			pbt.NewSub("build", "histories of edits and runs of a proto.Proto target, from Go and YAML, with the real protoc; non-trivial: protoc ran at least twice, and there was a run with nothing to do", 1500, 60000, c21BuildGen, c21BuildRun),
		},
		Assumptions: []string{
			"protoc is right; a wrapper in PATH counts its runs and records its arguments.",
			"Import strings without escapes, each written as one literal.",
		},
	})
}
