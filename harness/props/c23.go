package props

import (
	"fmt"
	"go/doc/comment"
	"path/filepath"
	"sort"
	"strings"

	"pgregory.net/rapid"

	"verif/pbt"
)

// C23: the targets of a _fab package.

// Types and functions of every package (as text/template would have it, F is the name of package fab).
const c23Lib = `
type Local struct{ ID string }

func (t *Local) Run(ctx context.Context, con *F.Controller) error { fmt.Println("ran " + t.ID); return nil }
func (*Local) Desc() string { return "local" }

type Val struct{ ID string }

func (t Val) Run(context.Context, *F.Controller) (err error) { fmt.Println("ran " + t.ID); return }
func (t Val) Desc() (desc string) { return "val" }

type Num int

func (n *Num) Run(_ context.Context, _ *F.Controller) error { fmt.Println("ran t" + fmt.Sprint(int(*n))); return nil }
func (n *Num) Desc() string { return "num" }

func NewNum(n Num) *Num { return &n }

func NewLocal(id string) *Local { return &Local{id} }
func NewTarget(id string) F.Target { return &Local{ID: id} }
func Two(a, b string) (F.Target, *Local) { return NewTarget(a), NewLocal(b) }

type List []string

func (l *List) Run(context.Context, *F.Controller) error { fmt.Println("ran " + (*l)[0]); return nil }
func (l *List) Desc() string { return "list" }

type Func func() string

func (f *Func) Run(context.Context, *F.Controller) error { fmt.Println("ran " + (*f)()); return nil }
func (f *Func) Desc() string { return "func" }

func NewFunc(id string) *Func { var f Func = func() string { return id }; return &f }

type Emb struct {
	N int
	*Local
}

type EmbVal struct{ Val }

type EmbI struct {
	x string
	F.Target
}

type Deep struct{ EmbVal }

type Gen[T any] struct{ V T }

func (g *Gen[T]) Run(context.Context, *F.Controller) error { fmt.Println("ran", g.V); return nil }
func (g *Gen[T]) Desc() string { return "gen" }

type Chain[T any] struct{ *Gen[T] }

type (
	Ctx      = context.Context
	Con      = *F.Controller
	Err      = error
	Aliased  = Local
	Str      = string
	hidden   struct{ Local }
)

type Aliases struct{ ID string }

func (t *Aliases) Run(ctx Ctx, con Con) Err { fmt.Println("ran " + t.ID); return nil }
func (t *Aliases) Desc() Str { return "aliases" }

type Runner interface {
	F.Target
	Extra()
}

type Explicit interface {
	Run(c Ctx, _ *F.Controller) error
	Desc() string
}

type More struct{ Local }

func (m *More) Extra() {}
func (m *More) unexported() {}

// These are not targets.

type Defined Local

type Half struct{}

func (*Half) Desc() string { return "half" }

type NoCon struct{ Half }

func (*NoCon) Run(context.Context) error { return nil }

type ConVal struct{ Half }

func (*ConVal) Run(context.Context, F.Controller) error { return nil }

type Variadic struct{ Half }

func (*Variadic) Run(context.Context, ...*F.Controller) error { return nil }

type NoErr struct{ Half }

func (*NoErr) Run(context.Context, *F.Controller) {}

type TwoErr struct{ Half }

func (*TwoErr) Run(context.Context, *F.Controller) (int, error) { return 0, nil }

type OtherRes struct{ Half }

func (*OtherRes) Run(context.Context, *F.Controller) string { return "" }

type MyErr struct{}

func (MyErr) Error() string { return "" }

type ConcreteErr struct{ Half }

func (*ConcreteErr) Run(context.Context, *F.Controller) *MyErr { return nil }

type Any struct{ Half }

func (*Any) Run(any, *F.Controller) error { return nil }

type Named string

type NamedDesc struct{ ID string }

func (*NamedDesc) Run(context.Context, *F.Controller) error { return nil }
func (*NamedDesc) Desc() Named { return "" }

type DescArg struct{ ID string }

func (*DescArg) Run(context.Context, *F.Controller) error { return nil }
func (*DescArg) Desc(...int) string { return "" }

type Fields struct {
	Run  func(context.Context, *F.Controller) error
	Desc func() string
}

type Lower struct{}

func (*Lower) run(context.Context, *F.Controller) error { return nil }
func (*Lower) desc() string { return "" }

type Ambiguous struct {
	*Local
	*Val
}

type Swapped struct{ Half }

func (*Swapped) Run(*F.Controller, context.Context) error { return nil }

type Context interface{ context.Context }

type LocalContext struct{ Half }

func (*LocalContext) Run(Context, *F.Controller) error { return nil }

type Controller F.Controller

type LocalController struct{ Half }

func (*LocalController) Run(context.Context, *Controller) error { return nil }

// Run and Desc are functions.
func Run(context.Context, *F.Controller) error { return nil }
func Desc() string { return "" }

const Const = "const"
`

// Expressions that give targets, with their types.
var c23Targets = [][2]string{
	{`&Local{ID: "ID"}`, `*Local`},
	{`&Val{"ID"}`, `*Val`},
	{`NewNum(NUM)`, `*Num`},
	{`NewLocal("ID")`, `*Local`},
	{`NewTarget("ID")`, `F.Target`},
	{`&List{"ID"}`, `*List`},
	{`NewFunc("ID")`, `*Func`},
	{`&Emb{Local: NewLocal("ID")}`, `*Emb`},
	{`&EmbVal{Val{"ID"}}`, `*EmbVal`},
	{`&EmbI{Target: NewTarget("ID")}`, `*EmbI`},
	{`&Deep{EmbVal{Val{"ID"}}}`, `*Deep`},
	{`&Gen[string]{"ID"}`, `*Gen[string]`},
	{`&Gen[any]{"ID"}`, `*Gen[any]`},
	{`&Chain[string]{&Gen[string]{"ID"}}`, `*Chain[string]`},
	{`&Aliased{"ID"}`, `*Aliased`},
	{`&hidden{Local{"ID"}}`, `*hidden`},
	{`&Aliases{"ID"}`, `*Aliases`},
	{`&More{Local{"ID"}}`, `Runner`},
	{`&More{Local{"ID"}}`, `*More`},
	{`&Local{"ID"}`, `Explicit`},
	{`&F.Command{Shell: "echo ran ID", Stdout: os.Stdout}`, `*F.Command`},
	{`&F.Command{Cmd: "echo", Args: []string{"ran", "ID"}, Stdout: os.Stdout}`, `F.Target`},
	{`F.F(func(context.Context, *F.Controller) error { fmt.Println("ran ID"); return nil })`, `F.Target`},
	{`F.Seq(&Local{"ID"})`, `F.Target`},
	{`F.All(NewTarget("ID"), F.Seq())`, `F.Target`},
	{`F.Deps(F.All(), NewTarget("ID"))`, `F.Target`},
	{`&struct{ *Local; x int }{Local: NewLocal("ID")}`, `*struct{ *Local; x int }`},
	{`func() F.Target { return NewTarget("ID") }()`, `interface{ F.Target }`},
}

// Expressions that do not.
var c23Others = []string{
	`"ID"`, `NUM`, `Local{ID: "ID"}`, `Num(NUM)`, `[]F.Target{NewTarget("ID")}`, `map[string]F.Target{}`, `func() F.Target { return nil }`,
	`NewTarget`, `new(F.Target)`, `func() **Local { l := NewLocal("ID"); return &l }()`, `make(chan F.Target)`, `&Defined{"ID"}`, `&Half{}`, `&NoCon{}`, `&ConVal{}`,
	`&Variadic{}`, `&NoErr{}`, `&TwoErr{}`, `&OtherRes{}`, `&ConcreteErr{}`, `&Any{}`, `&NamedDesc{"ID"}`, `&DescArg{"ID"}`, `&Fields{}`, `&Lower{}`,
	`&Ambiguous{NewLocal("ID"), &Val{"ID"}}`, `&Swapped{}`, `&LocalContext{}`, `&LocalController{}`, `&struct{ F.Target; Desc int }{}`, `struct{ X F.Target }{}`, `(any)(NewLocal("ID"))`,
	`[1]Val{}`, `error(nil)`, `(*F.Controller)(nil)`, `F.Command{}`,
}

type c23Var struct {
	Name   string
	Expr   int // of c23Targets, or less than 0
	Target bool
	ID     string
	Alias  string // a copy of another variable
}

type c23Decl struct {
	Form  string // infer, iface, typed, group, multi, init, pair
	Vars  []c23Var
	Doc   []string // of the declaration
	Docs  [][]string
	Style int
	File  int
}

type c23Case struct {
	Pkg     string
	Files   []string // the first has the types
	Import  []string // name of package fab in each
	Decls   []c23Decl
	Imports []string // of packages with target types
	YAML    int
	Decoys  int
	Extra   bool
}

var (
	c23Pkgs    = []string{"_fab", "fab", "rules", "internal", "é", "x_test", "subpkg", "vendor"}
	c23FileSet = []string{"a.go", "b.go", "c_linux.go", "d.go", "zz.go", "é.go", "a b.go", "linux.go"}
)

func c23DrawDoc(t *rapid.T) []string {
	var doc []string
	for i := drawInt(t, 1, 3, "lines"); i > 0; i-- {
		doc = append(doc, pick(t, "line", "Does things.", "Says \"hello\" \\n %s.", "", "And {{ .Name }} — `more`.", "\tindented code", "  - an item", "# Heading", "A long line with many words in it, which goes on for more than eighty characters, and so may be broken.", "go:generate is not here", "TODO: $HOME", "Two. Sentences?"))
	}
	return doc
}

func c23Gen(t *rapid.T) c23Case {
	c := c23Case{Pkg: pick(t, "pkg", c23Pkgs...), YAML: drawInt(t, 0, 15, "yaml"), Decoys: drawInt(t, 0, 255, "decoys"), Extra: drawBool(t, "extra")}
	perm := rapid.Permutation(c23FileSet).Draw(t, "files")
	c.Files = perm[:drawInt(t, 1, 3, "nfiles")]
	for range c.Files {
		c.Import = append(c.Import, pick(t, "import", "fab", "fab", "f", "os2"))
	}
	if chance(t, 40, "golang") {
		c.Imports = append(c.Imports, "github.com/bobg/fab/golang", "github.com/bobg/fab/proto")[:drawInt(t, 1, 2, "imports")] // the test dependencies of ts are not available offline
	}
	if chance(t, 8, "none") {
		return c
	}
	names := []string{"A", "Build", "Ünder", "X_1", "Test", "Main", "Err", "Fmt", "Con", "F", "Ab", "Æ", "Z9", "ID", "N", "a", "_b", "été", "日本", "main1", "Local1", "Default"}
	used := map[string]bool{}
	k := 0
	var targets []string
	v := func() c23Var {
		n := pick(t, "name", names...)
		for used[n] || n == "Err" || n == "Con" {
			n += "x"
		}
		used[n] = true
		k++
		x := c23Var{Name: n, ID: fmt.Sprintf("t%d", k)}
		if chance(t, 70, "target") {
			x.Target = true
			x.Expr = uniform(t, len(c23Targets), "expr")
			if len(targets) > 0 && chance(t, 5, "alias") {
				x.Alias = targets[uniform(t, len(targets), "of")]
			} else {
				targets = append(targets, n)
			}
		} else {
			x.Expr = uniform(t, len(c23Others), "expr")
		}
		return x
	}
	for i := drawInt(t, 1, 12, "decls"); i > 0; i-- {
		d := c23Decl{Form: pick(t, "form", "infer", "infer", "iface", "typed", "group", "group", "multi", "init", "pair", "typedMulti"), Style: drawInt(t, 0, 31, "style"), File: drawInt(t, 0, len(c.Files)-1, "file")}
		n := 1
		switch d.Form {
		case "group":
			n = drawInt(t, 1, 4, "n")
		case "multi", "pair", "typedMulti":
			n = 2
		}
		for ; n > 0; n-- {
			x := v()
			if d.Form == "pair" || d.Form == "typedMulti" {
				if x.Alias == "" && !x.Target {
					targets = append(targets, x.Name)
				}
				x.Target = true
				x.Alias = ""
				x.Expr = 0
			}
			d.Vars = append(d.Vars, x)
			var doc []string
			if chance(t, 50, "specdoc") {
				doc = c23DrawDoc(t)
			}
			d.Docs = append(d.Docs, doc)
		}
		if chance(t, 60, "doc") {
			d.Doc = c23DrawDoc(t)
		}
		c.Decls = append(c.Decls, d)
	}
	return c
}

func c23Comment(doc []string, style int, indent string) string {
	if len(doc) == 0 {
		return ""
	}
	var sb strings.Builder
	if style&1 != 0 {
		sb.WriteString(indent + "/*\n")
		for _, l := range doc {
			sb.WriteString(l + "\n")
		}
		sb.WriteString(indent + "*/\n")
		return sb.String()
	}
	for _, l := range doc {
		switch {
		case l == "":
			sb.WriteString(indent + "//\n")
		case strings.HasPrefix(l, "\t"):
			sb.WriteString(indent + "//" + l + "\n")
		default:
			sb.WriteString(indent + "// " + l + "\n")
		}
	}
	if style&2 != 0 {
		// A directive is not part of the text.
		sb.WriteString(indent + "//lint:ignore U1000 none\n")
	}
	return sb.String()
}

// c23DocText is what the listing shows for a doc comment.
func c23DocText(doc []string, block bool) string {
	var (
		p  comment.Parser
		pr comment.Printer
	)
	text := strings.Trim(strings.Join(doc, "\n"), "\n")
	return strings.TrimRight(string(pr.Text(p.Parse(text))), "\n")
}

// source gives the files of the package, and its targets with their documentation and IDs.
func (c c23Case) source() (files map[string]string, docs, ids map[string]string) {
	files, docs, ids = map[string]string{}, map[string]string{}, map[string]string{}
	head := func(file, fabName string) string {
		return fmt.Sprintf("package %s\n\nimport (\n\t\"context\"\n\t\"fmt\"\n\t\"os\"\n\n\t%s \"github.com/bobg/fab\"\n)\n\nvar (\n\t_ context.Context\n\t_ = fmt.Sprint\n\t_ = os.Args\n\t_ %s.Target\n)\n", c.Pkg, fabName, fabName)
	}
	body := make([]string, len(c.Files))
	body[0] = c23Lib
	sub := func(s string, v c23Var) string {
		return strings.ReplaceAll(strings.ReplaceAll(s, "ID\"", v.ID+"\""), "NUM", v.ID[1:])
	}
	if len(c.Decls) == 0 && c.Extra {
		body[0] = ""
	}
	for _, d := range c.Decls {
		var sb strings.Builder
		expr := func(v c23Var) (string, string) {
			switch {
			case v.Alias != "":
				return v.Alias, ""
			case v.Target:
				x := c23Targets[v.Expr]
				e := sub(strings.ReplaceAll(x[0], "ran ID", "ran "+v.ID), v)
				return e, x[1]
			default:
				return sub(c23Others[v.Expr], v), ""
			}
		}
		doc := d.Doc
		sb.WriteString("\n")
		if d.Style&4 != 0 {
			sb.WriteString("// This is about something else.\n\n")
		}
		for k, v := range d.Vars {
			if v.Target && exported(v.Name) {
				docs[v.Name] = c23DocText(doc, d.Style&1 != 0)
				if (d.Form == "group" || d.Style&8 != 0) && len(d.Docs[k]) > 0 {
					docs[v.Name] = c23DocText(d.Docs[k], d.Style&1 != 0)
				}
				ids[v.Name] = v.ID
			}
		}
		v := d.Vars[0]
		e, typ := expr(v)
		tail := ""
		if d.Style&16 != 0 {
			tail = " // not the doc"
		}
		// One variable or two.
		var decl string
		switch d.Form {
		case "infer", "group":
			decl = v.Name + " = " + e + tail
		case "iface":
			if v.Target {
				decl = v.Name + " F.Target = " + e
			} else {
				decl = v.Name + " any = " + e
			}
		case "typed":
			if typ == "" {
				decl = v.Name + " = " + e
			} else {
				decl = v.Name + " " + typ + " = " + e
			}
		case "multi":
			e2, _ := expr(d.Vars[1])
			decl = v.Name + ", " + d.Vars[1].Name + " = " + e + ", " + e2
		case "init":
			if typ == "" {
				typ = "F.Target"
				if !v.Target {
					typ = "any"
				}
			}
			decl = v.Name + " " + typ
		case "pair":
			decl = fmt.Sprintf("%s, %s = Two(%q, %q)", v.Name, d.Vars[1].Name, v.ID, d.Vars[1].ID)
		case "typedMulti":
			decl = fmt.Sprintf("%s, %s *Local = NewLocal(%q), NewLocal(%q)", v.Name, d.Vars[1].Name, v.ID, d.Vars[1].ID)
		}
		if d.Form == "group" {
			sb.WriteString(c23Comment(doc, d.Style, ""))
			sb.WriteString("var (\n")
			for k, v := range d.Vars {
				e, _ := expr(v)
				sb.WriteString(c23Comment(d.Docs[k], d.Style, "\t"))
				sb.WriteString("\t" + v.Name + " = " + e + tail + "\n\n")
			}
			sb.WriteString(")\n")
		} else if d.Style&8 != 0 {
			// A group of one declaration.
			sb.WriteString(c23Comment(doc, d.Style, "") + "var (\n" + c23Comment(d.Docs[0], d.Style, "\t") + "\t" + decl + "\n)\n")
			for _, v := range d.Vars {
				if v.Target && exported(v.Name) && len(d.Docs[0]) > 0 {
					docs[v.Name] = c23DocText(d.Docs[0], d.Style&1 != 0)
				} else if v.Target && exported(v.Name) {
					docs[v.Name] = c23DocText(doc, d.Style&1 != 0)
				}
			}
		} else {
			sb.WriteString(c23Comment(doc, d.Style, "") + "var " + decl + "\n")
		}
		if d.Form == "init" {
			fmt.Fprintf(&sb, "\nfunc init() { %s = %s }\n", v.Name, e)
		}
		body[d.File] += sb.String()
	}
	// Copies have the identity of the original.
	all := map[string]c23Var{}
	for _, d := range c.Decls {
		for _, v := range d.Vars {
			all[v.Name] = v
		}
	}
	for n := range ids {
		ids[n] = all[n].ID
		if a := all[n].Alias; a != "" {
			ids[n] = all[a].ID
		}
	}
	for i, f := range c.Files {
		text := strings.ReplaceAll(body[i], "F.", c.Import[i]+".")
		h := head(f, c.Import[i])
		if f == "d.go" {
			h = "//go:build linux && !nothing\n\n" + h
		}
		files[f] = h + text
	}
	return
}

func exported(name string) bool {
	r := []rune(name)[0]
	return r >= 'A' && r <= 'Z' || r == 'Ü' || r == 'Æ'
}

func c23Run(e *pbt.Env, c c23Case) {
	top := filepath.Join(e.Dir, "top")
	driverModule(e, top)
	files, docs, ids := c.source()
	for f, text := range files {
		e.WriteFile(filepath.Join(top, "_fab", f), text)
	}
	extra := func(name, format string, args ...any) {
		e.WriteFile(filepath.Join(top, "_fab", name), fmt.Sprintf(format, args...))
	}
	var other string
	for _, n := range sortedKeys(ids) {
		other = n
		break
	}
	if other == "" {
		other = "A"
	}
	fabImport := "import \"github.com/bobg/fab\"\n\n"
	if len(c.Imports) > 0 {
		s := ""
		for _, i := range c.Imports {
			s += fmt.Sprintf("import _ %q\n", i)
		}
		extra("imports.go", "package %s\n\n%s", c.Pkg, s)
	}
	// Files that are not part of the package.
	if c.Decoys&1 != 0 {
		extra("t_test.go", "package %s\n\n%s// Wrong.\nvar InTest = fab.All()\n", c.Pkg, fabImport)
	}
	if c.Decoys&2 != 0 {
		extra("x_windows.go", "package %s\n\n%s// Wrong.\nvar %s, OnWindows = fab.All(), fab.All()\n", c.Pkg, fabImport, other)
	}
	if c.Decoys&4 != 0 {
		extra("ignored.go", "//go:build ignore\n\npackage main\n\n%s// Wrong.\nvar %s, Ignored = fab.All(), fab.All()\n", fabImport, other)
	}
	if c.Decoys&8 != 0 {
		extra("e_test.go", "package %s_test\n\n%s// Wrong.\nvar InExternalTest = fab.All()\n", c.Pkg, fabImport)
	}
	if c.Decoys&16 != 0 {
		extra("_u.go", "package %s\n\n%svar %s, Underscore = fab.All(), fab.All()\n", c.Pkg, fabImport, other)
		extra(".d.go", "this is not Go\n")
	}
	if c.Decoys&32 != 0 {
		extra("sub/sub.go", "package %s\n\n%s// Wrong.\nvar %s, InSub = fab.All(), fab.All()\n", c.Pkg, fabImport, other)
		extra("notes.txt", "notes\n")
	}
	if c.Decoys&64 != 0 {
		extra("tagged.go", "//go:build nothing\n\npackage %s\n\n%sfunc broken() { return 1 }\n\nvar %s = 1\n", c.Pkg, fabImport, other)
	}
	// Targets of fab.yaml.
	want := map[string]string{}
	run := map[string]string{}
	for n, d := range docs {
		want[n] = d
		run[n] = ids[n]
	}
	if c.YAML&1 != 0 {
		var sb strings.Builder
		sb.WriteString("# YAML doc.\nyaml-one: !Command\n  Shell: echo ran yaml-one\n  Stdout: $stdout\n\n")
		want["yaml-one"], run["yaml-one"] = "YAML doc.", "yaml-one"
		if c.YAML&2 != 0 && len(docs) > 0 {
			fmt.Fprintf(&sb, "yaml-two: !Seq [%s]\n", other)
			want["yaml-two"], run["yaml-two"] = "", ids[other]
		}
		if c.YAML&4 != 0 {
			extra("tag2.go", "package %s\n\nimport \"fmt\"\n\nfunc println2(s string) { fmt.Println(s) }\n", c.Pkg)
			extra("tag3.go", "package %s\n\nimport c \"context\"\n\ntype ctx = c.Context\n", c.Pkg)
			extra("tag.go", "package %s\n\nimport (\n\t\"github.com/bobg/fab\"\n\t\"gopkg.in/yaml.v3\"\n)\n\nfunc init() {\n\tfab.RegisterYAMLTarget(\"my.Tag\", func(_ *fab.Controller, n *yaml.Node, dir string) (fab.Target, error) {\n\t\treturn &mine{n.Value}, nil\n\t})\n}\n\ntype mine struct{ id string }\n\nfunc (m *mine) Run(_ ctx, con *fab.Controller) error { println2(\"ran \" + m.id); return nil }\nfunc (*mine) Desc() string { return \"mine\" }\n", c.Pkg)
			sb.WriteString("yaml-three: !my.Tag yaml-three\n")
			want["yaml-three"], run["yaml-three"] = "", "yaml-three"
		}
		if len(c.Imports) > 0 {
			sb.WriteString("yaml-four: !Files\n  Target: !Command\n    Shell: echo ran yaml-four\n    Stdout: $stdout\n  In: !go.Deps\n    Dir: .\n  Out: [nothing]\n")
			e.WriteFile(filepath.Join(top, "go.go"), "package q\n")
			want["yaml-four"], run["yaml-four"] = "", "yaml-four"
		}
		e.WriteFile(filepath.Join(top, "fab.yaml"), sb.String())
	}

	src := func() string {
		var sb strings.Builder
		for _, f := range sortedKeys(files) {
			fmt.Fprintf(&sb, "--- %s\n%s\n", f, strings.Replace(files[f], strings.ReplaceAll(c23Lib, "F.", c.Import[0]+"."), "", 1))
		}
		return sb.String()
	}
	cache := filepath.Join(e.Dir, "cache")
	out, errOut, code := runFab(e, pbt.FabBin(), top, "", "-fab", cache, "-list")
	if code != 0 {
		e.Fatalf("fab -list failed (%d): %s%s\n%s", code, out, errOut, src())
	}
	got := map[string]string{}
	var name string
	var order []string
	for _, l := range strings.Split(strings.TrimSuffix(out, "\n"), "\n") {
		if strings.HasPrefix(l, "    ") {
			if got[name] != "" {
				got[name] += "\n"
			}
			got[name] += strings.TrimRight(l[4:], " ")
		} else if l != "" {
			name = l
			if _, dup := got[name]; dup {
				e.Fatalf("%s is listed twice", name)
			}
			got[name] = ""
			order = append(order, name)
		}
	}
	for n, d := range want {
		lines := strings.Split(d, "\n")
		for i := range lines {
			lines[i] = strings.TrimRight(lines[i], " ")
		}
		want[n] = strings.Join(lines, "\n")
	}
	if d := diffMaps(want, got); d != "" {
		e.Fatalf("the targets are wrong:\n%s\n%s", d, src())
	}
	if !sort.StringsAreSorted(order) {
		e.Fatalf("the order of targets is %q", order)
	}
	if len(order) == 0 {
		e.Label("no targets")
		return
	}
	// All of them run.
	out, errOut, code = runFab(e, pbt.FabBin(), top, "", append([]string{"-fab", cache}, order...)...)
	if code != 0 {
		e.Fatalf("fab %q failed (%d): %s%s\n%s", order, code, out, errOut, src())
	}
	wantRun := map[string]string{}
	for _, id := range run {
		wantRun["ran "+id] = ""
	}
	gotRun := map[string]string{}
	for _, l := range strings.Split(strings.TrimSuffix(out, "\n"), "\n") {
		if _, dup := gotRun[l]; dup {
			e.Fatalf("%q twice in the output %q", l, out)
		}
		gotRun[l] = ""
	}
	if d := diffMaps(wantRun, gotRun); d != "" {
		e.Fatalf("running %q:\n%s\n%s", order, d, src())
	}
	// Each alone is what it is called.
	for k, n := range order {
		if k >= 3 {
			break
		}
		out, errOut, code = runFab(e, pbt.FabBin(), top, "", "-fab", cache, n)
		wantOut := "ran " + run[n] + "\n"
		if n == "yaml-four" {
			wantOut = "" // it is up to date
		}
		if code != 0 || out != wantOut {
			e.Fatalf("fab %s: %q %q (%d), want %q\n%s", n, out, errOut, code, "ran "+run[n], src())
		}
	}
	// Other names do not.
	for _, n := range []string{"a", "Local", "NewTarget", "InTest", "Const", "Run"} {
		if _, ok := want[n]; ok {
			continue
		}
		out, _, code = runFab(e, pbt.FabBin(), top, "", "-fab", cache, n)
		if code == 0 || strings.Contains(out, "ran ") {
			e.Fatalf("fab %s: %q (%d), though there is no such target\n%s", n, out, code, src())
		}
		break
	}
	e.LabelIf(len(c.Files) > 1, "several files")
	e.LabelIf(c.YAML&1 != 0, "with fab.yaml")
	e.LabelIf(c.Decoys != 0, "with files outside of the package")
	if len(docs) > 1 {
		e.NonTrivial()
	}
}

func init() {
	pbt.Register(&pbt.Prop{
		ID: "C23",
		Subs: []*pbt.Sub{
			pbt.NewSub("package", "packages built from a grammar of variable declarations over 28 kinds of expressions that give targets and 36 that do not, with doc comments, several files, files outside of the package and fab.yaml: fab -list, then running all targets, some of them alone, and names that are not targets; non-trivial: the package has at least two targets", 40, 6000, c23Gen, c23Run),
		},
		Assumptions: []string{
			"The package and fab are compiled with the same version of Go.",
			"Target variables hold pointers (the documentation requires it), and the package imports the standard library and packages of fab or its dependencies only.",
			"go/doc/comment renders comments.",
		},
	})
}
