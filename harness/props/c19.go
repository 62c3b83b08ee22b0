package props

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"

	"github.com/bobg/fab"
	"github.com/bobg/fab/golang"
	"pgregory.net/rapid"

	"verif/pbt"
)

// C19: the files that a Go package consists of.

type c19Case struct {
	Files map[string]string // the project, below the scratch directory
	Links map[string]string // symbolic links
	Query string            // directory, below the scratch directory
	Form  string            // abs, rel, yaml
	Cwd   string
	Tags  bool // the environment has GOFLAGS with -tags=vt
	Rec   bool
	Tests bool
	Want  []string
	Fail  string // why the package does not load
	Odd   bool   // more than one package of several files
}

type c19Pkg struct {
	mod, dir string // the directory is relative to the module
	name     string
	files    []string // that are part of the package, below the scratch directory
	tfiles   []string // of its tests
	imports  []int
	timports []int
	main     bool
	below    bool // matched by ./... in directories above it
	last     string
}

var c19Excluded = []struct{ name, head string }{
	{"ig.go", "//go:build ignore\n\n"},
	{"nv.go", "//go:build never && " + runtime.GOOS + "\n\n"},
	{"w_windows.go", ""},
	{"w_plan9_386.go", ""},
	{"_u.go", ""},
	{".h.go", ""},
	{"nt.go", "// A comment.\n\n//go:build !" + runtime.GOOS + "\n\n"},
}

var c19Included = []struct{ name, head string }{
	{"o_" + runtime.GOOS + ".go", ""},
	{"o_" + runtime.GOOS + "_" + runtime.GOARCH + ".go", ""},
	{"y.go", "//go:build " + runtime.GOOS + " || never\n\n"},
	{"not.go", "//go:build !never\n\n"},
	{"a.go", ""},
	{"go121.go", "//go:build go1.21\n\n"},
	{"windows.go", ""},
	{"t_tests.go", ""},
}

var c19Embeds = []struct {
	pat   string
	files []string
}{
	{"t.txt", []string{"t.txt"}},
	{"*.txt", []string{"t.txt", "u.txt"}},
	{"u.txt t.txt", []string{"t.txt", "u.txt"}},
	{"`t.txt`", []string{"t.txt"}},
	{"e", []string{"e/1.txt", "e/sub/2.txt"}},
	{"all:e", []string{"e/1.txt", "e/.hid", "e/_und", "e/sub/2.txt"}},
	{"e/*", []string{"e/1.txt", "e/.hid", "e/_und", "e/sub/2.txt"}},
	{"e/sub/2.txt", []string{"e/sub/2.txt"}},
	{"e/sub u.txt", []string{"e/sub/2.txt", "u.txt"}},
	{"[t-u].txt", []string{"t.txt", "u.txt"}},
	{"\"x y.dat\"", []string{"x y.dat"}},
}

func c19Gen(t *rapid.T) c19Case {
	c := c19Case{Files: map[string]string{}, Links: map[string]string{}}
	root := pick(t, "root", "m", "m", "m x", "m[12]", "é")
	c.Tags = chance(t, 25, "tags")
	dirs := map[string]string{"example.com/m": root, "example.com/o": "o", "example.com/m/nest": root + "/nest"}
	mods := []string{"example.com/m"}
	if chance(t, 40, "other") {
		mods = append(mods, "example.com/o")
	}
	if chance(t, 40, "nested") {
		mods = append(mods, "example.com/m/nest")
	}
	gover := pick(t, "goversion", "1.21", "1.17", "1.22")
	for _, m := range mods {
		s := fmt.Sprintf("module %s\n\ngo %s\n", m, gover)
		if m == mods[0] {
			for _, o := range mods[1:] {
				rel, _ := filepath.Rel(dirs[m], dirs[o])
				if !strings.HasPrefix(rel, ".") {
					rel = "./" + rel
				}
				s += fmt.Sprintf("\nrequire %s v0.0.0\nreplace %s => %s\n", o, o, rel)
			}
		}
		c.Files[dirs[m]+"/go.mod"] = s
	}
	if strings.HasPrefix(root, "m[") {
		c.Files["m1/t.txt"], c.Files["m1/a/t.txt"], c.Files["m1/e/1.txt"] = "decoy", "decoy", "decoy"
	}

	// Packages import those before them.
	var pkgs []*c19Pkg
	for _, m := range []string{"example.com/o", "example.com/m/nest", "example.com/m"} {
		in := false
		for _, x := range mods {
			in = in || x == m
		}
		if !in {
			continue
		}
		names := []string{"a/b", "", "a", "c", "internal/d", "testdata/t", "_under", "a/b/c/d", "e2"}
		if m != mods[0] {
			names = names[:3]
		}
		for k := len(names) - 1; k > 0; k-- { // in any order
			j := drawInt(t, 0, k, "order")
			names[k], names[j] = names[j], names[k]
		}
		n := 0
		for k, d := range names {
			if !chance(t, 50, "package") && !(k == len(names)-1 && n == 0) {
				continue
			}
			n++
			p := &c19Pkg{mod: m, dir: d, name: fmt.Sprintf("p%d", len(pkgs)), below: d != "testdata/t" && d != "_under"}
			p.main = m == mods[0] && chance(t, 12, "main")
			pkgs = append(pkgs, p)
		}
	}
	own := 0
	for i, p := range pkgs {
		base := filepath.Join(dirs[p.mod], p.dir)
		clause := p.name
		if p.main {
			clause = "main"
		}
		var can []int
		for j, q := range pkgs[:i] {
			if !q.main && q.dir != "_under" && (q.mod == p.mod || p.mod == mods[0]) && !(q.dir == "internal/d" && q.mod != p.mod) {
				can = append(can, j)
			}
		}
		imp := func(into *[]int) string {
			s := ""
			for k := drawInt(t, 0, 2, "imports"); k > 0 && len(can) > 0; k-- {
				j := can[uniform(t, len(can), "import")]
				if into != nil {
					*into = append(*into, j)
				}
				s += fmt.Sprintf("import _ %q\n", strings.TrimSuffix(pkgs[j].mod+"/"+pkgs[j].dir, "/"))
			}
			if chance(t, 15, "std") {
				s += "import _ \"" + pick(t, "stdpkg", "sort", "unicode/utf8", "errors", "unsafe") + "\"\n"
			}
			return s
		}
		own++
		nf := 0
		gofile := func(name, head, clause, imports, embed string) string {
			own++
			s := head + "package " + clause + "\n\n"
			if embed != "" {
				s += "import \"embed\"\n"
			}
			s += imports
			if embed != "" {
				s += fmt.Sprintf("\n//go:embed %s\nvar E%d embed.FS\n", embed, own)
			}
			s += fmt.Sprintf("\nvar V%d = %d\n", own, own)
			c.Files[filepath.Join(base, name)] = s
			return filepath.Join(base, name)
		}
		embed := func(into *[]string) string {
			if !chance(t, 25, "embed") {
				return ""
			}
			em := c19Embeds[uniform(t, len(c19Embeds), "pattern")]
			for _, f := range em.files {
				if into != nil {
					*into = append(*into, filepath.Join(base, f))
				}
			}
			return em.pat
		}
		// Files that can be embedded are always there.
		for _, f := range []string{"t.txt", "u.txt", "x y.dat", "e/1.txt", "e/.hid", "e/_und", "e/sub/2.txt", "README.md"} {
			c.Files[filepath.Join(base, f)] = f
		}
		main := ""
		if p.main {
			main = "func main() {}\n"
		}
		p.last = gofile("p.go", "", clause, imp(&p.imports), embed(&p.files))
		c.Files[p.last] += main
		p.files = append(p.files, p.last)
		for k := drawInt(t, 0, 3, "more"); k > 0; k-- {
			x := c19Included[uniform(t, len(c19Included), "included")]
			if _, dup := c.Files[filepath.Join(base, x.name)]; dup {
				continue
			}
			p.files = append(p.files, gofile(x.name, x.head, clause, imp(&p.imports), embed(&p.files)))
			nf++
		}
		for k := drawInt(t, 0, 2, "excluded"); k > 0; k-- {
			x := c19Excluded[uniform(t, len(c19Excluded), "which")]
			cl, im := clause, imp(nil)
			switch drawInt(t, 0, 3, "how") {
			case 0:
				cl = "quitedifferent"
			case 1:
				im = "import _ \"example.com/missing\"\n"
			}
			f := gofile(x.name, x.head, cl, im, embed(nil))
			if chance(t, 30, "broken") {
				c.Files[f] += "func syntax error {{\n"
			}
		}
		if chance(t, 30, "tagged") {
			var ims *[]int
			var ems *[]string
			head := "//go:build vt\n\n"
			in := c.Tags
			if drawBool(t, "not") {
				head, in = "//go:build !vt\n\n", !c.Tags
			}
			if in {
				ims, ems = &p.imports, &p.files
			}
			f := gofile("tag.go", head, clause, imp(ims), embed(ems))
			if in {
				p.files = append(p.files, f)
			}
		}
		other := func(name, s string) {
			c.Files[filepath.Join(base, name)] = s
			p.files = append(p.files, filepath.Join(base, name))
		}
		switch drawInt(t, 0, 14, "others") {
		case 0:
			other("h.h", "// A header.\n")
		case 1:
			other("s.s", "// Assembler.\n")
		case 2:
			other("s_"+runtime.GOARCH+".s", "// Assembler.\n")
			c.Files[filepath.Join(base, "s_386.s")] = "// Assembler.\n"
		case 3:
			if i == len(pkgs)-1 { // slow
				other("c.c", "int verif_c(void) { return 1; }\n")
				other("c.h", "// A header.\n")
				other("cg.go", fmt.Sprintf("package %s\n\n// int verif_c(void);\nimport \"C\"\n\nvar CG = int(C.verif_c())\n", clause))
			}
		}
		if chance(t, 35, "test") {
			p.tfiles = append(p.tfiles, gofile("p_test.go", "", clause, "import \"testing\"\n"+imp(&p.timports)+"\nfunc TestA(*testing.T) {}\n", ""))
			if chance(t, 30, "tembed") {
				f := filepath.Join(base, "p_test.go")
				c.Files[f] = strings.Replace(c.Files[f], "import", "import \"embed\"\nimport", 1) + "\n//go:embed tt.tst\nvar TT embed.FS\n"
				c.Files[filepath.Join(base, "tt.tst")] = "tt"
				p.tfiles = append(p.tfiles, filepath.Join(base, "tt.tst"))
			}
			if drawBool(t, "notthistest") {
				gofile("x_windows_test.go", "", clause, imp(nil), "")
			}
		}
		if chance(t, 25, "external") {
			p.tfiles = append(p.tfiles, gofile("x_test.go", "", clause+"_test", "import \"testing\"\n"+imp(&p.timports)+"\nfunc TestB(*testing.T) {}\n", ""))
			if chance(t, 30, "xembed") {
				f := filepath.Join(base, "x_test.go")
				c.Files[f] = strings.Replace(c.Files[f], "import", "import \"embed\"\nimport", 1) + "\n//go:embed xt.tst\nvar XT embed.FS\n"
				c.Files[filepath.Join(base, "xt.tst")] = "xt"
				p.tfiles = append(p.tfiles, filepath.Join(base, "xt.tst"))
			}
		}
		if chance(t, 8, "link") {
			c.Files["shared/"+p.name] = fmt.Sprintf("package %s\n", clause)
			c.Links[filepath.Join(base, "ln.go")] = "shared/" + p.name
			p.files = append(p.files, filepath.Join(base, "ln.go"))
			nf++
		}
		c.Odd = c.Odd || nf > 0
	}
	c.Odd = c.Odd && len(pkgs) > 1

	// The query.
	qi := drawInt(t, 0, len(pkgs)-1, "query")
	if drawBool(t, "lastPackage") {
		qi = len(pkgs) - 1 // likely to import the others
	}
	q := pkgs[qi]
	c.Query = filepath.Join(dirs[q.mod], q.dir)
	c.Rec = q.below && chance(t, 40, "recursive")
	c.Tests = chance(t, 40, "tests")
	c.Form = pick(t, "form", "abs", "rel", "yaml", "yamlrel")
	c.Cwd = pick(t, "cwd", root, c.Query, "elsewhere", ".")
	c.Files["elsewhere/t.txt"], c.Files["elsewhere/u.txt"], c.Files["elsewhere/e/1.txt"] = "decoy", "decoy", "decoy"
	c.Files["elsewhere/p.go"] = "package decoy\n"

	roots := []int{qi}
	if c.Rec {
		roots = nil
		for i, p := range pkgs {
			if p.mod == q.mod && p.below && (q.dir == "" || p.dir == q.dir || strings.HasPrefix(p.dir, q.dir+"/")) {
				roots = append(roots, i)
			}
		}
	}
	want := map[string]bool{}
	seen := map[int]bool{}
	var visit func(i int)
	visit = func(i int) {
		if seen[i] || pkgs[i].mod != q.mod {
			return
		}
		seen[i] = true
		for _, f := range pkgs[i].files {
			want[f] = true
		}
		for _, j := range pkgs[i].imports {
			visit(j)
		}
	}
	for _, i := range roots {
		visit(i)
		if c.Tests {
			for _, f := range pkgs[i].tfiles {
				want[f] = true
			}
			for _, j := range pkgs[i].timports {
				visit(j)
			}
		}
	}
	c.Want = sortedKeys(want)

	if chance(t, 15, "fails") {
		c.Fail = pick(t, "why", "nodir", "nogo", "excluded", "syntax", "type", "import", "names", "nomodule", "embed", "cycle", "gomod", "file")
		if c.Rec && (c.Fail == "nogo" || c.Fail == "excluded") {
			c.Fail = "syntax"
		}
		switch c.Fail {
		case "nodir":
			c.Query += "/missing"
		case "nogo":
			c.Query = root + "/nogo"
			c.Files[c.Query+"/README.md"] = ""
		case "excluded":
			c.Query = root + "/excl"
			c.Files[c.Query+"/x_windows.go"] = "package excl\n"
		case "syntax":
			c.Files[q.last] += "func {\n"
		case "type":
			c.Files[q.last] += "var T string = 1\n"
		case "import":
			c.Files[q.last] = strings.Replace(c.Files[q.last], "\n\n", "\n\nimport _ \"example.com/m/missing\"\n", 1)
		case "names":
			c.Files[c.Query+"/zz.go"] = "package differentname\n"
		case "nomodule":
			for _, m := range mods {
				delete(c.Files, dirs[m]+"/go.mod")
			}
		case "embed":
			c.Files[c.Query+"/zz.go"] = "package " + c19Clause(c.Files[q.last]) + "\n\nimport \"embed\"\n\n//go:embed nothing.*\nvar NN embed.FS\n"
		case "cycle":
			path := strings.TrimSuffix(q.mod+"/"+q.dir, "/")
			c.Files[c.Query+"/cyc/x.go"] = fmt.Sprintf("package cyc\n\nimport _ %q\n", path)
			c.Files[c.Query+"/zz.go"] = fmt.Sprintf("package %s\n\nimport _ \"%s/cyc\"\n", c19Clause(c.Files[q.last]), path)
		case "gomod":
			c.Files[dirs[q.mod]+"/go.mod"] = "modul x\n"
		case "file":
			c.Query += "/p.go"
		}
	}
	return c
}

func c19Clause(src string) string {
	return strings.Fields(src)[1]
}

// c19List gets the list in the chosen way.
// The top directory is the scratch directory.
func c19List(e *pbt.Env, form, query string, rec, tests bool) ([]string, error) {
	abs := filepath.Join(e.Dir, query)
	switch form {
	case "abs":
		return golang.Deps(abs, rec, tests)
	case "rel":
		cwd, err := os.Getwd()
		e.Must(err)
		rel, err := filepath.Rel(cwd, abs)
		e.Must(err)
		return golang.Deps(rel, rec, tests)
	}
	dir, sub := "", query
	top := e.Dir
	if form == "yamlrel" { // from a subdirectory
		dir = filepath.Dir(query)
		sub = filepath.Base(query)
		if dir == "." {
			dir = ""
		}
	}
	y := ymap("go.Deps", "Dir", ystr(sub))
	if rec {
		y.add("Recursive", yraw("true"))
	}
	if tests {
		y.add("Tests", yraw("true"))
	}
	return yamlListOf(e, fab.NewController(top), y, dir)
}

func c19Run(e *pbt.Env, c c19Case) {
	for f, s := range c.Files {
		e.WriteFile(f, s)
	}
	for l, to := range c.Links {
		e.Must(os.Symlink(filepath.Join(e.Dir, to), filepath.Join(e.Dir, l)))
	}
	cwd := filepath.Join(e.Dir, c.Cwd)
	e.Must(os.MkdirAll(cwd, 0755))
	e.Must(os.Chdir(cwd))
	if c.Tags {
		os.Setenv("GOFLAGS", "-tags=vt")
		e.Cleanup(func() { os.Unsetenv("GOFLAGS") })
	}
	got, err := c19List(e, c.Form, c.Query, c.Rec, c.Tests)
	if c.Fail != "" {
		e.Label("load error: " + c.Fail)
		e.NonTrivial()
		if err == nil {
			e.Fatalf("go.Deps of %s, which does not load (%s), gave no error and %q", c.Query, c.Fail, got)
		}
		return
	}
	if err != nil {
		e.Fatalf("go.Deps(%s, %v, %v): %v", c.Query, c.Rec, c.Tests, err)
	}
	if !sort.StringsAreSorted(got) {
		e.Errorf("not sorted: %q", got)
	}
	var have []string
	for _, f := range got {
		if c.Tests && strings.HasPrefix(f, os.Getenv("GOCACHE")+"/") {
			continue // the generated main file of the test, which is not part of the module
		}
		rel, err := filepath.Rel(e.Dir, f)
		if err != nil || !filepath.IsAbs(f) {
			e.Errorf("the path %q is not absolute", f)
		}
		have = append(have, rel)
	}
	for i := 1; i < len(have); i++ {
		if have[i] == have[i-1] {
			e.Errorf("%q is there more than once", have[i])
		}
	}
	missing, extra := diffSets(c.Want, have)
	if len(missing)+len(extra) > 0 {
		e.Fatalf("go.Deps(%s, recursive %v, tests %v) lacks %q and has in excess %q\nwant %q", c.Query, c.Rec, c.Tests, missing, extra, c.Want)
	}
	if c.Odd {
		e.NonTrivial()
	}
	e.LabelIf(c.Rec, "recursive")
	e.LabelIf(c.Tests, "tests")
	e.LabelIf(c.Tags, "build tags")
	e.LabelIf(strings.HasPrefix(c.Form, "yaml"), "from YAML")
	for _, f := range c.Want {
		e.LabelIf(strings.Contains(f, ".txt"), "embedded file")
		e.LabelIf(strings.HasSuffix(f, ".c"), "cgo")
	}

	// A list is computed from the present files each time.
	if e.Seq%3 == 0 {
		base := filepath.Dir(c.Want[0])
		for _, f := range c.Want {
			if filepath.Base(f) == "p.go" {
				base = filepath.Dir(f)
			}
		}
		src, err := os.ReadFile(filepath.Join(e.Dir, base, "p.go"))
		e.Must(err)
		added := filepath.Join(base, "added.go")
		e.WriteFile(added, "package "+c19Clause(string(src))+"\n")
		got, err := c19List(e, c.Form, c.Query, c.Rec, c.Tests)
		if err != nil {
			e.Fatalf("after adding a file: %v", err)
		}
		want := filepath.Join(e.Dir, added)
		i := sort.SearchStrings(got, want)
		if i == len(got) || got[i] != want {
			e.Fatalf("the file %s was added and is not in the list %q", added, got)
		}
		e.Label("after adding a file")
	}
}

// c19DenseGen makes a module in which every package imports most of those before it.
func c19DenseGen(t *rapid.T) []uint64 {
	n := drawInt(t, 3, 62, "packages")
	pct := pick(t, "density", 20, 50, 90, 100)
	var masks []uint64
	for i := 0; i < n; i++ {
		var m uint64
		for j := 0; j < i; j++ {
			if pct == 100 || chance(t, pct, "import") {
				m |= 1 << uint(j)
			}
		}
		masks = append(masks, m)
	}
	return masks
}

func c19DenseRun(e *pbt.Env, masks []uint64) {
	e.WriteFile("go.mod", "module example.com/m\n\ngo 1.21\n")
	for i, m := range masks {
		s := fmt.Sprintf("package p%d\n\n", i)
		for j := 0; j < i; j++ {
			if m>>uint(j)&1 == 1 {
				s += fmt.Sprintf("import _ \"example.com/m/p%d\"\n", j)
			}
		}
		e.WriteFile(fmt.Sprintf("p%d/x.go", i), s)
	}
	top := len(masks) - 1
	want := map[string]bool{}
	var visit func(i int)
	visit = func(i int) {
		f := filepath.Join(e.Dir, fmt.Sprintf("p%d/x.go", i))
		if want[f] {
			return
		}
		want[f] = true
		for j := 0; j < i; j++ {
			if masks[i]>>uint(j)&1 == 1 {
				visit(j)
			}
		}
	}
	visit(top)
	got, err := golang.Deps(filepath.Join(e.Dir, fmt.Sprintf("p%d", top)), false, false)
	e.Must(err)
	if w := sortedKeys(want); !equalStrings(got, w) {
		e.Fatalf("got %q, want %q", got, w)
	}
	if len(want) > 10 {
		e.NonTrivial()
	}
	e.LabelIf(len(want) > 30, "more than 30 packages")
}

func init() {
	pbt.Register(&pbt.Prop{
		ID: "C19",
		Subs: []*pbt.Sub{
			pbt.NewSub("lists", "generated modules of up to nine packages, with imports, build constraints, tests, embedded and other files, and nested and replaced modules, asked for in four ways; non-trivial: there is more than one package and one has several files, or the package does not load", 200, 12000, c19Gen, c19Run),
			pbt.NewSub("dense", "modules of up to 62 packages that import many of each other; non-trivial: more than ten packages are listed", 16, 300, c19DenseGen, c19DenseRun),
		},
		Assumptions: []string{
			"The go command and the files it selects are right; the reference is known by construction of the module, not taken from it.",
			"Imports through packages of another module are not followed, as documented.",
			"With tests, the main file that go test generates in its cache is allowed in the list.",
		},
	})
}
