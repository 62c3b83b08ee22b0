package props

import (
	"context"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/bobg/fab"
	"pgregory.net/rapid"

	"verif/pbt"
)

// C12: references between YAML files.

type c12Case struct {
	RelTop bool
	Yml    []bool // per directory: the file is called fab.yml
	Dirs   []string
	Defs   []c11Def // with full names
	Docs   []*Y     // per directory
	Refs   []string // "FROM -> TO", directories
	Steps  []c11RunStep
	Bad    string
	BadDir int
	Late   bool
}

var c12DirNames = []string{"", "a", "a/b", "c d", "a/b/c", "b", "é", "1"}

func c12Gen(t *rapid.T) c12Case {
	c := c12Case{RelTop: drawBool(t, "relTop")}
	for i, d := range c12DirNames {
		if i == 0 || chance(t, 45, "dir") {
			c.Dirs = append(c.Dirs, d)
			c.Yml = append(c.Yml, chance(t, 30, "yml"))
		}
	}
	// Definitions refer only to earlier ones, but their files refer to each other in any way.
	n := drawInt(t, 1, 9, "defs")
	dirOf := map[string]int{}
	leaf := 0
	var node func(depth int) *c11Node
	node = func(depth int) *c11Node {
		k := drawInt(t, 0, 99, "kind")
		switch {
		case k < 55 && len(c.Defs) > 0:
			return &c11Node{Kind: "ref", Name: c.Defs[drawInt(t, 0, len(c.Defs)-1, "def")].Name, Form: drawInt(t, 0, 6, "form")}
		case k < 70 || depth == 0:
			leaf++
			nd := &c11Node{Kind: "ev", Name: fmt.Sprintf("L%d", leaf)}
			if chance(t, 8, "fails") {
				nd.Exit = leaf
			}
			return nd
		}
		nd := &c11Node{Kind: pick(t, "composite", "all", "all", "seq", "deps", "arg")}
		lo, hi := 1, 4
		if nd.Kind == "arg" {
			hi, nd.Args = 1, []string{pick(t, "arg", "-x", "y")}
		}
		for k := drawInt(t, lo, hi, "kids"); k > 0; k-- {
			nd.Kids = append(nd.Kids, node(depth-1))
		}
		return nd
	}
	type plain struct{ dir, name string }
	seen := map[plain]bool{}
	for i := 0; i < n; i++ {
		di := drawInt(t, 0, len(c.Dirs)-1, "in")
		p := plain{c.Dirs[di], pick(t, "name", "T", "U", "V", "a", "b", "é", "x y")}
		for seen[p] {
			p.name += fmt.Sprint(i)
		}
		seen[p] = true
		name := filepath.Join(p.dir, p.name)
		if _, dup := dirOf[name]; dup {
			continue
		}
		nd := node(2)
		dirOf[name] = di
		c.Defs = append(c.Defs, c11Def{name, nd})
	}

	// A target at the top, which is read first, refers to some.
	var tops []*c11Node
	for i := range c.Defs {
		if chance(t, 50, "top") {
			tops = append(tops, &c11Node{Kind: "ref", Name: c.Defs[i].Name, Form: drawInt(t, 0, 6, "form")})
		}
	}
	c.Defs = append(c.Defs, c11Def{"Top", &c11Node{Kind: pick(t, "kind", "all", "seq"), Kids: tops}})
	dirOf["Top"] = 0

	refs := map[string]bool{}
	var nodes []*Y
	var from []int
	m := &c11Maker{t: t}
	var write func(nd *c11Node, di int) *Y
	write = func(nd *c11Node, di int) (y *Y) {
		defer func() { nodes, from = append(nodes, y), append(from, di) }()
		if nd.Kind == "ref" {
			to := c.Dirs[dirOf[nd.Name]]
			refs[c.Dirs[di]+" -> "+to] = true
			if nd.Form == 6 && !c.RelTop {
				return ystr("%TOP%/" + nd.Name)
			}
			return ystr(c12Spell(c.Dirs[di], to, filepath.Base(nd.Name), nd.Form))
		}
		if nd.Kind == "ev" {
			return m.yaml(nd)
		}
		var kids []*Y
		for _, k := range nd.Kids {
			kids = append(kids, write(k, di))
		}
		switch nd.Kind {
		case "all":
			return yseq("All", kids...)
		case "seq":
			return yseq("Seq", kids...)
		case "deps":
			return yseq("Deps", kids...)
		}
		return yseq("ArgTarget", append(kids, c11Strs(nd.Args)...)...)
	}
	for di, d := range c.Dirs {
		doc := ymap("")
		for _, def := range c.Defs {
			if dirOf[def.Name] == di {
				doc.add(filepath.Base(def.Name), write(def.Node, di))
			}
		}
		if d != "" {
			doc.add("_dir", ystr(d))
		}
		c.Docs = append(c.Docs, doc)
	}
	c.Refs = sortedKeys(refs)
	reach := c12Reach(c.Refs)

	var roots []int
	for i, d := range c.Defs {
		if reach[c.Dirs[dirOf[d.Name]]] {
			roots = append(roots, i)
		}
	}
	for k := drawInt(t, 1, 3, "steps"); k > 0; k-- {
		var s c11RunStep
		for j := drawInt(t, 1, 3, "roots"); j > 0; j-- {
			s.Roots = append(s.Roots, roots[len(roots)-1-drawInt(t, 0, len(roots)-1, "root")])
		}
		c.Steps = append(c.Steps, s)
	}

	if chance(t, 30, "bad") {
		var dirs []int
		for i, d := range c.Dirs {
			if reach[d] {
				dirs = append(dirs, i)
			}
		}
		c.BadDir = dirs[drawInt(t, 0, len(dirs)-1, "badDir")]
		doc := c.Docs[c.BadDir]
		setDir := func(v *Y) {
			for i, k := range doc.Keys {
				if k == "_dir" {
					doc.Vals[i] = v
					return
				}
			}
			doc.add("_dir", v)
		}
		switch k := drawInt(t, 0, 6, "what"); {
		case k == 0 && c.BadDir > 0:
			c.Bad = "no _dir"
			for i, k := range doc.Keys {
				if k == "_dir" {
					doc.Keys, doc.Vals = append(doc.Keys[:i:i], doc.Keys[i+1:]...), append(doc.Vals[:i:i], doc.Vals[i+1:]...)
					break
				}
			}
		case k == 1:
			c.Bad = "another _dir"
			dir := c.Dirs[c.BadDir]
			decls := []string{"x", "/", "../" + dir, dir + "x", "/" + dir, "x/" + dir}
			if dir != "" {
				decls = append(decls, "", strings.ToUpper(dir), dir[1:], dir[:len(dir)-1])
			}
			if i := strings.Index(dir, "/"); i >= 0 {
				// Some of its elements, and not others.
				decls = append(decls, dir[:i], dir[i+1:], filepath.Base(dir), filepath.Dir(dir))
			}
			for i := 0; i < len(decls); i++ {
				if decls[i] == dir {
					decls = append(decls[:i], decls[i+1:]...)
					i--
				}
			}
			setDir(ystr(pick(t, "dir", decls...)))
		case k == 2:
			c.Bad = "_dir is a collection"
			setDir(pick(t, "dir", yseq("", ystr(c.Dirs[c.BadDir])), ymap("", "x", ystr("y"))))
		case k == 3 && c.BadDir > 0:
			c.Bad = pick(t, "how", "no file", "not YAML", "empty file", "unreadable file")
		case k == 4:
			c.Bad = "slash in a name"
			doc.add(pick(t, "name", "a/b", "/a", "x/", "../T"), ymap("verif.ev", "Name", ystr("L0")))
		default:
			c.Bad, c.Late = "name that does not exist", true
			var is []int
			for i, f := range from {
				if reach[c.Dirs[f]] {
					is = append(is, i)
				}
			}
			i := is[drawInt(t, 0, len(is)-1, "where")]
			*nodes[i] = *ystr(pick(t, "name", "./Nope", "nodir/Nope", "../Nope", "../../../../Nope", "../../../../x/Nope", "a/Nope", "a/b/Nope", c12Spell(c.Dirs[from[i]], c.Dirs[c.BadDir], "Nope", 0)))
			for _, y := range nodes {
				for j, k := range y.Keys {
					if k == "Exit" {
						y.Vals[j] = yraw("0")
					}
				}
			}
			c.Steps = []c11RunStep{{Roots: roots}}
		}
	}
	for _, d := range c.Docs {
		d.restyle(t, false)
	}
	return c
}

// c12Spell writes a reference from one directory to a target in another.
func c12Spell(from, to, name string, form int) string {
	if from == to {
		switch {
		case from == "" && form < 4:
			return name
		case form < 4 || from == "":
			return "./" + name
		}
		return "../" + filepath.Base(from) + "/" + name
	}
	rel, err := filepath.Rel("/"+from, "/"+to)
	if err != nil {
		panic(err)
	}
	s := rel + "/" + name
	switch form {
	case 1:
		s = "./" + s
	case 2:
		s = rel + "/./" + name
	case 3:
		if !strings.HasPrefix(rel, "..") {
			s = rel + "/../" + filepath.Base(rel) + "/" + name
		}
	case 4:
		s = rel + "//" + name
	}
	return s
}

// c12Reach gives the directories whose files are read, beginning at the top.
// (A file that refers to the top directory does not make that file be read; it has been already.)
func c12Reach(refs []string) map[string]bool {
	r := map[string]bool{"": true}
	for changed := true; changed; {
		changed = false
		for _, x := range refs {
			from, to, _ := strings.Cut(x, " -> ")
			if r[from] && !r[to] {
				r[to], changed = true, true
			}
		}
	}
	return r
}

func c12Run(e *pbt.Env, c c12Case) {
	top := filepath.Join(e.Dir, "top")
	var all strings.Builder
	for i, d := range c.Dirs {
		name := filepath.Join(top, d, map[bool]string{true: "fab.yml", false: "fab.yaml"}[c.Yml[i]])
		text := strings.ReplaceAll(c.Docs[i].text(), "%TOP%", top)
		if i == c.BadDir {
			switch c.Bad {
			case "no file":
				e.Must(os.MkdirAll(filepath.Dir(name), 0o755))
				continue
			case "not YAML":
				text = "a: [b\n"
			case "empty file":
				text = ""
			case "unreadable file":
				e.Must(os.MkdirAll(name, 0o755))
				continue
			}
		}
		fmt.Fprintf(&all, "--- %s\n%s", strings.TrimPrefix(name, top+"/"), text)
		e.WriteFile(name, text)
	}
	conTop := top
	if c.RelTop {
		e.Must(os.Chdir(e.Dir))
		conTop = "top"
	}
	reach := c12Reach(c.Refs)
	defs := map[string]*c11Node{}
	wantNames := map[string]bool{}
	for i, d := range c.Dirs {
		if reach[d] {
			for _, k := range c.Docs[i].Keys {
				if k != "_dir" {
					wantNames[filepath.Join(d, k)] = true
				}
			}
		}
	}
	for _, d := range c.Defs {
		defs[d.Name] = d.Node
	}
	cc := c11Case{Defs: c.Defs}

	for step, s := range c.Steps {
		run := func(yaml bool) (o c11Outcome, err error) {
			w := &c11World{log: filepath.Join(e.Dir, "log")}
			os.Remove(w.log)
			c11Cur = w
			con := fab.NewController(conTop)
			var roots []fab.Target
			if yaml {
				if err := con.ReadYAMLFile(""); err != nil {
					return o, err
				}
				if got, want := con.RegistryNames(), sortedKeys(wantNames); !equalStrings(got, want) && c.Bad == "" {
					e.Fatalf("registered are %q, want %q\n%s", got, want, all.String())
				}
				for _, r := range s.Roots {
					t, _ := con.RegistryTarget(c.Defs[r].Name)
					if t == nil && c.Late {
						continue // the reference by which its file was reached may have been replaced
					}
					if t == nil {
						e.Fatalf("%q is not registered\n%s", c.Defs[r].Name, all.String())
					}
					roots = append(roots, t)
				}
			} else {
				ts := map[string]fab.Target{}
				for _, d := range c.Defs {
					ts[d.Name] = d.Node.goTarget(con, "", ts)
				}
				for _, r := range s.Roots {
					roots = append(roots, ts[c.Defs[r].Name])
				}
			}
			if _, err := os.Stat(w.log); err == nil {
				e.Fatalf("something ran before it was asked for")
			}
			runErr := con.Run(context.Background(), roots...)
			o.errs = errLeaves(runErr)
			data, _ := os.ReadFile(w.log)
			o.log = strings.Split(strings.TrimSuffix(string(data), "\n"), "\n")
			return o, nil
		}
		got, err := run(true)
		if c.Bad != "" {
			e.Label("%s", c.Bad)
			e.NonTrivial()
			if err != nil {
				e.LabelIf(c.Late, "rejected when read")
				return
			}
			if !c.Late {
				e.Fatalf("no error although there is: %s, in %q\n%s", c.Bad, c.Dirs[c.BadDir], all.String())
			}
			if len(got.errs) == 0 {
				e.Fatalf("no error although a %s is referred to\n%s", c.Bad, all.String())
			}
			return
		}
		if err != nil {
			e.Fatalf("%s\n%s", err, all.String())
		}
		want, _ := run(false)
		c11Compare(e, cc, step, s, defs, got, want, all.String())
	}
	n, mutual := 0, false
	for _, x := range c.Refs {
		from, to, _ := strings.Cut(x, " -> ")
		if from != to {
			n++
			for _, y := range c.Refs {
				mutual = mutual || y == to+" -> "+from
			}
		}
	}
	e.LabelIf(mutual, "files that refer to each other")
	e.LabelIf(len(wantNames) < len(c.Defs), "files that are not referred to")
	if n > 0 {
		e.NonTrivial()
	}
}

func init() {
	pbt.Register(&pbt.Prop{
		ID: "C12",
		Subs: []*pbt.Sub{
			pbt.NewSub("references", "1-9 definitions spread over YAML files in up to 8 directories, referring to each other by variously spelled relative paths, in any order of definition and with files that refer to each other, compared with the same targets built in Go (what runs, how often, in what order, errors) and with the names that should be registered; or with one thing wrong. Non-trivial: a reference between different files, or something is wrong", 8000, 400000, c12Gen, c12Run),
		},
		Assumptions: []string{"a bare name is used only in the file at the top", "reading begins with the file at the top"},
	})
}
