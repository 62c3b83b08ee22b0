package props

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"

	"github.com/bobg/fab"
	"pgregory.net/rapid"

	"verif/pbt"
)

// C18: Clean removes exactly the named files.

type c18File struct {
	Name string
	Kind string // file, link, dangling, dirlink, emptydir, dir, fifo, readonly, none
}

type c18Files struct {
	Out  []int // files
	Auto bool
	YAML bool
}

type c18Clean struct {
	Files    []int
	Auto     bool
	How      string // go, seq, map
	Spell    []int  // how the names are written
	Spare    int    // spare capacity of the slice
	Odd      string // an impossible name
	Dry      bool
	Verbose  bool
	Recreate []int // before
	Nested   bool
}

type c18Case struct {
	Files  []c18File
	Rules  []c18Files
	Cleans []c18Clean
	Seed   int
	Doc    *Y
}

func c18Gen(t *rapid.T) c18Case {
	var c c18Case
	dirs := []string{"", "", "d/", "d/e/", "x y/"}
	n := drawInt(t, 1, 12, "files")
	for i := 0; i < n; i++ {
		f := c18File{Kind: pick(t, "kind", "file", "file", "file", "file", "link", "dangling", "dirlink", "emptydir", "dir", "fifo", "readonly", "none", "none")}
		f.Name = pick(t, "dir", dirs...) + fmt.Sprintf(pick(t, "name", "f%d", "%d f", "é%d", ".h%d", "-%d", "z%d"), i)
		c.Files = append(c.Files, f)
	}
	some := func(label string, max int) []int {
		var r []int
		for k := drawInt(t, 0, max, label); k > 0; k-- {
			r = append(r, uniform(t, n, "file"))
		}
		return r
	}
	for k := drawInt(t, 0, 3, "rules"); k > 0; k-- {
		r := c18Files{Auto: drawBool(t, "auto"), YAML: drawBool(t, "yaml")}
		for _, i := range some("outs", 4) {
			if c.Files[i].Kind != "dir" {
				r.Out = append(r.Out, i)
			}
		}
		c.Rules = append(c.Rules, r)
	}
	for k := drawInt(t, 1, 3, "cleans"); k > 0; k-- {
		x := c18Clean{
			Files: some("listed", 6), Auto: drawBool(t, "auto"), How: pick(t, "how", "go", "seq", "map"),
			Spare: drawInt(t, 0, 3, "spare"), Dry: chance(t, 15, "dry"), Verbose: chance(t, 20, "verbose"),
			Recreate: some("recreate", 4), Nested: chance(t, 30, "nested"),
		}
		for range x.Files {
			x.Spell = append(x.Spell, drawInt(t, 0, 3, "spell"))
		}
		if x.How == "seq" {
			x.Auto = false
		}
		if chance(t, 6, "odd") {
			x.Odd = pick(t, "name", "long", "deep/long", "nul")
		}
		// Few cases with directories that cannot be removed.
		if chance(t, 80, "possible") {
			for i, f := range x.Files {
				if c.Files[f].Kind == "dir" {
					x.Files[i] = x.Files[0]
				}
			}
			if len(x.Files) > 0 && c.Files[x.Files[0]].Kind == "dir" {
				x.Files, x.Spell = nil, nil
			}
		}
		c.Cleans = append(c.Cleans, x)
	}
	c.Seed = drawInt(t, 0, 1<<20, "seed")
	return c
}

func c18Make(e *pbt.Env, base string, f c18File) {
	p := filepath.Join(base, f.Name)
	if _, err := os.Lstat(p); err == nil {
		return
	}
	if f.Kind != "none" {
		e.Must(os.MkdirAll(filepath.Dir(p), 0o755))
	}
	switch f.Kind {
	case "file":
		e.WriteFile(p, f.Name)
	case "readonly":
		e.WriteFile(p, f.Name)
		e.Must(os.Chmod(p, 0o444))
	case "link":
		e.Must(os.Symlink(filepath.Join(base, "keep/linked"), p))
	case "dangling":
		e.Must(os.Symlink("nowhere", p))
	case "dirlink":
		e.Must(os.Symlink(filepath.Join(base, "keep"), p))
	case "emptydir":
		e.Must(os.Mkdir(p, 0o755))
	case "dir":
		e.Must(os.Mkdir(p, 0o755))
		e.WriteFile(p+"/unlisted", "x")
	case "fifo":
		e.Must(syscall.Mkfifo(p, 0o644))
	}
}

// c18Snap describes the tree without reading what is not a regular file.
func c18Snap(dir string) map[string]string {
	r := map[string]string{}
	filepath.Walk(dir, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			r[p] = err.Error()
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		s := info.Mode().String()
		if info.Mode().IsRegular() {
			data, _ := os.ReadFile(p)
			s += fmt.Sprintf(" %d %q", info.ModTime().UnixNano(), data)
		}
		if info.Mode()&os.ModeSymlink != 0 {
			l, _ := os.Readlink(p)
			s += " -> " + l
		}
		r[rel] = s
		return nil
	})
	return r
}

func c18Run(e *pbt.Env, c c18Case) {
	// Relative names begin with something unique, since some of them go into a registry of the process.
	e.Must(os.Chdir(filepath.Dir(e.Dir)))
	unique := filepath.Base(e.Dir)
	base := e.Dir + "/top"
	e.WriteFile(base+"/keep/linked", "keep")
	e.WriteFile(base+"/keep/other", "keep")
	for _, f := range c.Files {
		c18Make(e, base, f)
	}
	con := fab.NewController(base)
	auto := map[string]bool{}
	doc := ymap("")
	for i, r := range c.Rules {
		var names []string
		var ys []*Y
		for k, o := range r.Out {
			name := c.Files[o].Name
			ys = append(ys, ystr(name))
			if (k+c.Seed)%3 == 0 && !r.YAML {
				names = append(names, unique+"/top/"+name)
			} else {
				names = append(names, filepath.Join(base, name))
			}
			if r.Auto {
				auto[name] = true
			}
		}
		if r.YAML {
			doc.add(fmt.Sprint("R", i), ymap("Files", "Target", ymap("Command", "Shell", ystr("true")), "Out", yseq("", ys...), "Autoclean", yraw(fmt.Sprint(r.Auto))))
		} else {
			fab.Files(&fab.Command{Shell: "true"}, nil, names, fab.Autoclean(r.Auto))
		}
	}
	type def struct {
		backing []string
		copy    []string
		cl      *fab.Clean
		json    []byte
	}
	defs := make([]def, len(c.Cleans))
	spelled := func(name string, how int) string {
		switch how {
		case 1:
			return unique + "/top/" + name
		case 2:
			return base + "/./" + name
		case 3:
			return filepath.Dir(base) + "/top//" + name
		}
		return filepath.Join(base, name)
	}
	odd := func(s string) string {
		switch s {
		case "long":
			return base + "/" + strings.Repeat("x", 300)
		case "deep/long":
			return base + "/" + strings.Repeat("x/", 3000)
		}
		return base + "/a\x00b"
	}
	for i, x := range c.Cleans {
		if x.How != "go" {
			var ys []*Y
			for k, f := range x.Files {
				name := c.Files[f].Name
				switch x.Spell[k] {
				case 1:
					name = base + "/" + name
				case 2:
					name = "./" + name
				case 3:
					name = "keep/../" + name
				}
				ys = append(ys, ystr(name))
			}
			if x.Odd != "" {
				ys = append(ys, ystr(odd(x.Odd)))
			}
			y := yseq("Clean", ys...)
			if x.How == "map" {
				y.Tag = ""
				y = ymap("Clean", "Files", y)
				if x.Auto || c.Seed%2 == 0 {
					y.add("Autoclean", yraw(fmt.Sprint(x.Auto)))
				}
			}
			doc.add(fmt.Sprint("C", i), y)
			continue
		}
		d := &defs[i]
		for k, f := range x.Files {
			d.backing = append(d.backing, spelled(c.Files[f].Name, x.Spell[k]))
		}
		if x.Odd != "" {
			d.backing = append(d.backing, odd(x.Odd))
		}
		n := len(d.backing)
		for k := 0; k < x.Spare; k++ {
			d.backing = append(d.backing, base+"/keep/other")
		}
		d.copy = append([]string(nil), d.backing...)
		d.cl = &fab.Clean{Files: d.backing[:n], Autoclean: x.Auto}
	}
	if len(doc.Keys) > 0 {
		if err := con.ReadYAML(strings.NewReader(doc.text()), ""); err != nil {
			e.Fatalf("%s\n%s", err, doc.text())
		}
		for i, x := range c.Cleans {
			if x.How != "go" {
				t, _ := con.RegistryTarget(fmt.Sprint("C", i))
				cl, ok := t.(*fab.Clean)
				if !ok {
					e.Fatalf("!Clean made a %T", t)
				}
				defs[i].cl = cl
			}
		}
	}

	for i, x := range c.Cleans {
		d := defs[i]
		d.json, _ = json.Marshal(d.cl)
		for _, f := range x.Recreate {
			c18Make(e, base, c.Files[f])
		}
		before := c18Snap(base)
		listed := map[string]bool{}
		for _, f := range x.Files {
			listed[filepath.Clean(c.Files[f].Name)] = true
		}
		if x.Auto {
			for f := range auto {
				listed[f] = true
			}
		}
		stop := capture(e, &os.Stdout, "out")
		ctx := fab.WithVerbose(fab.WithDryRun(context.Background(), x.Dry), x.Verbose)
		runner := con
		if x.Nested {
			runner = fab.NewController(base)
		}
		var err error
		if x.Nested {
			err = runner.Run(ctx, fab.Seq(fab.All(d.cl)))
		} else {
			err = runner.Run(ctx, d.cl)
		}
		stop()
		after := c18Snap(base)

		what := fmt.Sprintf("clean %d: listed %q, dry run %v, error %v", i, sortedKeys(listed), x.Dry, err)
		want := map[string]string{}
		removed := 0
		impossible, maybe := x.Odd != "" && len(d.cl.Files) > 0, false
		for f, s := range before {
			if listed[f] {
				removed++
				if strings.HasPrefix(s, "d") {
					for g := range before {
						if strings.HasPrefix(g, f+"/") {
							if listed[g] {
								maybe = true // depends on the order
							} else {
								impossible = true
							}
						}
					}
				}
				if !x.Dry {
					continue
				}
			}
			want[f] = s
		}
		if x.Dry {
			impossible, maybe = false, false
			e.Label("dry run")
		}
		if impossible || maybe && err != nil {
			if err == nil {
				e.Fatalf("no error although something cannot be removed\n%s", what)
			}
			for f := range before {
				if _, ok := after[f]; ok || listed[f] {
					delete(want, f)
					continue
				}
				e.Fatalf("removed %s, which is not listed\n%s", f, what)
			}
			e.Label("cannot remove")
		} else {
			if err != nil {
				e.Fatalf("unexpected error\n%s", what)
			}
			if diff := diffMaps(want, after); diff != "" {
				e.Fatalf("what should be there, and what is:\n%s\n%s", diff, what)
			}
			if removed > 0 && !x.Dry {
				e.NonTrivial()
			}
		}
		e.LabelIf(x.Auto && len(auto) > 0, "autoclean")
		e.LabelIf(!x.Auto && len(auto) > 0, "no autoclean")
		if !equalStrings(d.copy, d.backing) {
			e.Fatalf("the list of files was changed from %q to %q\n%s", d.copy, d.backing, what)
		}
		if j, _ := json.Marshal(d.cl); !bytes.Equal(j, d.json) {
			e.Fatalf("the target was changed from %s to %s\n%s", d.json, j, what)
		}
	}
}

func init() {
	pbt.Register(&pbt.Prop{
		ID: "C18",
		Subs: []*pbt.Sub{
			pbt.NewSub("clean", "a tree of files, links, FIFOs and directories, Files targets with and without Autoclean, and 1-3 Clean targets from Go or YAML naming some of them in various spellings, in a slice with spare capacity; the tree is compared before and after. Non-trivial: something was removed", 10000, 400000, c18Gen, c18Run),
		},
		Known: []pbt.Known{{
			ID:   "autoclean-dir",
			Desc: "Clean with Autoclean fails on an output that is a directory with files in it, which the documentation of Files says will be deleted with everything in it",
			Fails: func(e *pbt.Env) bool {
				dir := filepath.Join(e.Dir, "out")
				e.WriteFile(dir+"/x", "x")
				fab.Files(&fab.Command{Shell: "true"}, nil, []string{dir}, fab.Autoclean(true))
				err := fab.NewController(e.Dir).Run(context.Background(), &fab.Clean{Autoclean: true})
				_, serr := os.Stat(dir)
				return err != nil || serr == nil
			},
		}},
		Assumptions: []string{"no directory that is the output of a Files target with Autoclean has files in it (known finding autoclean-dir)", "no listed name goes through a file as if it were a directory"},
	})
}
