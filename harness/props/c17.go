package props

import (
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/bobg/fab"
	"pgregory.net/rapid"

	"verif/pbt"
)

// C17: TopDir.

type c17Level struct {
	Name  string
	Fab   string // "", dir, file, linkdir, linkfile, dangling
	YAML  string // "", yaml, yml, both
	Decl  string // none, ok, wrong, abs, badyaml, list, seqdecl, null, isdir, loop
	Up    int    // for ok and wrong: number of directories in the declaration
	Wrong int    // which of them is wrong
	How   string // in what way
	Link  bool   // the directory is a symbolic link to one elsewhere
	After bool   // the declaration comes after the targets
}

type c17Case struct {
	Levels []c17Level
	From   int    // level to start at
	How    string // abs, unclean, rel, dot, dotdot
}

func c17Gen(t *rapid.T) c17Case {
	var c c17Case
	n := drawInt(t, 1, 6, "levels")
	sparse := drawInt(t, 1, 3, "sparse")
	for i := 0; i < n; i++ {
		l := c17Level{Name: pick(t, "name", "a", "b", "a b", "1", "1.5", "true", "_x", "é", "B", "ab"), Link: chance(t, 12, "link")}
		l.Fab = pick(t, "fab", "", "", "", "", "", "", "", "", "", "", "dir", "dir", "file", "linkdir", "linkfile", "dangling")
		if drawInt(t, 0, 3, "hasyaml") >= sparse {
			l.YAML = pick(t, "yaml", "yaml", "yaml", "yml", "both")
			l.Decl = pick(t, "decl", "none", "ok", "ok", "ok", "ok", "wrong", "wrong", "wrong", "abs", "badyaml", "list", "seqdecl", "null", "isdir", "loop")
			l.Up = drawInt(t, 1, i+1, "up")
			l.Wrong = drawInt(t, 0, l.Up-1, "wrong")
			l.How = pick(t, "wrongHow", "suffix", "prefix", "case", "longer", "swapped", "short", "doubled", "root")
			l.After = drawBool(t, "after")
		}
		c.Levels = append(c.Levels, l)
	}
	c.From = drawInt(t, 0, n-1, "from")
	if drawBool(t, "deepest") {
		c.From = n - 1
	}
	c.How = pick(t, "how", "abs", "unclean", "rel", "dot", "dotdot")
	if c.How == "dot" || c.How == "dotdot" {
		// The path of the current directory has no links.
		for i := range c.Levels {
			c.Levels[i].Link = false
		}
	}
	return c
}

func c17Run(e *pbt.Env, c c17Case) {
	base, err := filepath.EvalSymlinks(e.Dir)
	e.Must(err)
	for d := base; ; d = filepath.Dir(d) {
		for _, f := range []string{"_fab", "fab.yaml", "fab.yml"} {
			if _, err := os.Stat(filepath.Join(d, f)); err == nil {
				e.Infra("%s/%s exists", d, f)
			}
		}
		if d == "/" {
			break
		}
	}
	var (
		dirs  []string
		names = []string{filepath.Base(base)}
		dir   = base
	)
	for i, l := range c.Levels {
		dir = filepath.Join(dir, l.Name)
		dirs = append(dirs, dir)
		names = append(names, l.Name)
		if l.Link {
			// What encloses the other place does not count.
			real := filepath.Join(base, "elsewhere", fmt.Sprint(i), l.Name)
			e.Must(os.MkdirAll(real, 0o755))
			e.Must(os.Mkdir(filepath.Join(filepath.Dir(real), "_fab"), 0o755))
			e.Must(os.Symlink(real, dir))
			e.Label("path through a symbolic link")
		} else {
			e.Must(os.Mkdir(dir, 0o755))
		}
		switch l.Fab {
		case "linkdir":
			e.Must(os.Mkdir(filepath.Join(dir, "other"), 0o755))
			e.Must(os.Symlink("other", filepath.Join(dir, "_fab")))
		case "linkfile":
			e.WriteFile(filepath.Join(dir, "other"), "x")
			e.Must(os.Symlink("other", filepath.Join(dir, "_fab")))
		case "dangling":
			e.Must(os.Symlink("nothing", filepath.Join(dir, "_fab")))
		case "dir":
			e.Must(os.Mkdir(filepath.Join(dir, "_fab"), 0o755))
		case "file":
			e.WriteFile(filepath.Join(dir, "_fab"), "x")
		}
		if l.YAML == "" {
			continue
		}
		// The last l.Up components of dir.
		comps := append([]string(nil), names[i+2-l.Up:i+2]...)
		var decl string
		switch l.Decl {
		case "ok":
			decl = "_dir: " + quoteIf(strings.Join(comps, "/")) + "\n"
		case "wrong":
			w := &comps[l.Wrong]
			switch l.How {
			case "prefix":
				*w = "x" + *w
			case "case":
				if up := strings.ToUpper(*w); up != *w {
					*w = up
				} else {
					*w = strings.ToLower(*w)
				}
			case "longer": // right but for a component at the front
				comps = append([]string{"x"}, comps...)
			case "swapped":
				for i, j := 0, len(comps)-1; i < j; i, j = i+1, j-1 {
					comps[i], comps[j] = comps[j], comps[i]
				}
			case "short":
				if len(*w) > 1 {
					*w = (*w)[:len(*w)-1]
				}
			case "doubled":
				*w += "/" + *w
			case "root": // an absolute path, but for the slash
				comps = []string{strings.TrimPrefix(dir, "/") + "x"}
			}
			if j := strings.Join(comps, "/"); strings.HasSuffix(dir, "/"+filepath.Clean(j)) || l.How == "suffix" {
				comps[len(comps)-1] += "x"
			}
			decl = "_dir: " + strconv.Quote(strings.Join(comps, "/")) + "\n"
		case "abs":
			decl = "_dir: " + dir + "\n"
		case "seqdecl":
			decl = "_dir: [a]\n"
		case "null":
			decl = "_dir:\n"
		}
		content := "T: !Command\n  Shell: x\n"
		if l.After {
			content += decl
		} else {
			content = decl + content
		}
		switch l.Decl {
		case "badyaml":
			content = "T: [\n"
		case "list":
			content = "- T\n"
		}
		file := "fab.yaml"
		if l.YAML == "yml" {
			file = "fab.yml"
		}
		switch l.Decl {
		case "isdir":
			e.Must(os.Mkdir(filepath.Join(dir, file), 0o755))
		case "loop":
			e.Must(os.Symlink(file, filepath.Join(dir, file)))
		default:
			e.WriteFile(filepath.Join(dir, file), content)
		}
		if l.YAML == "both" {
			// fab.yml does not count.
			e.WriteFile(filepath.Join(dir, "fab.yml"), "_dir: no/such/dir\n")
		}
	}

	// The reference search.
	var (
		want string
		met  = false
	)
	for i := c.From; i >= 0 && !met; i-- {
		l := c.Levels[i]
		switch {
		case l.Fab == "dir" || l.Fab == "linkdir":
			want, met = dirs[i], true
		case l.YAML != "":
			met = true
			switch l.Decl {
			case "none", "null":
				want = dirs[i]
			case "ok":
				want = dirs[i]
				for k := 0; k < l.Up; k++ {
					want = filepath.Dir(want)
				}
			}
			e.Label("decl " + l.Decl)
			e.LabelIf(l.Decl == "wrong", "wrong: "+l.How)
			e.LabelIf(l.Decl == "ok" && l.Up > 1, "declaration with several components")
		}
		if met && i < c.From {
			e.NonTrivial()
		}
	}
	e.LabelIf(!met, "no project")

	arg := dirs[c.From]
	switch c.How {
	case "unclean":
		arg = base + "/./" + strings.TrimPrefix(arg, base) + "//"
	case "rel":
		e.Must(os.Chdir(base))
		arg, err = filepath.Rel(base, arg)
		e.Must(err)
	case "dot":
		e.Must(os.Chdir(arg))
		arg = "."
	case "dotdot":
		e.Must(os.Mkdir(filepath.Join(arg, "below"), 0o755))
		e.Must(os.Chdir(filepath.Join(arg, "below")))
		arg = ".."
	}
	got, err := fab.TopDir(arg)
	switch {
	case want == "" && err == nil:
		e.Fatalf("TopDir(%q) is %q, want an error", arg, got)
	case want != "" && err != nil:
		e.Fatalf("TopDir(%q) failed: %s, want %q", arg, err, want)
	case want != "" && got != want:
		e.Fatalf("TopDir(%q) is %q, want %q", arg, got, want)
	}
}

// quoteIf leaves most strings alone, so that declarations that look like numbers occur.
func quoteIf(s string) string {
	if s == "_x" {
		return `"_x"`
	}
	return s
}

func init() {
	pbt.Register(&pbt.Prop{
		ID: "C17",
		Subs: []*pbt.Sub{
			pbt.NewSub("tree", "chains of directories with _fab directories or files and fab.yaml or fab.yml with correct, wrong, absolute, malformed or no declarations, searched from some level given as an absolute or relative path; non-trivial: the project is found above the starting directory", 16000, 800000, c17Gen, c17Run),
		},
		Assumptions: []string{"no ancestor of the scratch directory is a project"},
	})
}
