package props

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/bobg/fab"
	"gopkg.in/yaml.v3"
	"pgregory.net/rapid"

	"verif/pbt"
)

// C15: paths and file lists.

type c15Case struct {
	Top  string
	Elts []string
	Rel  string // an absolute path to make relative
}

func c15Gen(t *rapid.T) c15Case {
	seg := rapid.Custom(func(t *rapid.T) string {
		n := drawInt(t, 0, 4, "n")
		var parts []string
		for i := 0; i < n; i++ {
			parts = append(parts, pick(t, "part", "a", "b", "c d", "..", ".", "", "é", "...", ">>x", "-"))
		}
		s := strings.Join(parts, "/")
		if chance(t, 20, "abs") {
			s = "/" + s
		}
		return s
	})
	abs := rapid.Map(seg, func(s string) string { return "/" + s })
	c := c15Case{
		Top:  pick(t, "top", "/t", "/t/u", "/", "/t/../v/", "", ".", "r", "r/s", "./r"),
		Elts: rapid.SliceOfN(seg, 0, 4).Draw(t, "elts"),
		Rel:  abs.Draw(t, "rel"),
	}
	if strings.HasPrefix(c.Top, "/") && drawBool(t, "below") {
		c.Rel = c.Top + pick(t, "slash", "/", "/", "//", "/./", "/../", "") + c.Rel[1:]
	}
	return c
}

// refClean resolves . and .. and repeated slashes.
func refClean(p string) string {
	abs := strings.HasPrefix(p, "/")
	var out []string
	for _, c := range strings.Split(p, "/") {
		switch c {
		case "", ".":
		case "..":
			if len(out) > 0 && out[len(out)-1] != ".." {
				out = out[:len(out)-1]
			} else if !abs {
				out = append(out, "..")
			}
		default:
			out = append(out, c)
		}
	}
	s := strings.Join(out, "/")
	if abs {
		return "/" + s
	}
	return s
}

func refJoin(top string, elts ...string) string {
	all := append([]string{top}, elts...)
	start := 0
	for i, s := range all {
		if strings.HasPrefix(s, "/") {
			start = i
		}
	}
	var nonempty []string
	for _, s := range all[start:] {
		if s != "" {
			nonempty = append(nonempty, s)
		}
	}
	return refClean(strings.Join(nonempty, "/"))
}

func samePath(a, b string) bool {
	if a == "." {
		a = ""
	}
	if b == "." {
		b = ""
	}
	return a == b
}

func c15Run(e *pbt.Env, c c15Case) {
	con := fab.NewController(c.Top)
	elts := append([]string(nil), c.Elts...)
	got := con.JoinPath(elts...)
	if !equalStrings(elts, c.Elts) {
		e.Fatalf("JoinPath changed its arguments")
	}
	want := refJoin(c.Top, c.Elts...)
	if !samePath(got, want) {
		e.Fatalf("top %q: JoinPath(%q) is %q, want %q", c.Top, c.Elts, got, want)
	}
	anyAbs := false
	for _, x := range c.Elts {
		anyAbs = anyAbs || strings.HasPrefix(x, "/")
	}
	e.LabelIf(anyAbs, "absolute element")
	if len(c.Elts) > 1 {
		e.NonTrivial()
	}
	topAbs := strings.HasPrefix(c.Top, "/")
	if topAbs || !anyAbs {
		rel, err := con.RelPath(got)
		if err != nil {
			e.Fatalf("top %q: RelPath(%q): %s", c.Top, got, err)
		}
		if strings.HasPrefix(rel, "/") {
			e.Fatalf("top %q: RelPath(%q) is %q", c.Top, got, rel)
		}
		if back := con.JoinPath(rel); !samePath(back, want) {
			e.Fatalf("top %q: JoinPath(RelPath(%q)) = JoinPath(%q) = %q", c.Top, got, rel, back)
		}
		if !anyAbs && !strings.Contains(strings.Join(c.Elts, "/"), "..") {
			if p := refClean(strings.TrimLeft(strings.Join(c.Elts, "/"), "/")); !samePath(rel, p) {
				e.Fatalf("top %q: RelPath(JoinPath(%q)) is %q, want %q", c.Top, c.Elts, rel, p)
			}
		}
		e.Label("inverse")
	}
	if topAbs {
		rel, err := con.RelPath(c.Rel)
		if err != nil {
			e.Fatalf("top %q: RelPath(%q): %s", c.Top, c.Rel, err)
		}
		if back := con.JoinPath(rel); !samePath(back, refClean(c.Rel)) {
			e.Fatalf("top %q: RelPath(%q) is %q, which JoinPath makes %q", c.Top, c.Rel, rel, back)
		}
		if clean, err := con.RelPath(refClean(c.Rel)); err != nil || clean != rel {
			e.Fatalf("top %q: RelPath(%q) is %q, but RelPath(%q) is %q (%v)", c.Top, c.Rel, rel, refClean(c.Rel), clean, err)
		}
	}
}

// File lists.

type c15Elt struct {
	Kind string // str, glob, list, bad
	S    []string
	Kids []c15Elt // of a glob
}

type c15ListCase struct {
	Dir    string
	RelTop bool
	Files  []string // existing files, relative to the YAML directory
	List   []c15Elt
	Whole  bool // the list itself is one tagged node
	Form   int  // 0: !Clean sequence, 1: !Clean mapping, 2: YAMLFileList, 3: YAMLStringList
	Doc    *Y
}

var c15FileNames = []string{"a", "b", "ab", "a.go", "b.go", "c.txt", ".h", "a b", "x1", "é"}

func c15ListGen(t *rapid.T) c15ListCase {
	c := c15ListCase{Dir: pick(t, "dir", "", "d", "d/e"), RelTop: drawBool(t, "relTop"), Form: drawInt(t, 0, 3, "form")}
	file := rapid.Custom(func(t *rapid.T) string {
		s := pick(t, "name", c15FileNames...)
		for i := drawInt(t, 0, 2, "depth"); i > 0; i-- {
			s = pick(t, "sub", "s", "sub", "t1") + "/" + s
		}
		return s
	})
	c.Files = rapid.SliceOfNDistinct(file, 0, 12, rapid.ID[string]).Draw(t, "files")
	pattern := rapid.Custom(func(t *rapid.T) string {
		comp := rapid.SampledFrom([]string{"*", "*.go", "a*", "?", "[ab]", "[a-b].go", "[^a]*", "*b*", "s*", "??", ".*", "a", "a.go", "s", `\a`, "é"})
		var parts []string
		for i := drawInt(t, 1, 3, "n"); i > 0; i-- {
			parts = append(parts, comp.Draw(t, "comp"))
		}
		s := strings.Join(parts, "/")
		if chance(t, 3, "bad") {
			return pick(t, "badpattern", "[", "a[", `a\`, "s/[a", "[a-]x")
		}
		return s
	})
	var elt func(depth int, glob bool) c15Elt
	elt = func(depth int, glob bool) c15Elt {
		k := drawInt(t, 0, 99, "kind")
		switch {
		case k > 98:
			return c15Elt{Kind: "bad", S: []string{pick(t, "bad", "unknown", "map", "seq")}}
		case k < 35 && depth > 0:
			x := c15Elt{Kind: "glob"}
			for i := drawInt(t, 0, 3, "kids"); i > 0; i-- {
				x.Kids = append(x.Kids, elt(depth-1, true))
			}
			return x
		case k < 50:
			x := c15Elt{Kind: pick(t, "list", "list", "in")}
			for i := drawInt(t, 0, 3, "n"); i > 0; i-- {
				if glob {
					x.S = append(x.S, pattern.Draw(t, "pattern"))
				} else {
					x.S = append(x.S, file.Draw(t, "file"))
				}
			}
			return x
		default:
			if glob {
				return c15Elt{Kind: "str", S: []string{pattern.Draw(t, "pattern")}}
			}
			s := file.Draw(t, "file")
			if k > 92 {
				s = pick(t, "odd", "/abs/x", "../up", "./a", "a//b", "1", "true", "1e3", "x y", "$x", ".", "sub/..")
			}
			return c15Elt{Kind: "str", S: []string{s}}
		}
	}
	n := drawInt(t, 0, 6, "n")
	for i := 0; i < n; i++ {
		c.List = append(c.List, elt(2, false))
	}
	var render func(c15Elt) *Y
	render = func(x c15Elt) *Y {
		switch x.Kind {
		case "str":
			return ystr(x.S[0])
		case "list", "in":
			y := yseq("verif.list")
			if x.Kind == "in" {
				y = yin(c.Dir)
			}
			for _, s := range x.S {
				y.Seq = append(y.Seq, ystr(s))
			}
			return y
		case "glob":
			y := yseq("Glob")
			for _, k := range x.Kids {
				y.Seq = append(y.Seq, render(k))
			}
			return y
		default:
			switch x.S[0] {
			case "unknown":
				return yseq("no.such.tag", ystr("a"))
			case "map":
				return ymap("", "k", ystr("v"))
			default:
				return yseq("", ystr("a"))
			}
		}
	}
	y := yseq("")
	for _, x := range c.List {
		y.Seq = append(y.Seq, render(x))
	}
	c.Whole = c.Form != 0 && len(c.List) > 0 && c.List[0].Kind != "str" && c.List[0].Kind != "bad" && drawBool(t, "whole")
	if c.Whole {
		c.List = c.List[:1]
		y = y.Seq[0]
	}
	y.restyle(t, true)
	c.Doc = y
	return c
}

func init() {
	fab.RegisterYAMLStringList("verif.list", func(con *fab.Controller, n *yaml.Node, dir string) ([]string, error) {
		var s []string
		err := n.Decode(&s)
		return s, err
	})
	// The first string is the directory that the function has to be given.
	fab.RegisterYAMLStringList("verif.in", func(con *fab.Controller, n *yaml.Node, dir string) ([]string, error) {
		var s []string
		if err := n.Decode(&s); err != nil {
			return nil, err
		}
		if len(s) == 0 || s[0] != dir {
			return nil, fmt.Errorf("in a list, the directory is %q", dir)
		}
		return s[1:], nil
	})
}

// yin is a list that is right only if it is interpreted in the given directory.
func yin(dir string, xs ...*Y) *Y {
	return yseq("verif.in", append([]*Y{ystr(dir)}, xs...)...)
}

// refMatch matches one path component.
func refMatch(pat, s []rune) bool {
	if len(pat) == 0 {
		return len(s) == 0
	}
	switch pat[0] {
	case '*':
		for i := 0; i <= len(s); i++ {
			if refMatch(pat[1:], s[i:]) {
				return true
			}
		}
		return false
	case '?':
		return len(s) > 0 && refMatch(pat[1:], s[1:])
	case '[':
		if len(s) == 0 {
			return false
		}
		i, neg, in := 1, false, false
		if pat[i] == '^' {
			neg = true
			i++
		}
		for pat[i] != ']' {
			lo := pat[i]
			hi := lo
			i++
			if pat[i] == '-' {
				hi = pat[i+1]
				i += 2
			}
			if lo <= s[0] && s[0] <= hi {
				in = true
			}
		}
		return in != neg && refMatch(pat[i+1:], s[1:])
	case '\\':
		return len(s) > 0 && s[0] == pat[1] && refMatch(pat[2:], s[1:])
	}
	return len(s) > 0 && s[0] == pat[0] && refMatch(pat[1:], s[1:])
}

func badPattern(p string) bool {
	// "[a-]x" is malformed too: the range has no end.
	for _, c := range strings.Split(p, "/") {
		if c == "[" || c == "a[" || c == `a\` || c == "[a" || c == "[a-]x" {
			return true
		}
	}
	return false
}

func c15ListRun(e *pbt.Env, c c15ListCase) {
	base := filepath.Join(e.Dir, filepath.FromSlash(c.Dir))
	e.Must(os.MkdirAll(base, 0o755))
	var all []string // files and directories
	seen := map[string]bool{}
	for _, f := range c.Files {
		p := filepath.Join(base, f)
		if _, err := os.Stat(p); err == nil {
			continue
		}
		if os.MkdirAll(filepath.Dir(p), 0o755) != nil {
			continue // a file is in the way
		}
		e.Must(os.WriteFile(p, nil, 0o644))
		for f != "." && !seen[f] {
			seen[f] = true
			all = append(all, f)
			f = filepath.Dir(f)
		}
	}
	sort.Strings(all)

	fails := false
	var eval func(c15Elt) []string
	eval = func(x c15Elt) []string {
		switch x.Kind {
		case "bad":
			fails = true
			return nil
		case "glob":
			var r []string
			for _, k := range x.Kids {
				for _, p := range eval(k) {
					if badPattern(p) {
						fails = true
						continue
					}
					pc := strings.Split(p, "/")
					for _, f := range all {
						fc := strings.Split(f, "/")
						ok := len(fc) == len(pc)
						for i := 0; ok && i < len(fc); i++ {
							ok = refMatch([]rune(pc[i]), []rune(fc[i]))
						}
						if ok {
							r = append(r, f)
						}
					}
				}
			}
			return r
		}
		return x.S
	}
	type block struct {
		glob  bool
		files []string
	}
	var blocks []block
	for _, x := range c.List {
		blocks = append(blocks, block{x.Kind == "glob", eval(x)})
		e.LabelIf(x.Kind == "glob" && len(blocks[len(blocks)-1].files) > 0, "glob with matches")
		e.LabelIf(x.Kind == "glob" && len(blocks[len(blocks)-1].files) > 1, "glob with several matches")
	}

	top := e.Dir
	if c.RelTop {
		e.Must(os.Chdir(filepath.Dir(e.Dir)))
		top = filepath.Base(e.Dir)
	}
	con := fab.NewController(top)
	var (
		got []string
		err error
		src string
	)
	switch c.Form {
	case 0, 1:
		if c.Form == 0 {
			c.Doc.Tag = "Clean"
		} else {
			c.Doc = ymap("Clean", "Files", c.Doc)
		}
		src = ymap("", "T", c.Doc).text()
		if c.Dir != "" {
			src += "_dir: " + c.Dir + "\n"
		}
		err = con.ReadYAML(strings.NewReader(src), c.Dir)
		if err == nil {
			t, _ := con.RegistryTarget(filepath.Join(c.Dir, "T"))
			cl, ok := t.(*fab.Clean)
			if !ok {
				e.Fatalf("!Clean made a %T", t)
			}
			got = cl.Files
		}
	default:
		src = ymap("", "T", c.Doc).text()
		var doc yaml.Node
		if err := yaml.Unmarshal([]byte(src), &doc); err != nil {
			e.Infra("generated YAML is malformed: %s\n%s", err, src)
		}
		node := doc.Content[0].Content[1]
		if c.Form == 2 {
			got, err = con.YAMLFileList(node, c.Dir)
		} else {
			got, err = con.YAMLStringList(node, c.Dir)
		}
	}
	if fails {
		e.Label("malformed")
		if err == nil {
			e.Fatalf("accepted a malformed list:\n%s", src)
		}
		return
	}
	if err != nil {
		e.Fatalf("%s\n%s", err, src)
	}
	if len(c.List) > 0 {
		e.NonTrivial()
	}
	e.LabelIf(c.Whole, "the list is one tagged node")
	var want []string
	pos := 0
	for _, b := range blocks {
		w := append([]string(nil), b.files...)
		if c.Form != 3 {
			for i := range w {
				w[i] = refJoin(top, c.Dir, w[i])
			}
		}
		if b.glob {
			// The order in which matches come is not specified.
			sort.Strings(w)
			if pos+len(w) <= len(got) {
				sort.Strings(got[pos : pos+len(w)])
			}
		}
		want = append(want, w...)
		pos += len(w)
	}
	if !equalStrings(got, want) {
		e.Fatalf("top %q dir %q files %q\n%s\ngot  %q\nwant %q", top, c.Dir, all, src, got, want)
	}
	_ = fmt.Sprint
}

func init() {
	pbt.Register(&pbt.Prop{
		ID: "C15",
		Subs: []*pbt.Sub{
			pbt.NewSub("join", "top directories and path segments (absolute, empty, with . and ..); non-trivial: more than one segment", 40000, 4000000, c15Gen, c15Run),
			pbt.NewSub("lists", "YAML lists of strings, !Glob (nested) and a custom tag in a directory of random files, read as !Clean, YAMLFileList or YAMLStringList; non-trivial: a well-formed list that is not empty", 16000, 800000, c15ListGen, c15ListRun),
		},
	})
}
