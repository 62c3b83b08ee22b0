package props

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"

	"github.com/bobg/fab"
	"gopkg.in/yaml.v3"
	"pgregory.net/rapid"

	"verif/pbt"
)

// C13: YAML input of any content.

type c13Case struct {
	Data []byte
	How  int // 0: as the file at the top, 1: as the file in d which the top refers to, 2: from a reader, for dir "d", 3: from a reader, for the top
	Yml  bool
	Lang bool
}

var (
	c13Tags    = []string{"!All", "!Seq", "!Deps", "!ArgTarget", "!Files", "!Clean", "!Command", "!Glob", "!proto.Deps", "!verif.list", "!Nope", "!", "!!seq", "!!map", "!!str", "!!null", "!!int", "!!binary", "!<x>", "!<tag:yaml.org,2002:str>", "!all"}
	c13LangTag = []string{"!go.Binary", "!go.Deps", "!ts.Decls", "!proto.Proto", "!proto.Deps"}
	c13Fields  = []string{"Shell", "Cmd", "Args", "Env", "Dir", "Stdin", "Stdout", "Stderr", "Target", "In", "Out", "Autoclean", "Files", "Pre", "Post", "File", "Includes", "shell", "<<"}
	c13LangFld = []string{"Dir", "Out", "Flags", "Recursive", "Tests", "Type", "Prefix", "Autoclean", "Inputs", "Outputs", "Includes", "Opts", "File"}
	c13Scalars = []string{"T", "U", "./T", "d/T", "d/U", "bad/X", "nodir/X", "../T", "../../../../../../X", "/X", "/", "//", "./", "d/", "x/", ".", "..", "", "~", "null", "1", "0x1F", "1e400", ".inf", "true", "yes", "2001-01-01", "''", `"\x00"`, `"a\nb"`, "a.txt", "'*'", "'*.txt'", "'['", "'**/**'", "d", "touch marker", "$stdin", "$verbose", "'>>'", "'>> '", "'>'", "é", "\"\\ud800\"", "maybe"}
	c13Keys    = []string{"T", "U", "V", "_dir", "\"a b\"", "''", "'..'", ".", "1", "~", "<<", "\"x\\ny\"", "é", "'a/b'", "[a, b]", "{a: b}", "? x"}
)

func c13Tree(t *rapid.T, depth int, lang bool, anchors *int) string {
	s := ""
	if chance(t, 5, "anchor") {
		*anchors++
		s = fmt.Sprintf("&a%d ", *anchors)
	} else if *anchors > 0 && chance(t, 10, "alias") {
		return fmt.Sprintf("*a%d ", drawInt(t, 1, *anchors, "which"))
	}
	tags, fields := c13Tags, c13Fields
	if lang && chance(t, 60, "lang") {
		tags, fields = c13LangTag, c13LangFld
	}
	if chance(t, 45, "tagged") {
		s += tags[uniform(t, len(tags), "tag")] + " "
	}
	k := drawInt(t, 0, 99, "kind")
	switch {
	case depth == 0 || k < 45:
		return s + c13Scalars[uniform(t, len(c13Scalars), "scalar")]
	case k < 70:
		var xs []string
		for n := drawInt(t, 0, 3, "n"); n > 0; n-- {
			xs = append(xs, c13Tree(t, depth-1, lang, anchors))
		}
		return s + "[" + strings.Join(xs, ", ") + "]"
	default:
		var xs []string
		for n := drawInt(t, 0, 4, "n"); n > 0; n-- {
			key := fields[uniform(t, len(fields), "field")]
			if chance(t, 8, "odd") {
				key = c13Keys[uniform(t, len(c13Keys), "key")]
			}
			xs = append(xs, key+" : "+c13Tree(t, depth-1, lang, anchors))
		}
		return s + "{" + strings.Join(xs, ", ") + "}"
	}
}

func c13Doc(t *rapid.T, how int, lang bool) string {
	var (
		b       strings.Builder
		anchors int
	)
	if chance(t, 5, "head") {
		b.WriteString(pick(t, "headText", "---\n", "%YAML 1.1\n---\n", "# comment\n", "--- !All\n", "\ufeff", "--- &top\n"))
	}
	dir := how == 1 || how == 2
	for n := drawInt(t, 0, 5, "entries"); n > 0; n-- {
		if chance(t, 15, "comment") {
			b.WriteString(pick(t, "comment", "# doc\n", "#\n", "# doc\n#  more\n", "#\n#\n\n", "# \t\n"))
		}
		key := pick(t, "name", "T", "U", "V", "W", "X")
		if chance(t, 10, "odd") {
			key = c13Keys[uniform(t, len(c13Keys), "key")]
		}
		b.WriteString(key + ": " + c13Tree(t, 4, lang, &anchors))
		if chance(t, 5, "tail") {
			b.WriteString(" # trailing")
		}
		b.WriteString("\n")
	}
	if dir && chance(t, 90, "dirDecl") {
		b.WriteString("_dir: d\n")
	}
	if chance(t, 5, "tail") {
		b.WriteString(pick(t, "tailText", "...\n", "---\nT: x\n", "\t", "# end", "\x00"))
	}
	return b.String()
}

// c13Valid makes valid text with the help of C11 and C12.
func c13Valid(t *rapid.T, how int) string {
	if how == 1 || how == 2 {
		c := c12Gen(t)
		for i, d := range c.Dirs {
			if d != "" {
				return strings.ReplaceAll(c.Docs[i].text(), "_dir: "+d, "_dir: d")
			}
		}
	}
	c := c11Gen(t)
	return c.Doc.text()
}

func c13Gen(lang bool) func(t *rapid.T) c13Case {
	return func(t *rapid.T) c13Case {
		c := c13Case{How: drawInt(t, 0, 3, "how"), Yml: chance(t, 10, "yml"), Lang: lang}
		var data []byte
		switch k := drawInt(t, 0, 99, "source"); {
		case lang || k < 60:
			data = []byte(c13Doc(t, c.How, lang))
		case k < 85:
			data = []byte(c13Valid(t, c.How))
		case k < 92:
			data = rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(t, "bytes")
		default:
			data = rapid.SliceOfN(rapid.SampledFrom([]byte("aT: []{}!&*,\n-?|>'\"%@#~<x1\t")), 0, 40).Draw(t, "symbols")
		}
		if !lang && chance(t, 40, "mutate") {
			for n := drawInt(t, 1, 4, "mutations"); n > 0 && len(data) > 0; n-- {
				i := rapid.IntRange(0, len(data)-1).Draw(t, "at")
				j := min(len(data), i+drawInt(t, 1, 12, "len"))
				switch drawInt(t, 0, 5, "mutation") {
				case 0:
					data = append(data[:i:i], data[j:]...)
				case 1:
					data = append(data[:j:j], data[i:]...)
				case 2:
					data = append(append(data[:i:i], rapid.SliceOfN(rapid.SampledFrom([]byte("aT: []{}!&*,\n-?|>'\"%@#~<x1\t/\\\x00\xff")), 1, 3).Draw(t, "insert")...), data[i:]...)
				case 3:
					data = data[:i:i]
				case 4:
					data = append([]byte(nil), data...)
					data[i] = rapid.Byte().Draw(t, "byte")
				case 5:
					k := rapid.IntRange(0, len(data)).Draw(t, "to")
					data = append(append(data[:k:k], data[i:j]...), data[k:]...)
				}
			}
		}
		if chance(t, 2, "utf16") {
			x := []byte{0xff, 0xfe}
			for _, b := range data {
				x = append(x, b, 0)
			}
			data = x
		}
		if chance(t, 2, "deep") {
			data = append([]byte("T: "), bytes.Repeat([]byte(pick(t, "open", "[", "{a: ", "!All [", "- ", "? ")), drawInt(t, 1, 20000, "depth"))...)
		}
		c.Data = data
		return c
	}
}

func c13Run(e *pbt.Env, c c13Case) {
	top := filepath.Join(e.Dir, "top")
	name := map[bool]string{true: "fab.yml", false: "fab.yaml"}[c.Yml]
	for f, s := range map[string]string{
		"a.txt": "", "d/b.txt": "", "pb/a.proto": "import \"b.proto\";", "bad/fab.yaml": "X: [", "e/fab.yaml": "_dir: e\nE: ../T\nF: ../d/T\n",
	} {
		e.WriteFile(filepath.Join(top, f), s)
	}
	if c.Lang {
		e.WriteFile(filepath.Join(top, "go.mod"), "module m\n\ngo 1.20\n")
		e.WriteFile(filepath.Join(top, "main.go"), "package main\n\nfunc main() {}\n")
		e.WriteFile(filepath.Join(top, "d/d.go"), "package d\n\ntype T struct{}\n\nfunc (T) M(string) int { return 0 }\n")
	}
	e.Must(os.Chdir(top))
	dir, prefix := top, ""
	switch c.How {
	case 1:
		e.WriteFile(filepath.Join(top, "fab.yaml"), "Top: !All [d/T, e/E]\n")
		dir, prefix = filepath.Join(top, "d"), "d"
	case 2:
		prefix = "d"
	}
	if c.How < 2 {
		e.WriteFile(filepath.Join(dir, name), string(c.Data))
	}
	before := snapshot(top, true)

	con := fab.NewController(top)
	var err error
	if c.How < 2 {
		err = con.ReadYAMLFile("")
	} else {
		// One that gives a little at a time.
		err = con.ReadYAML(iotestReader{bytes.NewReader(c.Data)}, prefix)
	}
	if d := diffMaps(before, snapshot(top, true)); d != "" {
		e.Fatalf("reading changed files:\n%s\n%q", d, c.Data)
	}

	// Whatever happened, what is registered is usable.
	names := con.RegistryNames()
	var list bytes.Buffer
	con.ListTargets(&list)
	for _, n := range names {
		t, _ := con.RegistryTarget(n)
		if t == nil {
			e.Fatalf("%q is listed but has no target\n%q", n, c.Data)
		}
		if !bytes.Contains(list.Bytes(), []byte(n+"\n")) {
			e.Fatalf("%q is not in the list %q", n, list.Bytes())
		}
		_ = con.Describe(t)
		_ = t.Desc()
		if ts, err := con.ParseArgs([]string{n}); err != nil || len(ts) != 1 || ts[0] != t {
			e.Fatalf("%q is listed but not found: %v\n%q", n, err, c.Data)
		}
	}

	// What does the YAML library itself think?
	var doc yaml.Node
	var r io.Reader = bytes.NewReader(c.Data)
	if c.How >= 2 {
		r = iotestReader{r} // where a NUL is met decides what it thinks
	}
	yerr := yaml.NewDecoder(r).Decode(&doc)
	mapping := yerr == nil && len(doc.Content) == 1 && doc.Content[0].Kind == yaml.MappingNode
	if mapping {
		e.NonTrivial()
	}
	e.LabelIf(yerr != nil, "not YAML")
	if err != nil {
		e.LabelIf(mapping, "rejected mapping")
	} else {
		e.Label("accepted")
		if !mapping {
			e.Fatalf("accepted something that is not a mapping:\n%q", c.Data)
		}
		reg := map[string]bool{}
		for _, n := range names {
			reg[n] = true
		}
		m := doc.Content[0]
		for i := 0; i < len(m.Content); i += 2 {
			k := m.Content[i]
			if k.Kind != yaml.ScalarNode {
				e.Fatalf("accepted a name that is not a scalar:\n%q", c.Data)
			}
			if k.Value == "_dir" {
				continue
			}
			if strings.Contains(k.Value, "/") {
				e.Fatalf("accepted the name %q:\n%q", k.Value, c.Data)
			}
			if n := filepath.Join(prefix, k.Value); !reg[n] {
				e.Fatalf("%q is not registered, only %q:\n%q", n, names, c.Data)
			}
		}
		if len(m.Content) > 1 {
			e.Label("accepted with targets")
		}
	}

	if c.How < 2 {
		got, terr := fab.TopDir(dir)
		if terr == nil && !filepath.IsAbs(got) {
			e.Fatalf("TopDir gives %q\n%q", got, c.Data)
		}
	}
}

type iotestReader struct{ r io.Reader }

func (r iotestReader) Read(p []byte) (int, error) {
	if len(p) > 7 {
		p = p[:7]
	}
	return r.r.Read(p)
}

func init() {
	pbt.Register(&pbt.Prop{
		ID: "C13",
		Subs: []*pbt.Sub{
			pbt.NewSub("any text", "random trees of YAML nodes of all kinds with known and unknown tags, fields, names, anchors and aliases, in all places; valid documents; random bytes; and mutations of all of these, as the file at the top, as a file referred to, or from a reader; the project also has a malformed file and one that refers back. Non-trivial: it is YAML, with a mapping at the top", 40000, 3000000, c13Gen(false), c13Run),
			pbt.NewSub("language tags", "as above, with the tags of the packages golang, proto and ts in a Go module; non-trivial as above", 400, 20000, c13Gen(true), c13Run),
		},
		Assumptions: []string{"the tags of the packages golang and ts may run the go command"},
	})
}
