package props

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/bobg/fab"
	"github.com/bobg/fab/sqlite"
	"pgregory.net/rapid"

	"verif/pbt"
	"verif/props/other"
)

// C04: what the up-to-date state of a Files target depends on.

// c04Node is a rule. Its JSON form, with empty lists omitted, identifies it.
type c04Node struct {
	Kind   string     `json:",omitempty"` // cmd, shell, all, seq, deps, arg, clean, files, cust, cust2, cust3, ref
	Kids   []*c04Node `json:",omitempty"`
	S      string     `json:",omitempty"` // command, shell string, name of a ref, value of a cust
	Args   []string   `json:",omitempty"` // arguments; files of a clean; inputs of a files
	Env    []string   `json:",omitempty"` // environment; outputs of a files
	Dir    string     `json:",omitempty"`
	Stdin  string     `json:",omitempty"`
	Stdout string     `json:",omitempty"`
	Stderr string     `json:",omitempty"`
	Auto   bool       `json:",omitempty"` // Autoclean
}

type c04Op struct {
	Op string
	N  int // which node, file, or name
	K  int // which part
	S  string
	S2 string
}

type c04Case struct {
	YAML bool
	Root *c04Node
	In   []string // names; directories end in a slash
	Out  []string
	Init map[string]string
	Ops  []c04Op
	Seed int // for the textual form

	Links bool // some of the files are symbolic links
}

// The size, and where it differs from others of this size, of a big content follow.
const c04Big = "\x00big "

func c04Content(s string) string {
	if !strings.HasPrefix(s, c04Big) {
		return s
	}
	var n, at int
	fmt.Sscan(s[len(c04Big):], &n, &at)
	b := bytes.Repeat([]byte("0123456789abcdef"), n/16+1)[:n]
	if at < n {
		b[at] = 'x'
	}
	return string(b)
}

var c04Strings = []string{"a", "b", "a b", "", "ab", "a\"b", "a\\b", "é", "<&>", "\u2028", "😀", "\uffff", "A=b", "a,b", "a\nb", "-n", "{}", "null", "0", "00", "1e3", "\x01", "A", "B", " a", "a ", "a\t", "\u00a0", "e\u0301"}

func c04Str(t *rapid.T, label string) string {
	if chance(t, 60, label+"-simple") {
		return pick(t, label, "a", "b", "c", "ab", "")
	}
	return pick(t, label, c04Strings...)
}

func c04Strs(t *rapid.T, label string, max int) []string {
	var r []string
	for n := drawInt(t, 0, max, label+"-n"); n > 0; n-- {
		r = append(r, c04Str(t, label))
	}
	return r
}

func c04GenCmd(t *rapid.T) *c04Node {
	nd := &c04Node{Kind: "cmd"}
	if drawBool(t, "shell") {
		nd.Kind = "shell"
		nd.S = c04Shell(c04Str(t, "word"))
	} else {
		nd.S = pick(t, "cmd", "true", "/bin/true")
		nd.Args = c04Strs(t, "args", 3)
	}
	for _, s := range c04Strs(t, "env", 2) {
		nd.Env = append(nd.Env, "V="+s)
	}
	if chance(t, 30, "hasdir") {
		nd.Dir = pick(t, "dir", "w1", "w2")
	}
	if chance(t, 30, "hasstdin") {
		nd.Stdin = pick(t, "stdin", "w1/stdin", "w2/stdin")
	}
	if chance(t, 30, "hasstdout") {
		nd.Stdout = pick(t, "stdout", "w1/o", "w2/o", ">>w1/o", ">> w1/o")
	}
	if chance(t, 30, "hasstderr") {
		nd.Stderr = pick(t, "stderr", "w1/e", "w2/e", ">>w1/e")
	}
	return nd
}

func c04Shell(word string) string {
	return ": '" + strings.ReplaceAll(word, "'", "") + "'"
}

func c04GenNode(t *rapid.T, depth int, yaml bool, names *int) *c04Node {
	k := drawInt(t, 0, 99, "kind")
	if yaml && chance(t, 25, "ref") {
		*names++
		s := fmt.Sprintf("Ref%d", *names)
		return &c04Node{Kind: "ref", S: s, Kids: []*c04Node{c04GenNode(t, depth, yaml, names)}}
	}
	if depth == 0 || k < 25 {
		if k < 4 {
			return &c04Node{Kind: "clean", Args: []string{"gone/" + pick(t, "f", "a", "b"), "gone/c"}}
		}
		return c04GenCmd(t)
	}
	nd := &c04Node{}
	lo, hi := 0, 3
	switch {
	case k < 45:
		nd.Kind = "all"
	case k < 65:
		nd.Kind = "seq"
	case k < 75:
		nd.Kind, lo = "deps", 1
	case k < 88:
		nd.Kind, lo, hi = "arg", 1, 1
		nd.Args = c04Strs(t, "args", 3)
	default:
		nd.Kind, lo, hi = "files", 1, 1
		*names++
		nd.Args, nd.Env = []string{fmt.Sprintf("w1/i%d", *names)}, []string{fmt.Sprintf("w1/o%d", *names)}
	}
	for n := drawInt(t, lo, hi, "kids"); n > 0; n-- {
		nd.Kids = append(nd.Kids, c04GenNode(t, depth-1, yaml, names))
	}
	return nd
}

func c04Gen(t *rapid.T) c04Case {
	c := c04Case{YAML: drawBool(t, "yaml"), Init: map[string]string{}, Seed: drawInt(t, 0, 1<<30, "seed")}
	c.Links = chance(t, 20, "links")
	names := 0
	if !c.YAML && chance(t, 10, "custom") {
		c.Root = &c04Node{Kind: "cust", S: c04Str(t, "value")}
	} else {
		c.Root = c04GenNode(t, 3, c.YAML, &names)
	}
	text := func() string {
		if chance(t, 80, "simple") {
			return pick(t, "text", "a", "b", "", "ab\n")
		}
		if chance(t, 50, "big") {
			// The size and the place that differs from the rest.
			n := pick(t, "size", 1<<10, 1<<12, 1<<16, 1<<18, 1<<20, 5<<20) + drawInt(t, -1, 1, "off")
			return fmt.Sprintf("%s%d %d", c04Big, n, pick(t, "pos", 0, 1, n/3, n/2, n-2, n-1))
		}
		return pick(t, "oddtext", "a\r\n", "a\n", " ", "A", "\x00", "\x00\x00", "\ufeffa", "a\n\n", "\t")
	}
	for i, n := 0, drawInt(t, 0, 4, "names"); i < n; i++ {
		name := pick(t, "name", "f%d", "f%d", "f %d", "d/f%d", "d/f%d", "f%d,x", "é%d", ".f%d", "d/.f%d", ".d/f%d", "F%d.TXT", "f%d~", "[f]%d*", "f%d.o") // in d/ or not
		name = fmt.Sprintf(name, i)
		l := &c.In
		if chance(t, 40, "out") {
			l = &c.Out
		}
		if chance(t, 30, "dir") {
			name += "/"
			c.Init[name+pick(t, "below", "x", "x", ".x", "x~", "_x", "x.tmp", "#x#", "x y")] = text()
			if drawBool(t, "more") {
				c.Init[name+pick(t, "below2", "sub/y", "sub/y", ".sub/y", "sub/.y", "a/b/c/d/e/f/g/h/y", ".git/HEAD", "node_modules/y", "_sub/y")] = text()
			}
			if chance(t, 6, "many") {
				for k := drawInt(t, 30, 300, "number"); k > 0; k-- {
					c.Init[fmt.Sprintf("%sm/%d", name, k)] = "a"
				}
			}
		} else if chance(t, 75, "exists") {
			c.Init[name] = text()
		}
		*l = append(*l, name)
	}
	kinds := []string{
		"rule", "rule", "rule", "rule", "edit", "edit", "edit", "flip", "flip", "flip", "rmfile", "addfile", "rename", "swap", "addname", "rmname", "movename", "copyname",
		"touch", "chmod", "perm", "unrelated", "rewrite", "restyle", "undo", "undo", "undo",
	}
	for n := drawInt(t, 1, 8, "ops"); n > 0; n-- {
		c.Ops = append(c.Ops, c04Op{
			Op: kinds[uniform(t, len(kinds), "op")],
			N:  drawInt(t, 0, 20, "which"),
			K:  drawInt(t, 0, 30, "part"),
			S:  c04Str(t, "s"),
			S2: text(),
		})
	}
	return c
}

// c04State is everything that may matter, and can be copied.
type c04State struct {
	Root  *c04Node
	In    []string
	Out   []string
	Files map[string]string
}

func (s c04State) copy() c04State {
	var r c04State
	j, err := json.Marshal(s)
	if err != nil {
		panic(err)
	}
	if err := json.Unmarshal(j, &r); err != nil {
		panic(err)
	}
	if r.Files == nil {
		r.Files = map[string]string{}
	}
	return r
}

// key identifies what the up-to-date state should depend on.
func (s c04State) key() string {
	rule, _ := json.Marshal(s.Root)
	list := func(names []string) []string {
		set := map[string]bool{}
		for _, n := range names {
			// An empty directory counts as nothing.
			if !strings.HasSuffix(n, "/") || s.below(n) > 0 {
				set[n] = true
			}
			if !strings.HasSuffix(n, "/") {
				if v, ok := s.Files[n]; ok {
					set[fmt.Sprintf("%q=%q", n, v)] = true
				}
				continue
			}
			for f, v := range s.Files {
				if strings.HasPrefix(f, n) {
					set[fmt.Sprintf("%q=%q", f, v)] = true
				}
			}
		}
		return sortedKeys(set)
	}
	return fmt.Sprintf("%s\nin %q\nout %q", rule, list(s.In), list(s.Out))
}

func (s c04State) below(name string) int {
	n := 0
	for f := range s.Files {
		if strings.HasPrefix(f, name) {
			n++
		}
	}
	return n
}

// listed gives the existing files that are listed or below a listed directory.
func (s c04State) listed() []string {
	var r []string
	for f := range s.Files {
		for _, n := range append(append([]string(nil), s.In...), s.Out...) {
			if f == n || strings.HasSuffix(n, "/") && strings.HasPrefix(f, n) {
				r = append(r, f)
				break
			}
		}
	}
	sort.Strings(r)
	return r
}

func (s c04State) nodes() []*c04Node {
	var r []*c04Node
	var walk func(nd *c04Node)
	walk = func(nd *c04Node) {
		r = append(r, nd)
		for _, k := range nd.Kids {
			walk(k)
		}
	}
	walk(s.Root)
	return r
}

// mutateRule changes one thing about one node.
func (s *c04State) mutateRule(op c04Op) string {
	nodes := s.nodes()
	nd := nodes[op.N%len(nodes)]
	str := func(l []string) []string {
		if len(l) == 0 {
			return []string{op.S}
		}
		i := op.K / 5 % len(l)
		switch op.K % 5 {
		case 0: // change
			l[i] = op.S
		case 1: // add
			l = append(l, op.S)
		case 2: // remove
			l = append(l[:i:i], l[i+1:]...)
		case 3: // join two
			if i+1 < len(l) {
				l = append(append(l[:i:i], l[i]+" "+l[i+1]), l[i+2:]...)
			} else {
				l = append(l, "")
			}
		default: // exchange
			l[i], l[len(l)-1] = l[len(l)-1], l[i]
		}
		return l
	}
	switch nd.Kind {
	case "cmd", "shell":
		switch op.K % 10 {
		case 8:
			// Which of two settings of one variable counts depends on the order.
			if n := len(nd.Env); n > 1 {
				nd.Env[0], nd.Env[n-1] = nd.Env[n-1], nd.Env[0]
			} else {
				nd.Env = append(nd.Env, nd.Env...)
			}
		case 0, 1, 9:
			if nd.Kind == "cmd" {
				nd.Args = str(nd.Args)
			} else {
				nd.S = c04Shell(op.S)
			}
		case 2:
			if nd.Kind == "cmd" {
				nd.S = map[string]string{"true": "/bin/true"}[nd.S]
				if nd.S == "" {
					nd.S = "true"
				}
			} else {
				nd.S += " "
			}
		case 3:
			nd.Env = append(nd.Env, "W="+op.S)
		case 4:
			if len(nd.Env) > 0 {
				nd.Env = nd.Env[1:]
			} else {
				nd.Env = []string{"V="}
			}
		case 5:
			nd.Dir = map[string]string{"": "w1", "w1": "w2", "w2": ""}[nd.Dir]
		case 6:
			nd.Stdin = map[string]string{"": "w1/stdin", "w1/stdin": "w2/stdin"}[nd.Stdin]
		default:
			if op.K%2 == 0 {
				nd.Stdout = map[string]string{"": "w1/o", "w1/o": ">>w1/o", ">>w1/o": "w2/o"}[nd.Stdout]
			} else {
				nd.Stderr = map[string]string{"": "w1/e", "w1/e": ">>w1/e", ">>w1/e": "w2/e"}[nd.Stderr]
			}
		}
		return "rule: command"
	case "clean":
		nd.Args[op.K%2] += "x"
		return "rule: clean"
	case "cust", "cust2", "cust3":
		if op.K%2 == 0 {
			kinds := []string{"cust", "cust2", "cust3"}
			for i, k := range kinds {
				if nd.Kind == k {
					nd.Kind = kinds[(i+1+op.K/2%2)%3]
					break
				}
			}
			return "rule: type"
		}
		nd.S += "x"
		return "rule: value"
	case "ref":
		if op.K%2 == 0 {
			nd.S += "x"
		} else {
			*nd = *nd.Kids[0]
		}
		return "rule: reference"
	case "arg":
		nd.Args = str(nd.Args)
		return "rule: arguments"
	case "files":
		if op.K%2 == 0 {
			nd.Args[0] += "x"
		} else {
			nd.Env = append(nd.Env, nd.Env[0]+"x")
		}
		return "rule: nested files"
	}
	// all, seq, deps
	switch op.K % 5 {
	case 0:
		nd.Kids = append(nd.Kids, &c04Node{Kind: "shell", S: c04Shell(op.S)})
		return "rule: one more"
	case 1:
		if len(nd.Kids) > 1 {
			nd.Kids = nd.Kids[:len(nd.Kids)-1]
			return "rule: one less"
		}
	case 2:
		if len(nd.Kids) > 1 && nd.Kind != "all" {
			nd.Kids[0], nd.Kids[1] = nd.Kids[1], nd.Kids[0]
			return "rule: order"
		}
	case 3:
		if nd.Kind != "deps" {
			nd.Kind = map[string]string{"all": "seq", "seq": "all"}[nd.Kind]
			return "rule: type"
		}
	}
	k := *nd
	*nd = c04Node{Kind: "seq", Kids: []*c04Node{&k}}
	return "rule: nesting"
}

type c04Cust struct{ X string }

func (*c04Cust) Run(context.Context, *fab.Controller) error { return nil }
func (*c04Cust) Desc() string                               { return "cust" }

type c04Cust2 struct{ X string }

func (*c04Cust2) Run(context.Context, *fab.Controller) error { return nil }
func (*c04Cust2) Desc() string                               { return "cust2" }

// goTarget builds a rule in Go.
func (nd *c04Node) goTarget(con *fab.Controller) fab.Target {
	var kids []fab.Target
	for _, k := range nd.Kids {
		kids = append(kids, k.goTarget(con))
	}
	path := func(s string) string {
		if s == "" {
			return ""
		}
		return con.JoinPath(s)
	}
	outPath := func(s string) string {
		if strings.HasPrefix(s, ">>") {
			return ">>" + con.JoinPath(strings.TrimLeft(s, "> "))
		}
		return path(s)
	}
	paths := func(l []string) []string {
		var r []string
		for _, s := range l {
			r = append(r, path(s))
		}
		return r
	}
	switch nd.Kind {
	case "cmd", "shell":
		c := &fab.Command{Args: append([]string(nil), nd.Args...), Env: append([]string(nil), nd.Env...), Dir: path(nd.Dir),
			StdinFile: path(nd.Stdin), StdoutFile: outPath(nd.Stdout), StderrFile: outPath(nd.Stderr)}
		if nd.Kind == "cmd" {
			c.Cmd = nd.S
		} else {
			c.Shell = nd.S
		}
		return c
	case "all":
		return fab.All(kids...)
	case "seq":
		return fab.Seq(kids...)
	case "deps":
		return fab.Deps(kids[0], kids[1:]...)
	case "arg":
		return fab.ArgTarget(kids[0], append([]string(nil), nd.Args...)...)
	case "clean":
		return &fab.Clean{Files: paths(nd.Args), Autoclean: nd.Auto}
	case "files":
		return fab.Files(kids[0], paths(nd.Args), paths(nd.Env), fab.Autoclean(nd.Auto))
	case "cust":
		return &c04Cust{nd.S}
	case "cust2":
		return &c04Cust2{nd.S}
	case "cust3":
		return other.New(nd.S) // a type of the same name as the first
	}
	panic(nd.Kind)
}

// yaml gives the definition of a rule, adding those of named parts to doc.
func (nd *c04Node) yaml(doc *Y) *Y {
	var kids []*Y
	for _, k := range nd.Kids {
		kids = append(kids, k.yaml(doc))
	}
	strs := func(l []string) *Y {
		y := yseq("")
		for _, s := range l {
			y.Seq = append(y.Seq, ystr(s))
		}
		return y
	}
	switch nd.Kind {
	case "cmd", "shell":
		y := ymap("Command")
		if nd.Kind == "cmd" {
			y.add("Cmd", ystr(nd.S)).add("Args", strs(nd.Args))
		} else {
			y.add("Shell", ystr(nd.S))
		}
		if len(nd.Env) > 0 {
			y.add("Env", strs(nd.Env))
		}
		for _, kv := range [][2]string{{"Dir", nd.Dir}, {"Stdin", nd.Stdin}, {"Stdout", nd.Stdout}, {"Stderr", nd.Stderr}} {
			if kv[1] != "" {
				y.add(kv[0], ystr(kv[1]))
			}
		}
		return y
	case "all":
		return yseq("All", kids...)
	case "seq":
		return yseq("Seq", kids...)
	case "deps":
		return ymap("Deps", "Post", kids[0], "Pre", yseq("", kids[1:]...))
	case "arg":
		return yseq("ArgTarget", append([]*Y{kids[0]}, strs(nd.Args).Seq...)...)
	case "clean":
		if nd.Auto {
			return ymap("Clean", "Files", strs(nd.Args), "Autoclean", yraw("true"))
		}
		return yseq("Clean", strs(nd.Args).Seq...)
	case "files":
		y := ymap("Files", "Target", kids[0], "In", strs(nd.Args), "Out", strs(nd.Env))
		if nd.Auto {
			y.add("Autoclean", yraw("true"))
		}
		return y
	case "ref":
		doc.add(nd.S, kids[0])
		return ystr(nd.S)
	}
	panic(nd.Kind)
}

// c04Build is one build, as done by a process of its own or not.
type c04Build struct {
	Dir     string
	YAML    string // or
	Root    *c04Node
	In, Out []string
}

// run tells whether the subtarget was executed.
func (b c04Build) run(db fab.HashDB) (bool, error) {
	con := fab.NewController(b.Dir)
	var t fab.Target
	if b.YAML != "" {
		if err := con.ReadYAML(strings.NewReader(b.YAML), ""); err != nil {
			return false, fmt.Errorf("%w in\n%s", err, b.YAML)
		}
		t, _ = con.RegistryTarget("T")
		if t == nil {
			return false, fmt.Errorf("T is not registered")
		}
	} else {
		names := func(l []string) []string {
			var r []string
			for _, s := range l {
				r = append(r, con.JoinPath(s))
			}
			return r
		}
		t = fab.Files(b.Root.goTarget(con), names(b.In), names(b.Out))
	}
	w := &c04DB{HashDB: db}
	err := con.Run(fab.WithHashDB(context.Background(), w), t)
	return !w.up, err
}

// c04DB tells whether a target was up to date:
// if it is not, adding its state is the last thing that happens.
type c04DB struct {
	fab.HashDB
	up bool // the last thing that happened is the answer that something is up to date
}

func (d *c04DB) Has(ctx context.Context, h []byte) (bool, error) {
	ok, err := d.HashDB.Has(ctx, h)
	d.up = ok
	return ok, err
}

func (d *c04DB) Add(ctx context.Context, h []byte) error {
	d.up = false
	return d.HashDB.Add(ctx, h)
}

func c04Exec(e *pbt.Env, c c04Case, ownProcess bool, build func(c04Build) (bool, error)) {
	dir := filepath.Join(e.Dir, "p")
	for _, d := range []string{"w1", "w2"} {
		e.WriteFile(filepath.Join(dir, d, "stdin"), "")
	}
	st := c04State{Root: c.Root, In: c.In, Out: c.Out, Files: map[string]string{}}
	st = st.copy()
	var (
		recorded = map[string]bool{}
		perm     int
		style    = c.Seed
		onDisk   = map[string]string{}
		now      = time.Now().Add(-time.Hour)
		links    int
	)
	for k, v := range c.Init {
		st.Files[k] = v
	}
	sync := func() {
		for f, v := range onDisk {
			if w, ok := st.Files[f]; !ok || v != w {
				e.Must(os.Remove(filepath.Join(dir, f)))
				delete(onDisk, f)
			}
		}
		for f, v := range st.Files {
			if _, ok := onDisk[f]; !ok {
				p := filepath.Join(dir, f)
				if c.Links && len(f)%3 == 0 {
					// It is somewhere else in truth.
					links++
					real := filepath.Join(e.Dir, fmt.Sprint("real", links))
					e.WriteFile(real, c04Content(v))
					e.Must(os.MkdirAll(filepath.Dir(p), 0o755))
					e.Must(os.Symlink(real, p))
				} else {
					e.WriteFile(p, c04Content(v))
				}
				// Times say nothing.
				e.Must(os.Chtimes(filepath.Join(dir, f), now, now))
				onDisk[f] = v
			}
		}
	}
	arrange := func(l []string) []string {
		r := append([]string(nil), l...)
		if perm%2 == 1 {
			for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
				r[i], r[j] = r[j], r[i]
			}
		}
		if perm%3 == 2 && len(r) > 0 {
			r = append(r, r[perm%len(r)])
		}
		return r
	}
	builds, wantRun := 0, 0
	check := func(what string) {
		sync()
		b := c04Build{Dir: dir, In: arrange(st.In), Out: arrange(st.Out)}
		if c.YAML {
			doc := ymap("")
			strs := func(l []string) *Y {
				y := yseq("")
				for _, s := range l {
					y.Seq = append(y.Seq, ystr(s))
				}
				return y
			}
			if style%2 == 0 {
				doc.add("Other", ymap("Command", "Shell", ystr(fmt.Sprint("echo ", style))))
			}
			root := st.Root.yaml(doc)
			doc.add("T", ymap("Files", "Target", root, "In", strs(b.In), "Out", strs(b.Out)))
			doc.styleBy(style)
			if style%3 == 0 {
				// The other way round.
				n := len(doc.Keys)
				for i := 0; i < n/2; i++ {
					doc.Keys[i], doc.Keys[n-1-i] = doc.Keys[n-1-i], doc.Keys[i]
					doc.Vals[i], doc.Vals[n-1-i] = doc.Vals[n-1-i], doc.Vals[i]
				}
			}
			b.YAML = doc.text()
		} else {
			b.Root = st.Root
		}
		key := st.key()
		ran, err := build(b)
		if err != nil {
			e.Fatalf("%s: %s\n%s", what, err, key)
		}
		if want := !recorded[key]; ran != want {
			e.Fatalf("%s: executed is %v, want %v\n%s", what, ran, want, key)
		}
		builds++
		if !recorded[key] {
			wantRun++
		}
		recorded[key] = true
	}
	check("first build")
	check("immediate second build")
	history := []c04State{st.copy()}
	for i, op := range c.Ops {
		label := op.Op
		listed := st.listed()
		file := ""
		if len(listed) > 0 {
			file = listed[op.N%len(listed)]
		}
		var (
			l, m = &st.In, &st.Out
		)
		if op.K%2 == 1 {
			l, m = m, l
		}
		name, at := "", 0
		if len(*l) > 0 {
			at = op.N % len(*l)
			name = (*l)[at]
			if strings.HasSuffix(name, "/") && st.below(name) == 0 {
				name = ""
			}
		}
		fresh := fmt.Sprintf("n%d", i)
		switch op.Op {
		case "rule":
			label = st.mutateRule(op)
		case "edit":
			if file != "" {
				st.Files[file] = op.S2
				if op.K%4 < 2 && !strings.HasPrefix(op.S2, c04Big) {
					st.Files[file] += fmt.Sprint(op.K % 2)
				}
			}
		case "flip":
			// The size stays.
			for _, f := range listed {
				if strings.HasPrefix(st.Files[f], c04Big) && op.N%2 == 0 {
					file = f
					break
				}
			}
			v := st.Files[file]
			if strings.HasPrefix(v, c04Big) {
				var n, at int
				fmt.Sscan(v[len(c04Big):], &n, &at)
				at = []int{0, n / 3, n/2 + 1, n - 1, n / 5, n * 4 / 5, n}[op.K%7]
				st.Files[file] = fmt.Sprintf("%s%d %d", c04Big, n, at)
			} else if v != "" {
				b := []byte(v)
				b[op.K%len(b)] = 'f'
				st.Files[file] = string(b)
			}
		case "rewrite":
			if file != "" {
				delete(onDisk, file)
				os.Remove(filepath.Join(dir, file))
			}
		case "rmfile":
			delete(st.Files, file)
		case "addfile":
			if strings.HasSuffix(name, "/") {
				st.Files[name+pick2(op.K, "", "sub/", "deep/er/", ".", ".sub/", "sub/.")+fresh] = op.S2
			} else if name != "" {
				st.Files[name] = op.S2
			}
		case "rename":
			if file != "" && strings.Contains(file, "/") {
				to := filepath.Join(filepath.Dir(file), fresh)
				st.Files[to] = st.Files[file]
				delete(st.Files, file)
			}
		case "swap":
			if file != "" {
				other := listed[op.K%len(listed)]
				st.Files[file], st.Files[other] = st.Files[other], st.Files[file]
			}
		case "addname":
			switch op.K / 2 % 3 {
			case 0:
			case 1:
				st.Files[fresh] = op.S2
			default:
				st.Files[fresh+"/x"] = op.S2
				fresh += "/"
			}
			*l = append(*l, fresh)
		case "rmname", "movename", "copyname":
			// (In one process the registry of outputs would remember earlier builds.)
			if name == "" || op.Op != "rmname" && !ownProcess {
				break
			}
			if op.Op != "copyname" {
				var r []string
				for _, n := range *l {
					if n != name {
						r = append(r, n)
					}
				}
				*l = r
			}
			if op.Op != "rmname" {
				*m = append(*m, name)
			}
		case "touch":
			if file != "" {
				at := time.Now().Add(time.Duration(op.K-15) * time.Hour)
				e.Must(os.Chtimes(filepath.Join(dir, file), at, at))
			}
		case "chmod":
			if file != "" {
				e.Must(os.Chmod(filepath.Join(dir, file), []os.FileMode{0o600, 0o755, 0o444, 0o4777}[op.K%4]))
			}
		case "perm":
			perm = op.K + 1
		case "unrelated":
			rel := pick2(op.K, "unrelated", "f0.bak", "w1/unrelated", "f0x", "d/unrelated")
			if file != "" && op.K%3 == 0 {
				rel = file + "~"
				if strings.Contains(file, "/") {
					rel = strings.TrimRight(filepath.Dir(file), "/")
					rel = strings.Split(rel, "/")[0] + "z/" + fmt.Sprint(len(op.S2))
					rel = strings.TrimRight(rel, "/\n") + "/z"
				}
			}
			e.WriteFile(filepath.Join(dir, rel), fmt.Sprint(op.S, i))
		case "restyle":
			style = op.K
		case "undo":
			st = history[op.N%len(history)].copy()
		}
		before := wantRun
		check(fmt.Sprintf("after operation %d (%s)", i, label))
		if strings.HasPrefix(label, "rule") || wantRun == before {
			e.Label("%s", label)
		} else {
			e.Label("%s: relevant", label)
		}
		history = append(history, st.copy())
	}
	if wantRun > 1 {
		e.NonTrivial()
	}
	e.LabelIf(c.YAML, "YAML")
}

func pick2(k int, xs ...string) string { return xs[k%len(xs)] }

// styleBy chooses styles by a number.
func (y *Y) styleBy(n int) {
	n = n*1103515245 + 12345
	if n < 0 {
		n = -n
	}
	k := n / 65536
	switch y.Kind {
	case "str":
		y.Style = k % 3
	case "seq", "map":
		if k%4 == 0 {
			y.Style = 1
		}
	}
	for i, x := range append(append([]*Y(nil), y.Seq...), y.Vals...) {
		x.styleBy(n + i)
	}
}

func c04Run(e *pbt.Env, c c04Case) {
	db := newMemDB()
	c04Exec(e, c, false, func(b c04Build) (bool, error) { return b.run(db) })
}

func c04ProcRun(e *pbt.Env, c c04Case) {
	dbfile := filepath.Join(e.Dir, "db")
	c04Exec(e, c, true, func(b c04Build) (bool, error) {
		j, err := json.Marshal(b)
		e.Must(err)
		out, err := exec.Command(pbt.Self(), "helper", "c04", dbfile, string(j)).CombinedOutput()
		if err != nil {
			return false, fmt.Errorf("%w: %s", err, out)
		}
		switch strings.TrimSpace(string(out)) {
		case "executed":
			return true, nil
		case "skipped":
			return false, nil
		}
		return false, fmt.Errorf("%s", out)
	})
}

func init() {
	pbt.Helpers["c04"] = func(args []string) {
		var b c04Build
		if err := json.Unmarshal([]byte(args[1]), &b); err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		db, err := sqlite.Open(args[0])
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		ran, err := b.run(db)
		switch {
		case err != nil:
			fmt.Println(err)
			os.Exit(1)
		case ran:
			fmt.Println("executed")
		default:
			fmt.Println("skipped")
		}
		db.Close()
	}
	pbt.Register(&pbt.Prop{
		ID: "C04",
		Subs: []*pbt.Sub{
			pbt.NewSub("mutate", "rule trees (Go and YAML) with file trees, and sequences of mutations of rule, names, files, or of things that must not matter, with a build after each; non-trivial: a build after the first had to execute the rule", 4000, 200000, c04Gen, c04Run),
			pbt.NewSub("process", "the same with every build in a process of its own and a database file, and names moving between inputs and outputs; non-trivial as for mutate", 250, 8000, c04Gen, c04ProcRun),
		},
		Assumptions: []string{"strings in rules are valid UTF-8", "creating, deleting or listing empty directories is not considered a change"},
	})
}
