package props

import (
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"github.com/bobg/fab"
	"gopkg.in/yaml.v3"
	"pgregory.net/rapid"

	"verif/pbt"
)

// C11: a target read from YAML is equivalent to the same target built in Go.

type c11Node struct {
	Kind  string     `json:",omitempty"` // ev, cmd, all, seq, deps, arg, files, clean, ref
	Name  string     `json:",omitempty"` // of the leaf, or of the definition referred to
	Exit  int        `json:",omitempty"`
	Group string     `json:",omitempty"` // leaves that wait for each other
	Size  int        `json:",omitempty"` // of the group
	Kids  []*c11Node `json:",omitempty"`
	Args  []string   `json:",omitempty"`
	In    []string   `json:",omitempty"`
	Out   []string   `json:",omitempty"`
	Auto  bool       `json:",omitempty"`
	Form  int        `json:",omitempty"` // one of several ways to write it in YAML
}

type c11Def struct {
	Name string
	Node *c11Node
}

type c11RunStep struct {
	Roots []int // definitions
	Dry   bool
	Force bool
	Edits []c04Op // before the run
}

type c11Case struct {
	Dir    string
	RelTop bool
	Defs   []c11Def
	Doc    *Y
	Steps  []c11RunStep
	Bad    string // what is wrong with Doc
	Late   bool   // it may be accepted, but must fail when run
}

type c11Maker struct {
	t     *rapid.T
	dir   string
	n     int
	files int
	defs  []c11Def
	// for the YAML text
	nodes []*Y
	which []*c11Node
}

func (m *c11Maker) leaf() *c11Node {
	m.n++
	nd := &c11Node{Kind: "ev", Name: fmt.Sprintf("L%d", m.n), Form: drawInt(m.t, 0, 3, "form")}
	if chance(m.t, 30, "cmd") {
		nd.Kind = "cmd"
	}
	if chance(m.t, 15, "fails") {
		nd.Exit = 1 + m.n
	}
	return nd
}

func (m *c11Maker) fileNames(what string, max int) []string {
	var r []string
	for k := drawInt(m.t, 0, max, what); k > 0; k-- {
		m.files++
		r = append(r, pick(m.t, "name", "f%d", "f %d", "sub/f%d", "fé%d"))
		r[len(r)-1] = fmt.Sprintf(r[len(r)-1], m.files)
	}
	return r
}

func (m *c11Maker) node(depth int) *c11Node {
	t := m.t
	k := drawInt(t, 0, 99, "kind")
	switch {
	case k < 22 && len(m.defs) > 0:
		return &c11Node{Kind: "ref", Name: m.defs[drawInt(t, 0, len(m.defs)-1, "def")].Name, Form: drawInt(t, 0, 2, "form")}
	case k < 40 || depth == 0:
		return m.leaf()
	case k < 45:
		nd := &c11Node{Kind: "clean", In: m.fileNames("files", 3), Form: drawInt(t, 0, 1, "form")}
		if chance(t, 20, "fails") {
			m.files++
			nd.In = append(nd.In, fmt.Sprintf("full%d", m.files))
		}
		return nd
	}
	nd := &c11Node{Form: drawInt(t, 0, 3, "form")}
	lo, hi := 0, 4
	switch {
	case k < 62:
		nd.Kind = "all"
	case k < 76:
		nd.Kind = "seq"
	case k < 84:
		nd.Kind, lo = "deps", 1
	case k < 92:
		nd.Kind, lo, hi = "arg", 1, 1
		for n := drawInt(t, 0, 3, "args"); n > 0; n-- {
			nd.Args = append(nd.Args, pick(t, "arg", "a", "-b", "", "a b", "1", "null", "é", "$x", "~", "true", "a: b", "#"))
		}
	default:
		nd.Kind, lo, hi = "files", 1, 1
		nd.In, nd.Out, nd.Auto = m.fileNames("in", 2), m.fileNames("out", 2), drawBool(t, "auto")
	}
	n := drawInt(t, lo, hi, "kids")
	if nd.Kind == "all" && n > 1 && chance(t, 40, "group") {
		// Leaves that prove that they run at the same time.
		for ; n > 0; n-- {
			l := m.leaf()
			l.Kind = "ev"
			l.Group = fmt.Sprintf("G%d", m.n)
			nd.Kids = append(nd.Kids, l)
		}
		for _, l := range nd.Kids {
			l.Group, l.Size = nd.Kids[0].Group, len(nd.Kids)
		}
		return nd
	}
	for ; n > 0; n-- {
		nd.Kids = append(nd.Kids, m.node(depth-1))
	}
	return nd
}

func (m *c11Maker) ref(nd *c11Node) *Y {
	s := nd.Name
	switch {
	case m.dir == "" && nd.Form == 1:
		s = "./" + s
	case m.dir != "" && nd.Form == 1:
		s = "../" + m.dir + "/" + s
	case m.dir != "":
		s = "./" + s
	}
	return ystr(s)
}

// list is what is in a list of files.
func (m *c11Maker) list(form int, xs []string) []*Y {
	k := len(xs)
	if form > 1 {
		k /= 2
	}
	r := c11Strs(xs[:k])
	if k < len(xs) {
		r = append(r, yin(m.dir, c11Strs(xs[k:])...))
	}
	return r
}

func c11Strs(xs []string) []*Y {
	var r []*Y
	for _, x := range xs {
		r = append(r, ystr(x))
	}
	return r
}

// yaml writes a node, and remembers which node is which.
func (m *c11Maker) yaml(nd *c11Node) (y *Y) {
	defer func() {
		m.nodes = append(m.nodes, y)
		m.which = append(m.which, nd)
	}()
	var kids []*Y
	for _, k := range nd.Kids {
		kids = append(kids, m.yaml(k))
	}
	switch nd.Kind {
	case "ev":
		return ymap("verif.ev", "Name", ystr(nd.Name), "Exit", yraw(fmt.Sprint(nd.Exit)), "Group", ystr(nd.Group), "Size", yraw(fmt.Sprint(nd.Size)))
	case "cmd":
		s := c11Cmd(nd)
		switch nd.Form {
		case 0:
			return ymap("Command", "Shell", ystr(s), "Stdout", ystr(">>log"))
		case 1:
			return ymap("Command", "Cmd", ystr("/bin/sh"), "Args", yseq("", m.list(2*len(nd.Name)%4, []string{"-c", s})...), "Stdout", ystr(">> log"))
		default:
			return ymap("Command", "Shell", ystr("exec >>../log; "+s), "Dir", ystr("sub"))
		}
	case "all":
		return yseq("All", kids...)
	case "seq":
		return yseq("Seq", kids...)
	case "deps":
		if nd.Form%2 == 0 {
			return yseq("Deps", kids...)
		}
		y := ymap("Deps", "Post", kids[0])
		if nd.Form > 2 || len(kids) > 1 {
			y.add("Pre", yseq("", kids[1:]...))
		}
		return y
	case "arg":
		if nd.Form > 1 && len(nd.Args) > 0 {
			return yseq("ArgTarget", append(append([]*Y{kids[0]}, c11Strs(nd.Args[:1])...), yin(m.dir, c11Strs(nd.Args[1:])...))...)
		}
		return yseq("ArgTarget", append([]*Y{kids[0]}, c11Strs(nd.Args)...)...)
	case "files":
		y := ymap("Files", "Target", kids[0])
		if nd.Form > 0 || len(nd.In) > 0 {
			y.add("In", yseq("", m.list(nd.Form, nd.In)...))
		}
		if nd.Form > 0 || len(nd.Out) > 0 {
			y.add("Out", yseq("", m.list(nd.Form, nd.Out)...))
		}
		if nd.Form > 1 || nd.Auto {
			y.add("Autoclean", yraw(fmt.Sprint(nd.Auto)))
		}
		return y
	case "clean":
		if nd.Form == 0 && !nd.Auto {
			return yseq("Clean", m.list(len(nd.In), nd.In)...)
		}
		y := ymap("Clean", "Files", yseq("", m.list(nd.Form, nd.In)...))
		if nd.Auto {
			y.add("Autoclean", yraw("true"))
		}
		return y
	}
	return m.ref(nd)
}

func c11Cmd(nd *c11Node) string {
	return fmt.Sprintf("echo b %s; echo e %s; exit %d", nd.Name, nd.Name, nd.Exit)
}

func c11Gen(t *rapid.T) c11Case {
	c := c11Case{Dir: pick(t, "dir", "", "", "d"), RelTop: drawBool(t, "relTop")}
	m := &c11Maker{t: t, dir: c.Dir}
	n := drawInt(t, 1, 5, "defs")
	for i := 0; i < n; i++ {
		nd := m.node(3)
		m.defs = append(m.defs, c11Def{pick(t, "name", "T", "a ", "", "é", "-") + fmt.Sprintf("%d", i) + pick(t, "tail", "", ":x", " y"), nd})
	}
	c.Defs = m.defs
	for k := drawInt(t, 1, 3, "steps"); k > 0; k-- {
		s := c11RunStep{Dry: chance(t, 12, "dry"), Force: chance(t, 12, "force")}
		for j := drawInt(t, 1, 2, "roots"); j > 0; j-- {
			s.Roots = append(s.Roots, n-1-drawInt(t, 0, n-1, "root"))
		}
		for j := drawInt(t, 0, 3, "edits"); j > 0; j-- {
			s.Edits = append(s.Edits, c04Op{N: drawInt(t, 0, 20, "which"), Op: pick(t, "edit", "change", "remove", "touch")})
		}
		c.Steps = append(c.Steps, s)
	}
	if chance(t, 30, "clean") {
		c.Defs = append(c.Defs, c11Def{"Clean", &c11Node{Kind: "clean", In: []string{"extra"}, Auto: true}})
		c.Steps = append(c.Steps, c11RunStep{Roots: []int{len(c.Defs) - 1}})
	}
	c.Doc = ymap("")
	for _, d := range c.Defs {
		c.Doc.add(d.Name, m.yaml(d.Node))
	}
	if c.Dir != "" {
		c.Doc.add("_dir", ystr(c.Dir))
	}
	if chance(t, 25, "corrupt") {
		c11Corrupt(t, &c, m)
	}
	c.Doc.restyle(t, false)
	return c
}

// c11Corrupt makes one thing wrong.
func c11Corrupt(t *rapid.T, c *c11Case, m *c11Maker) {
	i := drawInt(t, 0, len(m.nodes)-1, "which")
	y, nd := m.nodes[i], m.which[i]
	set := func(k string, v *Y) {
		for i := range y.Keys {
			if y.Keys[i] == k {
				y.Vals[i] = v
				return
			}
		}
		y.add(k, v)
	}
	aMap := ymap("", "k", ystr("v"))
	aSeq := yseq("", ystr("v"))
	scalar := func(tag string) *Y { return &Y{Kind: "str", Tag: tag, S: "x"} }
	switch k := drawInt(t, 0, 99, "what"); {
	case k < 12:
		c.Bad = "unknown tag"
		*y = *pick(t, "node", yseq("No.such"), ymap("no-such", "k", ystr("v")), scalar("nope"), yseq("Glob", ystr("*")), yseq("all", ystr("x")))
		return
	case k < 24:
		c.Bad = "untagged collection"
		*y = *pick(t, "node", aMap, aSeq, yseq(""), ymap(""))
		return
	case k < 44:
		c.Bad, c.Late = "name that does not exist", true
		names := []string{"Nope", "./Nope", "nodir/Nope", "../Nope", "sub/Nope"}
		*y = *ystr(pick(t, "name", names...))
		// Whatever comes before it must not fail.
		var calm func(nd *c11Node)
		calm = func(nd *c11Node) {
			nd.Exit = 0
			for _, k := range nd.Kids {
				calm(k)
			}
		}
		for i, y := range m.nodes {
			if m.which[i].Kind == "clean" {
				m.which[i].In = nil
				for j, k := range y.Keys {
					if k == "Files" {
						y.Vals[j] = yseq("")
					}
				}
				y.Seq = nil
			}
			m.which[i].Exit = 0
			for j, k := range y.Keys {
				if k == "Exit" || k == "Size" {
					y.Vals[j] = yraw("0")
				}
				if k == "Group" {
					y.Vals[j] = ystr("") // one of the group may be gone
				}
			}
			for j, v := range y.Vals {
				if v.Kind == "str" && strings.Contains(v.S, "; exit ") {
					s, _, _ := strings.Cut(v.S, "; exit ")
					y.Vals[j] = ystr(s)
				}
				for _, v := range v.Seq {
					for _, v := range append([]*Y{v}, v.Seq...) {
						if v.Kind == "str" {
							v.S, _, _ = strings.Cut(v.S, "; exit ")
						}
					}
				}
			}
		}
		c.Steps = []c11RunStep{{}}
		for i := range c.Defs {
			c.Steps[0].Roots = append(c.Steps[0].Roots, i)
		}
		return
	case k < 48:
		c.Bad = "slash in a name"
		c.Doc.add(pick(t, "name", "a/b", "/a", "a/", "./a"), ymap("Command", "Shell", ystr("true")))
		return
	case k < 51:
		c.Bad = "not a mapping"
		c.Doc = pick(t, "doc", yseq("", ystr("a")), ystr("a"))
		return
	}
	c.Bad = "malformed " + nd.Kind
	switch nd.Kind {
	case "all", "seq":
		*y = *pick(t, "node", ymap(y.Tag, "k", ystr("v")), scalar(y.Tag), yseq(y.Tag, aSeq))
	case "deps":
		*y = *pick(t, "node", yseq("Deps"), scalar("Deps"), ymap("Deps", "Pre", yseq("", ystr("a"))), ymap("Deps", "Post", ymap("Command", "Shell", ystr("true")), "Pre", ystr("a")),
			ymap("Deps", "Post", ymap("Command", "Shell", ystr("true")), "Pre", aMap), ymap("Deps", "Post", aSeq))
	case "arg":
		k := y.Seq[0]
		*y = *pick(t, "node", yseq("ArgTarget"), ymap("ArgTarget", "k", ystr("v")), scalar("ArgTarget"), yseq("ArgTarget", k, aMap), yseq("ArgTarget", k, aSeq), yseq("ArgTarget", k, scalar("nope")))
	case "files":
		switch drawInt(t, 0, 5, "how") {
		case 0:
			*y = *yseq("Files", ystr("a"))
		case 1:
			*y = *ymap("Files", "In", yseq("", ystr("a")), "Out", yseq("", ystr("b")))
		case 2:
			set(pick(t, "list", "In", "Out"), pick(t, "bad", ystr("a"), aMap, yseq("", aSeq), yseq("", scalar("nope"))))
		case 3:
			set("Autoclean", pick(t, "bad", ystr("maybe"), aSeq))
		case 4:
			set("Target", pick(t, "bad", aSeq, aMap))
		case 5:
			*y = *scalar("Files")
		}
	case "clean":
		*y = *pick(t, "node", scalar("Clean"), ymap("Clean", "Files", ystr("a")), ymap("Clean", "Files", aMap), ymap("Clean", "Autoclean", ystr("maybe")), yseq("Clean", aMap), ymap("Clean", "Files", yseq("", scalar("nope"))))
	case "cmd":
		*y = *pick(t, "node", yseq("Command", ystr("a")), scalar("Command"), ymap("Command", "Shell", aMap), ymap("Command", "Cmd", aSeq))
	default:
		*y = *yseq("All", aSeq)
	}
}

// c11World is where the leaves of the running case find each other.
type c11World struct {
	mu     sync.Mutex
	log    string
	groups map[string]chan struct{}
	counts map[string]int
}

var c11Cur *c11World

type c11Ev struct {
	Name  string
	Exit  int
	Group string
	Size  int
}

func (*c11Ev) Desc() string { return "ev" }

func (ev *c11Ev) Run(ctx context.Context, con *fab.Controller) error {
	w := c11Cur
	w.add(fmt.Sprintf("b %s %q dry=%v force=%v", ev.Name, fab.GetArgs(ctx), fab.GetDryRun(ctx), fab.GetForce(ctx)))
	if ev.Group != "" {
		w.mu.Lock()
		ch := w.groups[ev.Group]
		if ch == nil {
			ch = make(chan struct{})
			w.groups[ev.Group] = ch
		}
		w.counts[ev.Group]++
		if w.counts[ev.Group] == ev.Size {
			close(ch)
		}
		w.mu.Unlock()
		<-ch
	}
	w.add("e " + ev.Name)
	if ev.Exit != 0 {
		return &testErr{ev.Exit}
	}
	return nil
}

func (w *c11World) add(s string) {
	w.mu.Lock()
	defer w.mu.Unlock()
	f, err := os.OpenFile(w.log, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
	if err == nil {
		f.WriteString(s + "\n")
		f.Close()
	}
}

func init() {
	fab.RegisterYAMLTarget("verif.ev", func(con *fab.Controller, n *yaml.Node, dir string) (fab.Target, error) {
		var ev struct {
			Name  string `yaml:"Name"`
			Exit  int    `yaml:"Exit"`
			Group string `yaml:"Group"`
			Size  int    `yaml:"Size"`
		}
		if err := n.Decode(&ev); err != nil {
			return nil, err
		}
		return &c11Ev{ev.Name, ev.Exit, ev.Group, ev.Size}, nil
	})
}

func (nd *c11Node) goTarget(con *fab.Controller, dir string, defs map[string]fab.Target) fab.Target {
	path := func(l []string) []string {
		var r []string
		for _, s := range l {
			r = append(r, con.JoinPath(dir, s))
		}
		return r
	}
	var kids []fab.Target
	for _, k := range nd.Kids {
		kids = append(kids, k.goTarget(con, dir, defs))
	}
	switch nd.Kind {
	case "ev":
		return &c11Ev{nd.Name, nd.Exit, nd.Group, nd.Size}
	case "cmd":
		return &fab.Command{Shell: c11Cmd(nd), Dir: con.JoinPath(dir, "."), StdoutFile: ">>" + con.JoinPath(dir, "log")}
	case "all":
		return fab.All(kids...)
	case "seq":
		return fab.Seq(kids...)
	case "deps":
		return fab.Deps(kids[0], kids[1:]...)
	case "arg":
		return fab.ArgTarget(kids[0], nd.Args...)
	case "files":
		return fab.Files(kids[0], path(nd.In), path(nd.Out), fab.Autoclean(nd.Auto))
	case "clean":
		return &fab.Clean{Files: path(nd.In), Autoclean: nd.Auto}
	}
	return defs[nd.Name]
}

// errLeaves lists what an error is made of.
func errLeaves(err error) []string {
	set := map[string]bool{}
	var walk func(error)
	walk = func(err error) {
		switch x := err.(type) {
		case nil:
		case *testErr, *os.PathError, *exec.ExitError:
			set[err.Error()] = true
		case interface{ Unwrap() error }:
			if u := x.Unwrap(); u != nil {
				walk(u)
			} else {
				set[err.Error()] = true
			}
		case interface{ Unwrap() []error }:
			for _, y := range x.Unwrap() {
				walk(y)
			}
		default:
			set[err.Error()] = true
		}
	}
	walk(err)
	return sortedKeys(set)
}

type c11Outcome struct {
	log   []string
	errs  []string
	files map[string]string
}

// c11History runs all steps in a fresh project, with targets made from YAML or in Go.
func c11History(e *pbt.Env, c c11Case, src string) (out []c11Outcome, readErr error) {
	top := filepath.Join(e.Dir, "top")
	e.Must(os.RemoveAll(top))
	base := filepath.Join(top, c.Dir)
	e.Must(os.MkdirAll(filepath.Join(base, "sub"), 0o755))
	var names []string
	var walk func(nd *c11Node)
	walk = func(nd *c11Node) {
		names = append(names, nd.In...)
		names = append(names, nd.Out...)
		for _, k := range nd.Kids {
			walk(k)
		}
	}
	for _, d := range c.Defs {
		walk(d.Node)
	}
	for _, f := range names {
		if strings.HasPrefix(f, "full") {
			f += "/x"
		}
		e.WriteFile(filepath.Join(base, f), "initial "+f)
	}
	conTop := top
	if c.RelTop {
		// Names of files must not be those of another case.
		e.Must(os.Chdir(filepath.Dir(e.Dir)))
		conTop = filepath.Base(e.Dir) + "/top"
	}
	db := newMemDB()
	for _, s := range c.Steps {
		for _, op := range s.Edits {
			if len(names) == 0 {
				break
			}
			name := names[op.N%len(names)]
			if strings.HasPrefix(name, "full") {
				continue
			}
			f := filepath.Join(base, name)
			switch op.Op {
			case "change":
				old, _ := os.ReadFile(f)
				e.WriteFile(f, string(old)+"!")
			case "remove":
				os.Remove(f)
			case "touch":
				os.Chmod(f, 0o755)
			}
		}
		w := &c11World{log: filepath.Join(base, "log"), groups: map[string]chan struct{}{}, counts: map[string]int{}}
		c11Cur = w
		os.Remove(w.log)
		con := fab.NewController(conTop)
		defs := map[string]fab.Target{}
		if src != "" {
			if err := con.ReadYAML(strings.NewReader(src), c.Dir); err != nil {
				return nil, err
			}
			for _, d := range c.Defs {
				t, _ := con.RegistryTarget(filepath.Join(c.Dir, d.Name))
				if t == nil {
					e.Fatalf("%q is not registered after reading\n%s", d.Name, src)
				}
				defs[d.Name] = t
			}
		} else {
			for _, d := range c.Defs {
				defs[d.Name] = d.Node.goTarget(con, c.Dir, defs)
			}
		}
		if _, err := os.Stat(w.log); err == nil {
			e.Fatalf("something ran before it was asked for\n%s", src)
		}
		var roots []fab.Target
		for _, r := range s.Roots {
			roots = append(roots, defs[c.Defs[r].Name])
		}
		ctx := fab.WithHashDB(fab.WithForce(fab.WithDryRun(context.Background(), s.Dry), s.Force), db)
		err := con.Run(ctx, roots...)
		o := c11Outcome{errs: errLeaves(err), files: snapshot(base, false, "log")}
		if err != nil && len(o.errs) == 0 {
			o.errs = []string{"empty"}
		}
		data, _ := os.ReadFile(w.log)
		o.log = strings.Split(strings.TrimSuffix(string(data), "\n"), "\n")
		out = append(out, o)
	}
	return out, nil
}

func c11Run(e *pbt.Env, c c11Case) {
	src := c.Doc.text()
	got, readErr := c11History(e, c, src)
	if c.Bad != "" {
		e.Label("%s", c.Bad)
		e.NonTrivial()
		if readErr != nil {
			e.LabelIf(c.Late, "rejected when read")
			return
		}
		if !c.Late {
			e.Fatalf("accepted YAML with %s:\n%s", c.Bad, src)
		}
		if len(got[0].errs) == 0 {
			e.Fatalf("no error although %s is referred to:\n%s", c.Bad, src)
		}
		return
	}
	if readErr != nil {
		e.Fatalf("not accepted: %s\n%s", readErr, src)
	}
	want, _ := c11History(e, c, "")

	defs := map[string]*c11Node{}
	for _, d := range c.Defs {
		defs[d.Name] = d.Node
	}
	for i, s := range c.Steps {
		c11Compare(e, c, i, s, defs, got[i], want[i], src)
	}
	if len(want) > 1 && strings.Join(want[0].log, "") != "" {
		e.Label("several runs")
	}
}

func c11Compare(e *pbt.Env, c c11Case, step int, s c11RunStep, defs map[string]*c11Node, got, want c11Outcome, src string) {
	var roots []string
	for _, r := range s.Roots {
		roots = append(roots, c.Defs[r].Name)
	}
	where := fmt.Sprintf("run %d of %q (dry run %v, force %v)\n%s", step, roots, s.Dry, s.Force, src)

	// In how many ways, and with what arguments, is each leaf requested?
	paths := map[string]int{}
	args := map[string]map[string]bool{}
	budget := 20000
	var visit func(nd *c11Node, a string)
	visit = func(nd *c11Node, a string) {
		if budget--; budget < 0 {
			return
		}
		switch nd.Kind {
		case "ev", "cmd":
			paths[nd.Name]++
			if args[nd.Name] == nil {
				args[nd.Name] = map[string]bool{}
			}
			args[nd.Name][a] = true
		case "ref":
			visit(defs[nd.Name], a)
		case "arg":
			visit(nd.Kids[0], fmt.Sprintf("%q", nd.Args))
		default:
			for _, k := range nd.Kids {
				visit(k, a)
			}
		}
	}
	for i, r := range s.Roots {
		dup := false
		for _, q := range s.Roots[:i] {
			dup = dup || q == r
		}
		if !dup {
			visit(c.Defs[r].Node, "[]")
		}
	}
	canon := func(l []string) map[string]string {
		m := map[string]string{}
		for _, x := range l {
			if x == "" {
				continue
			}
			f := strings.SplitN(x, " ", 3)
			k := f[0] + " " + f[1]
			if _, ok := m[k]; ok {
				m[k] += " and again"
			}
			if len(f) == 3 && len(args[f[1]]) == 1 {
				m[k] += f[2] // with the arguments
			} else {
				m[k] += ""
			}
		}
		return m
	}
	if d := diffMaps(canon(want.log), canon(got.log)); d != "" {
		e.Fatalf("from YAML (second) something else is done than from Go (first):\n%s\n%s", d, where)
	}
	if !equalStrings(want.errs, got.errs) {
		e.Fatalf("from YAML the errors are %q, from Go %q\n%s", got.errs, want.errs, where)
	}
	if d := diffMaps(want.files, got.files); d != "" {
		e.Fatalf("from YAML (second) the files end up different than from Go (first):\n%s\n%s", d, where)
	}
	e.LabelIf(len(want.errs) > 0, "failures")
	e.LabelIf(s.Dry, "dry run")

	// Order.
	pos := map[string]int{}
	for i, x := range got.log {
		f := strings.Fields(x)
		if len(f) >= 2 {
			pos[f[0]+f[1]] = i + 1
		}
	}
	if budget < 0 {
		return
	}
	type key struct {
		nd   *c11Node
		sure bool
	}
	memo := map[key]map[string]bool{}
	var leaves func(nd *c11Node, sure bool) map[string]bool
	leaves = func(nd *c11Node, sure bool) map[string]bool {
		if r, ok := memo[key{nd, sure}]; ok {
			return r
		}
		r := map[string]bool{}
		switch nd.Kind {
		case "ev", "cmd":
			r[nd.Name] = true
		case "ref":
			for l := range leaves(defs[nd.Name], sure) {
				r[l] = true
			}
		}
		if !sure || nd.Kind != "files" { // which may be up to date
			for _, k := range nd.Kids {
				for l := range leaves(k, sure) {
					r[l] = true
				}
			}
		}
		memo[key{nd, sure}] = r
		return r
	}
	pairs := 0
	before := func(x, y *c11Node) {
		for a := range leaves(x, true) {
			for b := range leaves(y, false) {
				if pos["e"+a] == 0 || pos["b"+b] == 0 || paths[b] != 1 {
					continue
				}
				pairs++
				if pos["e"+a] > pos["b"+b] {
					e.Fatalf("%s started before %s had finished: %q\n%s", b, a, got.log, where)
				}
			}
		}
	}
	seen := map[*c11Node]bool{}
	var order func(nd *c11Node)
	order = func(nd *c11Node) {
		if seen[nd] {
			return
		}
		seen[nd] = true
		for i, k := range nd.Kids {
			order(k)
			for _, l := range nd.Kids[i+1:] {
				if nd.Kind == "seq" {
					before(k, l)
				}
				if nd.Kind == "deps" && i == 0 {
					before(l, k)
				}
			}
		}
		if nd.Kind == "ref" {
			order(defs[nd.Name])
		}
	}
	for _, r := range s.Roots {
		order(c.Defs[r].Node)
	}
	e.LabelIf(pairs > 0, "ordered pairs")
	shared := false
	for _, n := range paths {
		shared = shared || n > 1
	}
	e.LabelIf(shared, "shared targets")
	kinds := map[string]bool{}
	var k func(nd *c11Node)
	k = func(nd *c11Node) {
		kinds[nd.Kind] = true
		for _, x := range nd.Kids {
			k(x)
		}
	}
	for _, d := range c.Defs {
		k(d.Node)
	}
	for x := range kinds {
		e.Label("%s", x)
	}
	if len(pos) > 2 {
		e.NonTrivial()
	}
	_ = sort.Strings
}

func init() {
	pbt.Register(&pbt.Prop{
		ID: "C11",
		Subs: []*pbt.Sub{
			pbt.NewSub("equivalence", "1-5 definitions with nested !All, !Seq, !Deps (both forms), !ArgTarget, !Files, !Clean, !Command, a logging leaf and references by name, written in YAML of varying style and order, and built with the Go functions; both are run 1-4 times with edits of the files in between, and the leaves that ran, their arguments, order, errors and effects on files compared. One in four has one thing wrong: a malformed node, an unknown tag, a bad name. Non-trivial: two leaves or more ran, or something is wrong", 24000, 1500000, c11Gen, c11Run),
		},
		Assumptions: []string{"the order of leaves is judged where a model demands it", "arguments are compared for leaves that are requested with one set of arguments only"},
	})
}
