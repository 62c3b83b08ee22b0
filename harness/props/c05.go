package props

import (
	"context"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"

	"github.com/bobg/fab"
	"github.com/bobg/fab/sqlite"
	"gopkg.in/yaml.v3"
	"pgregory.net/rapid"

	"verif/pbt"
)

// C05: incremental builds of chained Files targets against a reference evaluator.

type c05Rule struct {
	In, Out []string // directories end in a slash
	InPlace string   // a source file that the rule rewrites
	Pause   int
	Go      bool  // defined with fab.Files even if others are defined in YAML
	Spell   []int // how the names are spelled then, in turn
}

type c05Op struct {
	Op    string // build, edit, del, param
	File  string
	Text  string
	Rule  int
	Roots []int
	How   string // all, seq, run, deps
	Force bool
	Fail  []int // rules that fail in this build
}

type c05Case struct {
	Rules  []c05Rule
	Init   map[string]string
	Ops    []c05Op
	YAML   bool
	SQLite bool
	Order  []int // in which the rules are defined
}

func c05Gen(t *rapid.T) c05Case {
	c := c05Case{Init: map[string]string{}, YAML: chance(t, 40, "yaml"), SQLite: chance(t, 15, "sqlite")}
	text := func() string { return pick(t, "text", "a", "b", "c", "") }
	var (
		files []string // that may be edited
		outs  []string
	)
	var srcs []string
	for i, n := 0, drawInt(t, 1, 5, "sources"); i < n; i++ {
		s := fmt.Sprintf("s%d", i)
		if chance(t, 25, "dir") {
			s += "/"
			c.Init[s+"x"] = text()
			files = append(files, s+"x", s+"y", s+"z/z")
		} else {
			if chance(t, 90, "exists") {
				c.Init[s] = text()
			}
			files = append(files, s)
		}
		srcs = append(srcs, s)
	}
	n := drawInt(t, 1, 8, "rules")
	spelled := chance(t, 50, "spelled")
	for i := 0; i < n; i++ {
		r := c05Rule{Pause: pick(t, "pause", 0, 0, 1, 2), Go: !c.YAML || chance(t, 25, "go")}
		for k := drawInt(t, 1, 5, "spellings"); spelled && k > 0; k-- {
			r.Spell = append(r.Spell, drawInt(t, 0, 5, "spelling"))
		}
		if chance(t, 15, "inplace") {
			f := fmt.Sprintf("inplace%d", i)
			c.Init[f] = text()
			files = append(files, f)
			r.InPlace = f
		}
		for k := drawInt(t, 1, 3, "ins"); k > 0; k-- {
			if len(outs) > 0 && chance(t, 70, "chained") {
				o := outs[uniform(t, len(outs), "from")]
				if strings.HasSuffix(o, "/") && chance(t, 60, "below") {
					o += pick(t, "file", "g0", "g1", "sub/g2", "extra")
				}
				r.In = append(r.In, o)
			} else {
				r.In = append(r.In, srcs[uniform(t, len(srcs), "src")])
			}
		}
		lo := 1
		if r.InPlace != "" {
			lo = 0
		}
		for k := drawInt(t, lo, 2, "outs"); k > 0; k-- {
			o := fmt.Sprintf("o%d_%d", i, k)
			if chance(t, 20, "subdir") {
				o = "gen/" + o
			}
			if chance(t, 25, "dir") {
				o += "/"
				files = append(files, o+"g0", o+"extra")
			} else {
				files = append(files, o)
			}
			r.Out = append(r.Out, o)
		}
		if r.InPlace != "" {
			r.In = append(r.In, r.InPlace)
			r.Out = append(r.Out, r.InPlace)
		}
		outs = append(outs, r.Out...)
		c.Rules = append(c.Rules, r)
		c.Order = append(c.Order, i)
	}
	c.Order = rapid.Permutation(c.Order).Draw(t, "order")
	for k := drawInt(t, 1, 14, "ops"); k > 0; k-- {
		switch x := drawInt(t, 0, 99, "op"); {
		case x < 50:
			op := c05Op{Op: "build", How: pick(t, "how", "run", "all", "seq", "deps"), Force: chance(t, 6, "force")}
			for m := drawInt(t, 1, 3, "roots"); m > 0; m-- {
				r := uniform(t, n, "root")
				if drawBool(t, "late") {
					r = n - 1 - uniform(t, (n+2)/3, "lateroot")
				}
				op.Roots = append(op.Roots, r)
			}
			for i := 0; i < n; i++ {
				if chance(t, 4, "fail") {
					op.Fail = append(op.Fail, i)
				}
			}
			c.Ops = append(c.Ops, op)
		case x < 80:
			c.Ops = append(c.Ops, c05Op{Op: "edit", File: files[uniform(t, len(files), "file")], Text: text()})
		case x < 93:
			c.Ops = append(c.Ops, c05Op{Op: "del", File: files[uniform(t, len(files), "file")]})
		default:
			c.Ops = append(c.Ops, c05Op{Op: "param", Rule: uniform(t, n, "rule")})
		}
	}
	all := c05Op{Op: "build", How: "run"}
	for i := 0; i < n; i++ {
		all.Roots = append(all.Roots, i)
	}
	c.Ops = append(c.Ops, all)
	return c
}

type c05State struct {
	e      *pbt.Env
	c      c05Case
	dir    string
	params []int

	mu   sync.Mutex
	runs map[int]int
	fail map[int]bool
}

var c05Current *c05State

type c05Target struct {
	Rule, Param int
	st          *c05State
}

func (*c05Target) Desc() string { return "rule" }

var errC05 = errors.New("rule failed")

func (x *c05Target) Run(context.Context, *fab.Controller) error {
	st := x.st
	st.mu.Lock()
	st.runs[x.Rule]++
	fail := st.fail[x.Rule]
	st.mu.Unlock()
	r := st.c.Rules[x.Rule]
	pause(r.Pause)
	fs := map[string]string{}
	for _, in := range r.In {
		c05Read(st.dir, in, fs)
	}
	want := map[string]string{}
	c05Eval(st.c.Rules[x.Rule], x.Rule, x.Param, fs, want)
	for _, o := range r.Out {
		if fail && o == r.InPlace {
			continue
		}
		p := filepath.Join(st.dir, o)
		if strings.HasSuffix(o, "/") {
			os.RemoveAll(p)
			st.must(os.MkdirAll(p, 0o755))
		}
		for f, v := range want {
			if f != o && !(strings.HasSuffix(o, "/") && strings.HasPrefix(f, o)) {
				continue
			}
			if fail {
				v = "partial"
			}
			p := filepath.Join(st.dir, f)
			st.must(os.MkdirAll(filepath.Dir(p), 0o755))
			st.must(os.WriteFile(p, []byte(v), 0o644))
		}
		if fail {
			break
		}
	}
	pause(r.Pause)
	if fail {
		return errC05
	}
	return nil
}

func (st *c05State) must(err error) {
	if err != nil {
		st.e.Errorf("harness: %s", err)
	}
}

// c05Read adds a file, or the files below a directory, to fs.
func c05Read(dir, name string, fs map[string]string) {
	filepath.Walk(filepath.Join(dir, name), func(p string, info os.FileInfo, err error) error {
		if err == nil && info.Mode().IsRegular() {
			data, err := os.ReadFile(p)
			if err == nil {
				rel, _ := filepath.Rel(dir, p)
				fs[rel] = string(data)
			}
		}
		return nil
	})
}

// c05Eval says what a rule makes of the files in fs.
func c05Eval(r c05Rule, i, param int, fs, out map[string]string) {
	var b strings.Builder
	fmt.Fprintf(&b, "rule %d %d", i, param)
	for _, in := range r.In {
		if in == r.InPlace {
			// Otherwise the result would depend on whether the rule has run.
			fmt.Fprintf(&b, " [%s]", strings.TrimPrefix(fs[in], "formatted "))
			continue
		}
		var names []string
		for f := range fs {
			if f == in || strings.HasSuffix(in, "/") && strings.HasPrefix(f, in) {
				names = append(names, f)
			}
		}
		sort.Strings(names)
		for _, f := range names {
			fmt.Fprintf(&b, " %s=%q", f, fs[f])
		}
		fmt.Fprintf(&b, ";")
	}
	h := c03Hash(b.String())
	for k, o := range r.Out {
		switch {
		case o == r.InPlace:
			out[o] = "formatted " + strings.TrimPrefix(fs[o], "formatted ")
		case strings.HasSuffix(o, "/"):
			out[o+"g0"] = fmt.Sprintf("%x.%d", h, k)
			if h%2 == 0 {
				out[o+"g1"] = "constant"
			}
			if h%3 == 0 {
				out[o+"sub/g2"] = fmt.Sprintf("%x", h/7)
			}
		case h%5 == 0:
			out[o] = "often the same"
		default:
			out[o] = fmt.Sprintf("%x.%d", h, k)
		}
	}
}

func init() {
	fab.RegisterYAMLTarget("verif.Rule", func(con *fab.Controller, n *yaml.Node, dir string) (fab.Target, error) {
		i, err := strconv.Atoi(n.Value)
		if err != nil {
			return nil, err
		}
		return &c05Target{Rule: i, Param: c05Current.params[i], st: c05Current}, nil
	})
}

func c05Run(e *pbt.Env, c c05Case) {
	st := &c05State{e: e, c: c, dir: filepath.Join(e.Dir, "p"), params: make([]int, len(c.Rules))}
	c05Current = st
	for f, v := range c.Init {
		e.WriteFile(filepath.Join(st.dir, f), v)
	}
	e.Must(os.MkdirAll(st.dir, 0o755))
	for _, r := range c.Rules {
		for _, l := range [][]string{r.In, r.Out} {
			for _, f := range l {
				if strings.HasSuffix(f, "/") {
					e.Must(os.MkdirAll(filepath.Join(st.dir, f), 0o755))
				} else {
					e.Must(os.MkdirAll(filepath.Dir(filepath.Join(st.dir, f)), 0o755))
				}
			}
		}
	}
	var db fab.HashDB = newMemDB()
	if c.SQLite {
		d, err := sqlite.Open(filepath.Join(e.Dir, "db"))
		e.Must(err)
		e.Cleanup(func() { d.Close() })
		db = d
	}
	// Producers of each rule's inputs.
	needs := make([][]int, len(c.Rules))
	for i, r := range c.Rules {
		for _, in := range r.In {
			for k, q := range c.Rules {
				for _, o := range q.Out {
					if k != i && (o == in || strings.HasSuffix(o, "/") && strings.HasPrefix(in, o)) {
						needs[i] = append(needs[i], k)
					}
				}
			}
		}
	}
	var (
		skipped, executed, edited int
		multi                     bool
	)
	build := func(what string, op c05Op) bool {
		st.runs, st.fail = map[int]int{}, map[int]bool{}
		for _, i := range op.Fail {
			st.fail[i] = true
		}
		con := fab.NewController(st.dir)
		ts := make([]fab.Target, len(c.Rules))
		if c.YAML {
			doc := ymap("")
			for _, i := range c.Order {
				r := c.Rules[i]
				if r.Go {
					continue
				}
				list := func(l []string) *Y {
					y := yseq("")
					for _, s := range l {
						y.Seq = append(y.Seq, ystr(s))
					}
					return y
				}
				doc.add(fmt.Sprint("R", i), ymap("Files", "Target", &Y{Kind: "str", Tag: "verif.Rule", S: fmt.Sprint(i)}, "In", list(r.In), "Out", list(r.Out)))
			}
			if err := con.ReadYAML(strings.NewReader(doc.text()), ""); err != nil {
				e.Fatalf("ReadYAML: %s\n%s", err, doc.text())
			}
			for i := range ts {
				ts[i], _ = con.RegistryTarget(fmt.Sprint("R", i))
			}
		}
		for _, i := range c.Order {
			if r := c.Rules[i]; r.Go {
				n := 0
				list := func(l []string) []string {
					var out []string
					for _, s := range l {
						how := 0
						if len(r.Spell) > 0 {
							how = r.Spell[n%len(r.Spell)]
							n++
						}
						out = append(out, c05Spell(e, filepath.Join(st.dir, s), strings.HasSuffix(s, "/"), how))
					}
					return out
				}
				ts[i] = fab.Files(&c05Target{Rule: i, Param: st.params[i], st: st}, list(r.In), list(r.Out))
			}
		}
		before := map[string]string{}
		c05Read(st.dir, ".", before)
		closure := map[int]bool{}
		var add func(i int)
		add = func(i int) {
			closure[i] = true
			for _, k := range needs[i] {
				add(k)
			}
		}
		var roots []fab.Target
		for _, i := range op.Roots {
			add(i)
			roots = append(roots, ts[i])
		}
		ctx := fab.WithForce(fab.WithHashDB(context.Background(), db), op.Force)
		var err error
		switch op.How {
		case "all":
			err = con.Run(ctx, fab.All(roots...))
		case "seq":
			err = con.Run(ctx, fab.Seq(roots...))
		case "deps":
			err = con.Run(ctx, fab.Deps(roots[0], roots[1:]...))
		default:
			err = con.Run(ctx, roots...)
		}
		failed := false
		for i := range c.Rules {
			n := st.runs[i]
			if n > 1 {
				e.Fatalf("%s: rule %d was executed %d times in one build", what, i, n)
			}
			if n > 0 && !closure[i] {
				e.Fatalf("%s: rule %d was executed but is not needed for %v", what, i, op.Roots)
			}
			if n == 0 && closure[i] {
				skipped++
			}
			executed += n
			failed = failed || n > 0 && st.fail[i]
		}
		if failed != (err != nil) {
			e.Fatalf("%s: a rule failed: %v, but the build's error is %v", what, failed, err)
		}
		if failed {
			e.Label("failing rule")
			return false
		}
		want := map[string]string{}
		for f, v := range before {
			want[f] = v
		}
		for i, r := range c.Rules { // they are in topological order
			if !closure[i] {
				continue
			}
			res := map[string]string{}
			c05Eval(r, i, st.params[i], want, res)
			for f := range want {
				for _, o := range r.Out {
					if f == o || strings.HasSuffix(o, "/") && strings.HasPrefix(f, o) {
						delete(want, f)
					}
				}
			}
			for f, v := range res {
				want[f] = v
			}
		}
		got := map[string]string{}
		c05Read(st.dir, ".", got)
		if d := diffMaps(want, got); d != "" {
			e.Fatalf("%s of %v: not what a clean build gives (executed %v):\n%s", what, op.Roots, st.runs, d)
		}
		multi = multi || len(closure) > len(op.Roots)
		return true
	}
	for step, op := range c.Ops {
		what := fmt.Sprintf("step %d (%s)", step, op.Op)
		p := filepath.Join(st.dir, op.File)
		switch op.Op {
		case "edit":
			if c05Blocked(st.dir, op.File) {
				continue
			}
			e.WriteFile(p, op.Text)
			edited++
		case "del":
			os.Remove(p)
			edited++
		case "param":
			st.params[op.Rule]++
		case "build":
			if !build(what, op) {
				continue
			}
			n := executed
			op.Force, op.Fail = false, nil
			build(what+", repeated", op)
			if executed != n {
				e.Fatalf("%s: the build was repeated at once and executed %v", what, st.runs)
			}
		}
	}
	if skipped > 0 && executed > 0 && edited > 0 && multi {
		e.NonTrivial()
	}
	for _, r := range c.Rules {
		e.LabelIf(c.YAML && r.Go, "Go and YAML")
		e.LabelIf(len(r.Spell) > 0, "unusual spelling")
	}
	e.LabelIf(c.YAML, "YAML")
	e.LabelIf(multi, "prerequisites by file name")
	e.LabelIf(c.SQLite, "SQLite")
}

// c05Spell spells an absolute name in one of several ways.
func c05Spell(e *pbt.Env, name string, isdir bool, how int) string {
	switch how {
	case 1:
		name = filepath.Dir(name) + "/./" + filepath.Base(name)
	case 2:
		name = filepath.Dir(name) + "//" + filepath.Base(name)
	case 3:
		d := filepath.Dir(name)
		name = d + "/../" + filepath.Base(d) + "/" + filepath.Base(name)
	case 4, 5:
		wd, err := os.Getwd()
		e.Must(err)
		name, err = filepath.Rel(wd, name)
		e.Must(err)
		if how == 5 {
			name = "./" + name
		}
	}
	if isdir && how != 0 {
		name += "/"
	}
	return name
}

// c05Blocked tells whether a directory that the file would be in is a file.
func c05Blocked(dir, name string) bool {
	for d := filepath.Dir(name); d != "."; d = filepath.Dir(d) {
		if info, err := os.Lstat(filepath.Join(dir, d)); err == nil && !info.IsDir() {
			return true
		}
	}
	info, err := os.Lstat(filepath.Join(dir, name))
	return err == nil && info.IsDir()
}

func init() {
	pbt.Register(&pbt.Prop{
		ID: "C05",
		Subs: []*pbt.Sub{
			pbt.NewSub("history", "directed acyclic graphs of Files rules chained by file and directory names, from Go and YAML, with histories of edits of sources and intermediate files, rule changes, failing rules and builds; every build is compared with a reference evaluator and repeated; non-trivial: edits happened, prerequisites were found by file name, rules were executed and rules were skipped", 4000, 200000, c05Gen, c05Run),
		},
		Assumptions: []string{"rules are deterministic functions of the files they list, and in-place rules are idempotent"},
	})
}
