package props

import (
	"context"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/bobg/fab"
	"gopkg.in/yaml.v3"
	"pgregory.net/rapid"

	"verif/pbt"
)

// C01: one execution per target, shared outcome.

type c01Node struct {
	Kind    string  // leaf, all, seq, deps, arg, files, custom, wrap
	Kids    []int   // earlier nodes
	Reqs    [][]int // custom: what each of its goroutines requests
	Prereqs []int   // files: earlier files nodes whose output is an input
	Under   bool    // files: the output is a directory and inputs of others are below it
	Fail    bool    // leaf, custom, wrap
	Swallow bool    // custom: succeed whatever the requests return
	Pause   int     // leaf: 0 nothing, 1 yield, 2.. sleep that many times 20 microseconds
	Gone    int     // leaf: while it runs, it is requested with 1 a cancelled context, 2 one that is cancelled during the request, 3 one whose deadline passes
	Inline  bool    // in YAML: write the definition in place if there is only one reference
}

type c01Case struct {
	Nodes   []c01Node
	Phases  [][][]int // phases of concurrent calls of Run
	GC      bool
	Verbose bool
	Order   []int // in YAML: order of definitions
	Flow    bool
}

func c01Gen(yamlMode bool) func(t *rapid.T) c01Case {
	return func(t *rapid.T) c01Case {
		var c c01Case
		n := drawInt(t, 1, 20, "nodes")
		c.GC = chance(t, 30, "gc")
		c.Verbose = chance(t, 15, "verbose")
		c.Flow = drawBool(t, "flow")
		fails := pick(t, "failrate", 0, 5, 20)
		var files []int
		for i := 0; i < n; i++ {
			var nd c01Node
			kid := func() int {
				if drawBool(t, "recent") {
					return i - 1 - drawInt(t, 0, min(i-1, 3), "back")
				}
				return drawInt(t, 0, i-1, "kid")
			}
			kids := func(lo, hi int) []int {
				var r []int
				for k := drawInt(t, lo, hi, "nkids"); k > 0; k-- {
					r = append(r, kid())
				}
				return r
			}
			k := drawInt(t, 0, 99, "kind")
			switch {
			case i == 0 || k < 30:
				nd.Kind = "leaf"
				nd.Fail = chance(t, fails, "fail")
				nd.Pause = pick(t, "pause", 0, 1, 1, 2, 5, 20)
				if chance(t, 15, "gone") {
					nd.Gone, nd.Pause = drawInt(t, 1, 3, "how"), pick(t, "pause", 5, 10, 20)
				}
			case k < 45:
				nd.Kind, nd.Kids = "all", kids(0, 4)
			case k < 58:
				nd.Kind, nd.Kids = "seq", kids(0, 4)
			case k < 66:
				nd.Kind, nd.Kids = "deps", kids(1, 4)
			case k < 72:
				nd.Kind, nd.Kids = "arg", kids(1, 1)
			case k < 86:
				nd.Kind, nd.Kids = "files", kids(1, 1)
				nd.Under = chance(t, 30, "under")
				for _, f := range files {
					if chance(t, 40, "prereq") {
						nd.Prereqs = append(nd.Prereqs, f)
					}
				}
				files = append(files, i)
			case yamlMode:
				nd.Kind, nd.Kids = "all", kids(1, 3)
			case k < 95:
				nd.Kind = "custom"
				nd.Fail = chance(t, fails, "fail")
				nd.Swallow = drawBool(t, "swallow")
				for g := drawInt(t, 1, 3, "goroutines"); g > 0; g-- {
					nd.Reqs = append(nd.Reqs, kids(0, 3))
				}
			default:
				nd.Kind = "wrap"
				nd.Fail = chance(t, fails, "fail")
				nd.Kids = kids(0, 1)
				nd.Pause = pick(t, "pause", 0, 1, 3)
			}
			nd.Inline = drawBool(t, "inline")
			c.Nodes = append(c.Nodes, nd)
		}
		for p := drawInt(t, 1, 3, "phases"); p > 0; p-- {
			var phase [][]int
			for g := drawInt(t, 1, 4, "callers"); g > 0; g-- {
				var roots []int
				for r := drawInt(t, 1, 3, "roots"); r > 0; r-- {
					if drawBool(t, "late") {
						roots = append(roots, n-1-drawInt(t, 0, min(n-1, 2), "root"))
					} else {
						roots = append(roots, drawInt(t, 0, n-1, "root"))
					}
				}
				phase = append(phase, roots)
			}
			c.Phases = append(c.Phases, phase)
		}
		if yamlMode {
			idx := make([]int, n)
			for i := range idx {
				idx[i] = i
			}
			c.Order = rapid.Permutation(idx).Draw(t, "order")
		}
		return c
	}
}

// c01Model says which nodes are executed and with what result.
type c01Model struct {
	nodes []c01Node
	done  []bool
	errs  []map[int]bool // ids of the failures that the outcome of a node matches
}

func newC01Model(nodes []c01Node) *c01Model {
	return &c01Model{nodes, make([]bool, len(nodes)), make([]map[int]bool, len(nodes))}
}

func (m *c01Model) run(is ...int) map[int]bool {
	r := map[int]bool{}
	for _, i := range is {
		for k := range m.run1(i) {
			r[k] = true
		}
	}
	return r
}

func (m *c01Model) run1(i int) map[int]bool {
	if m.done[i] {
		return m.errs[i]
	}
	nd := m.nodes[i]
	r := map[int]bool{}
	switch nd.Kind {
	case "leaf":
	case "all":
		r = m.run(nd.Kids...)
	case "seq":
		for _, k := range nd.Kids {
			if r = m.run(k); len(r) > 0 {
				break
			}
		}
	case "deps":
		if r = m.run(nd.Kids[1:]...); len(r) == 0 {
			r = m.run(nd.Kids[0])
		}
	case "arg":
		r = m.run(nd.Kids...)
	case "files":
		if r = m.run(nd.Prereqs...); len(r) == 0 {
			r = m.run(nd.Kids...)
		}
	case "custom":
		for _, q := range nd.Reqs {
			x := m.run(q...)
			if !nd.Swallow {
				for k := range x {
					r[k] = true
				}
			}
		}
	case "wrap":
		r = m.run(nd.Kids...)
		if nd.Fail {
			r[1000+i] = true // the embedded target
		}
	}
	if nd.Fail && nd.Kind != "wrap" {
		cp := map[int]bool{i: true}
		for k := range r {
			cp[k] = true
		}
		r = cp
	}
	m.done[i], m.errs[i] = true, r
	return r
}

// clone shares nothing with m.
func (m *c01Model) clone() *c01Model {
	return &c01Model{m.nodes, append([]bool(nil), m.done...), append([]map[int]bool(nil), m.errs...)}
}

type c01State struct {
	e     *pbt.Env
	c     c01Case
	model *c01Model // of everything executed at the end
	full  []map[int]bool
	// closure of executions: what has finished when a node has
	need     [][]int
	tgts     []fab.Target
	started  []int32
	finished []int32
	wrapped  []int32
	late     sync.WaitGroup // requests by leaves
}

// c01Leaf is a leaf target.
type c01Leaf struct {
	st *c01State
	id int
}

func (l *c01Leaf) Desc() string { return "leaf" }

func (l *c01Leaf) Run(_ context.Context, con *fab.Controller) error {
	if gone := l.st.c.Nodes[l.id].Gone; gone > 0 {
		// Somebody who is no longer interested gets the outcome all the same.
		ctx, cancel := context.WithCancel(context.Background())
		switch gone {
		case 1:
			cancel()
		case 3:
			ctx, cancel = context.WithTimeout(ctx, 30*time.Microsecond)
		}
		l.st.late.Add(1)
		go func() {
			defer l.st.late.Done()
			defer cancel()
			err := con.Run(ctx, l)
			if atomic.LoadInt32(&l.st.finished[l.id]) == 0 {
				l.st.e.Errorf("a request for target %d with a cancelled context was given the result before the target had finished", l.id)
			}
			l.st.checkErr("a request with a cancelled context", []int{l.id}, err, l.st.full[l.id])
		}()
		pause(1)
		if gone == 2 {
			time.AfterFunc(30*time.Microsecond, cancel)
		}
	}
	return l.st.leaf(l.id)
}

func pause(p int) {
	switch {
	case p == 1:
		runtime.Gosched()
	case p > 1:
		time.Sleep(time.Duration(p) * 20 * time.Microsecond)
	}
}

func (st *c01State) leaf(i int) error {
	if atomic.AddInt32(&st.started[i], 1) > 1 {
		st.e.Errorf("target %d was executed more than once", i)
	}
	pause(st.c.Nodes[i].Pause)
	atomic.AddInt32(&st.finished[i], 1)
	if st.c.Nodes[i].Fail {
		return &testErr{i}
	}
	return nil
}

type c01Custom struct {
	st *c01State
	id int
}

func (x *c01Custom) Desc() string { return "custom" }

func (x *c01Custom) Run(ctx context.Context, con *fab.Controller) error {
	st := x.st
	if atomic.AddInt32(&st.started[x.id], 1) > 1 {
		st.e.Errorf("target %d was executed more than once", x.id)
	}
	nd := st.c.Nodes[x.id]
	errs := make([]error, len(nd.Reqs)+1)
	var wg sync.WaitGroup
	for g, q := range nd.Reqs {
		g, q := g, q
		wg.Add(1)
		go func() {
			defer wg.Done()
			errs[g] = st.request(ctx, con, fmt.Sprintf("target %d", x.id), q)
		}()
	}
	wg.Wait()
	if nd.Swallow {
		errs = make([]error, 1)
	}
	if nd.Fail {
		errs[len(errs)-1] = &testErr{x.id}
	}
	atomic.AddInt32(&st.finished[x.id], 1)
	return errors.Join(errs...)
}

// c01Inner is embedded in c01Wrap, at the same address.
type c01Inner struct {
	st *c01State
	id int
}

func (x *c01Inner) Desc() string { return "inner" }
func (x *c01Inner) Run(ctx context.Context, con *fab.Controller) error {
	if atomic.AddInt32(&x.st.wrapped[x.id], 1) > 1 {
		x.st.e.Errorf("target embedded in %d was executed more than once", x.id)
	}
	pause(x.st.c.Nodes[x.id].Pause)
	if x.st.c.Nodes[x.id].Fail {
		return &testErr{1000 + x.id}
	}
	return nil
}

type c01Wrap struct {
	c01Inner
	pad int
}

func (x *c01Wrap) Run(ctx context.Context, con *fab.Controller) error {
	st := x.st
	if atomic.AddInt32(&st.started[x.id], 1) > 1 {
		st.e.Errorf("target %d was executed more than once", x.id)
	}
	err := con.Run(ctx, &x.c01Inner)
	if atomic.LoadInt32(&st.wrapped[x.id]) == 0 {
		st.e.Errorf("target %d: the target embedded in it was not executed", x.id)
	}
	err2 := st.request(ctx, con, fmt.Sprintf("target %d", x.id), st.c.Nodes[x.id].Kids)
	atomic.AddInt32(&st.finished[x.id], 1)
	return errors.Join(err, err2)
}

// request runs targets and checks what the requester observes.
func (st *c01State) request(ctx context.Context, con *fab.Controller, who string, is []int) error {
	var ts []fab.Target
	for _, i := range is {
		ts = append(ts, st.tgts[i])
	}
	err := con.Run(ctx, ts...)
	want := map[int]bool{}
	for _, i := range is {
		for k := range st.full[i] {
			want[k] = true
		}
		for _, k := range st.need[i] {
			if st.counted(k) && atomic.LoadInt32(&st.finished[k]) == 0 {
				st.e.Errorf("%s requested %v and was given the result before target %d had finished", who, is, k)
			}
		}
	}
	st.checkErr(who, is, err, want)
	return err
}

func (st *c01State) checkErr(who string, is []int, err error, want map[int]bool) {
	if (err != nil) != (len(want) > 0) {
		st.e.Errorf("%s requested %v: got error %v, want failures %v", who, is, err, sortedInts(want))
		return
	}
	got := errIDs(err)
	if fmt.Sprint(sortedInts(got)) != fmt.Sprint(sortedInts(want)) {
		st.e.Errorf("%s requested %v: the error matches failures %v, want %v: %v", who, is, sortedInts(got), sortedInts(want), err)
	}
}

func sortedInts(m map[int]bool) []int {
	var r []int
	for k := range m {
		r = append(r, k)
	}
	sort.Ints(r)
	return r
}

// errIDs finds the identities of all testErrs that err matches.
func errIDs(err error) map[int]bool {
	r := map[int]bool{}
	var walk func(error)
	walk = func(err error) {
		switch x := err.(type) {
		case nil:
			return
		case *testErr:
			r[x.id] = true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			walk(x.Unwrap())
		case interface{ Unwrap() []error }:
			for _, y := range x.Unwrap() {
				walk(y)
			}
		}
	}
	walk(err)
	return r
}

func (st *c01State) counted(i int) bool {
	switch st.c.Nodes[i].Kind {
	case "leaf", "custom", "wrap":
		return true
	}
	return false
}

func (st *c01State) path(i int) string {
	return filepath.Join(st.e.Dir, fmt.Sprintf("out%d", i))
}

// inputs of a files node.
func (st *c01State) inputs(i int) []string {
	in := []string{filepath.Join(st.e.Dir, "src")}
	for _, p := range st.c.Nodes[i].Prereqs {
		f := st.path(p)
		if st.c.Nodes[p].Under {
			f = filepath.Join(f, "x", "y")
		}
		in = append(in, f)
	}
	return in
}

func newC01State(e *pbt.Env, c c01Case) *c01State {
	n := len(c.Nodes)
	st := &c01State{e: e, c: c, started: make([]int32, n), finished: make([]int32, n), wrapped: make([]int32, n), tgts: make([]fab.Target, n)}
	// The outcome of a node does not depend on what ran before.
	for i := range c.Nodes {
		m := newC01Model(c.Nodes)
		st.full = append(st.full, m.run(i))
		var need []int
		for k, d := range m.done {
			if d {
				need = append(need, k)
			}
		}
		st.need = append(st.need, need)
	}
	st.model = newC01Model(c.Nodes)
	return st
}

func c01Build(st *c01State) {
	c := st.c
	for i, nd := range c.Nodes {
		var kids []fab.Target
		for _, k := range nd.Kids {
			kids = append(kids, st.tgts[k])
		}
		switch nd.Kind {
		case "leaf":
			st.tgts[i] = &c01Leaf{st, i}
		case "all":
			st.tgts[i] = fab.All(kids...)
		case "seq":
			st.tgts[i] = fab.Seq(kids...)
		case "deps":
			st.tgts[i] = fab.Deps(kids[0], kids[1:]...)
		case "arg":
			st.tgts[i] = fab.ArgTarget(kids[0], "x")
		case "files":
			st.tgts[i] = fab.Files(kids[0], st.inputs(i), []string{st.path(i)})
		case "custom":
			st.tgts[i] = &c01Custom{st, i}
		case "wrap":
			st.tgts[i] = &c01Wrap{c01Inner: c01Inner{st, i}}
		}
	}
}

func (st *c01State) exec(con *fab.Controller) {
	e, c := st.e, st.c
	ctx := context.Background()
	if c.Verbose {
		ctx = fab.WithVerbose(ctx, true)
		null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
		e.Must(err)
		os.Stdout = null // put back by the framework
		e.Cleanup(func() { null.Close() })
	}
	shared := false
	for pi, phase := range c.Phases {
		var wg sync.WaitGroup
		before := st.model.clone()
		for _, roots := range phase {
			roots := roots
			for _, r := range roots {
				shared = shared || (before.done[r] || st.model.done[r])
			}
			st.model.run(roots...)
			wg.Add(1)
			go func() {
				defer wg.Done()
				st.request(ctx, con, fmt.Sprintf("phase %d", pi), roots)
			}()
		}
		wg.Wait()
		st.late.Wait()
		if c.GC {
			runtime.GC()
		}
	}
	edges := map[int]int{}
	for i, nd := range c.Nodes {
		if !st.model.done[i] {
			if st.started[i] != 0 {
				e.Errorf("target %d was executed but should not have been", i)
			}
			continue
		}
		for _, k := range nd.Kids {
			edges[k]++
		}
		for _, q := range nd.Reqs {
			for _, k := range q {
				edges[k]++
			}
		}
		for _, k := range nd.Prereqs {
			edges[k]++
			e.Label("file chaining")
		}
		if st.counted(i) && st.started[i] != 1 {
			e.Errorf("target %d was executed %d times, want once", i, st.started[i])
		}
		if nd.Kind == "wrap" && st.wrapped[i] != 1 {
			e.Errorf("target embedded in %d was executed %d times, want once", i, st.wrapped[i])
		}
		e.Label("executed " + nd.Kind)
		e.LabelIf(len(st.full[i]) > 0, "failure")
	}
	for _, n := range edges {
		if n > 1 {
			e.NonTrivial()
		}
	}
	e.LabelIf(shared, "requested again")
}

func c01Run(e *pbt.Env, c c01Case) {
	st := newC01State(e, c)
	c01Build(st)
	st.exec(fab.NewController(e.Dir))
}

// YAML

var c01Current *c01State

func init() {
	fab.RegisterYAMLTarget("verif.Leaf", func(con *fab.Controller, n *yaml.Node, dir string) (fab.Target, error) {
		id, err := strconv.Atoi(n.Value)
		if err != nil {
			return nil, err
		}
		return &c01Leaf{c01Current, id}, nil
	})
}

func c01YAMLRun(e *pbt.Env, c c01Case) {
	st := newC01State(e, c)
	c01Current = st
	refs := map[int]int{}
	for _, nd := range c.Nodes {
		for _, k := range nd.Kids {
			refs[k]++
		}
	}
	for _, p := range c.Phases {
		for _, r := range p {
			for _, i := range r {
				refs[i] += 2 // needs a name
			}
		}
	}
	for i, nd := range c.Nodes {
		if nd.Kind == "files" {
			refs[i] += 2 // others may refer to its output
		}
	}
	var def func(i int) *Y
	ref := func(i int) *Y {
		if refs[i] == 1 && c.Nodes[i].Inline {
			return def(i)
		}
		return ystr(fmt.Sprintf("N%d", i))
	}
	def = func(i int) *Y {
		nd := c.Nodes[i]
		var kids []*Y
		for _, k := range nd.Kids {
			kids = append(kids, ref(k))
		}
		strs := func(ss []string) *Y {
			y := yseq("")
			for _, s := range ss {
				y.Seq = append(y.Seq, ystr(s))
			}
			return y
		}
		switch nd.Kind {
		case "leaf":
			return &Y{Kind: "str", Tag: "verif.Leaf", S: strconv.Itoa(i)}
		case "all":
			return yseq("All", kids...)
		case "seq":
			return yseq("Seq", kids...)
		case "deps":
			if nd.Inline {
				return ymap("Deps", "Post", kids[0], "Pre", yseq("", kids[1:]...))
			}
			return yseq("Deps", kids...)
		case "arg":
			return yseq("ArgTarget", kids[0], ystr("x"))
		case "files":
			return ymap("Files", "Target", kids[0], "In", strs(st.inputs(i)), "Out", strs([]string{st.path(i)}))
		}
		panic(nd.Kind)
	}
	doc := ymap("")
	for _, i := range c.Order {
		if refs[i] == 1 && c.Nodes[i].Inline {
			continue
		}
		doc.add(fmt.Sprintf("N%d", i), def(i))
	}
	if c.Flow {
		for _, v := range doc.Vals {
			v.Style = 1
		}
	}
	con := fab.NewController(e.Dir)
	src := doc.text()
	if err := con.ReadYAML(strings.NewReader(src), ""); err != nil {
		e.Fatalf("ReadYAML: %s\n%s", err, src)
	}
	for i := range c.Nodes {
		if refs[i] == 1 && c.Nodes[i].Inline {
			continue
		}
		t, _ := con.RegistryTarget(fmt.Sprintf("N%d", i))
		if t == nil {
			e.Fatalf("N%d is not registered\n%s", i, src)
		}
		st.tgts[i] = t
	}
	st.exec(con)
}

// Targets that come and go.

type c01GCCase struct {
	Batches []int // numbers of targets made, run and dropped, between collections
	Sizes   []int // kinds of targets
	Nested  bool
}

type c01Small struct{ n *int32 }
type c01Mid struct {
	n *int32
	x [2]int
}
type c01Big struct {
	n *int32
	x [30]int
}

func (x *c01Small) Run(context.Context, *fab.Controller) error { atomic.AddInt32(x.n, 1); return nil }
func (x *c01Mid) Run(context.Context, *fab.Controller) error   { atomic.AddInt32(x.n, 1); return nil }
func (x *c01Big) Run(context.Context, *fab.Controller) error   { atomic.AddInt32(x.n, 1); return nil }
func (*c01Small) Desc() string                                 { return "small" }
func (*c01Mid) Desc() string                                   { return "mid" }
func (*c01Big) Desc() string                                   { return "big" }

func c01GCGen(t *rapid.T) c01GCCase {
	return c01GCCase{
		Batches: rapid.SliceOfN(rapid.IntRange(1, 200), 2, 6).Draw(t, "batches"),
		Sizes:   rapid.SliceOfN(rapid.IntRange(0, 5), 1, 4).Draw(t, "sizes"),
		Nested:  drawBool(t, "nested"),
	}
}

func c01GCRun(e *pbt.Env, c c01GCCase) {
	con := fab.NewController(e.Dir)
	ctx := context.Background()
	body := func(ctx context.Context) {
		k := 0
		for b, n := range c.Batches {
			for i := 0; i < n; i++ {
				k++
				var (
					count int32
					t     fab.Target
				)
				switch c.Sizes[k%len(c.Sizes)] {
				case 0:
					t = &c01Small{&count}
				case 1:
					t = &c01Mid{n: &count}
				case 2:
					t = &c01Big{n: &count}
				case 3:
					t = fab.F(func(context.Context, *fab.Controller) error { count++; return nil })
				case 4:
					t = fab.All(&c01Small{&count})
				default:
					t = fab.Seq(fab.ArgTarget(&c01Mid{n: &count}, "x"))
				}
				if err := con.Run(ctx, t); err != nil {
					e.Errorf("Run: %s", err)
				}
				if count != 1 {
					e.Errorf("batch %d: new target number %d was executed %d times", b, i, count)
					return
				}
			}
			runtime.GC()
		}
	}
	if c.Nested {
		if err := con.Run(ctx, fab.F(func(ctx context.Context, _ *fab.Controller) error { body(ctx); return nil })); err != nil {
			e.Fatalf("Run: %s", err)
		}
	} else {
		body(ctx)
	}
	e.NonTrivial()
}

func init() {
	pbt.Register(&pbt.Prop{
		ID: "C01",
		Subs: []*pbt.Sub{
			pbt.NewSub("graph", "acyclic graphs of leaves, All, Seq, Deps, ArgTarget, chained Files, targets that request others from several goroutines, and targets that embed another, run in phases of concurrent Runs; non-trivial: an executed target has more than one executed requester", 16000, 600000, c01Gen(false), c01Run),
			pbt.NewSub("yaml", "the same graphs as YAML, with references by name in any order; non-trivial as for graph", 6000, 250000, c01Gen(true), c01YAMLRun),
			pbt.NewSub("gc", "batches of new targets of several types, each run once and dropped, with garbage collections between the batches", 1600, 40000, c01GCGen, c01GCRun),
		},
		Assumptions: []string{"targets are pointers to types of non-zero size", "request graphs are acyclic"},
	})
}
