package props

import (
	"context"
	"errors"
	"fmt"
	"sync"
	"time"

	"github.com/bobg/fab"
	"pgregory.net/rapid"

	"verif/pbt"
)

// C02: ordering, early stop, concurrency, errors.

type c02Node struct {
	Kind  string // leaf, bad, all, seq, deps, arg, files
	Kids  []c02Node
	Fail  bool
	Late  bool // a leaf that ends after others that it may run at the same time as
	Pause int
}

type c02Case struct {
	Roots []c02Node
	Again bool // run everything a second time
}

func c02Gen(t *rapid.T) c02Case {
	fails := pick(t, "failrate", 0, 3, 15, 40)
	left := drawInt(t, 1, 24, "size")
	var gen func(depth int) c02Node
	gen = func(depth int) c02Node {
		left--
		k := drawInt(t, 0, 99, "kind")
		if depth == 0 || k < 25 || left <= 0 {
			if chance(t, 2, "bad") {
				return c02Node{Kind: "bad"}
			}
			return c02Node{Kind: "leaf", Fail: chance(t, fails, "fail"), Pause: pick(t, "pause", 0, 0, 1, 3), Late: chance(t, 8, "late")}
		}
		n := c02Node{Kind: "all"}
		lo, hi := 0, 5
		switch {
		case k < 50:
		case k < 75:
			n.Kind = "seq"
		case k < 90:
			n.Kind, lo = "deps", 1
		case k < 95:
			n.Kind, lo, hi = "arg", 1, 1
		default:
			n.Kind, lo, hi = "files", 1, 1
		}
		for i := drawInt(t, lo, hi, "kids"); i > 0; i-- {
			n.Kids = append(n.Kids, gen(depth-1))
		}
		return n
	}
	var c c02Case
	for i := drawInt(t, 1, 3, "roots"); i > 0; i-- {
		c.Roots = append(c.Roots, gen(4))
	}
	c.Again = chance(t, 20, "again")
	return c
}

type c02Group struct {
	n    int // members
	here int
	fast int // members that are not late
	done int // of those
	c    *sync.Cond
}

type c02State struct {
	e       *pbt.Env
	mu      sync.Mutex
	clock   int
	start   map[int]int
	end     map[int]int
	leaves  []c02Node
	groups  []*c02Group
	running int
}

func (st *c02State) leafTarget(nd c02Node, g *c02Group) (fab.Target, int) {
	id := len(st.leaves)
	st.leaves = append(st.leaves, nd)
	g.n++
	if !nd.Late {
		g.fast++
	}
	return fab.F(func(ctx context.Context, _ *fab.Controller) error {
		st.mu.Lock()
		if _, ok := st.start[id]; ok {
			st.e.Errorf("leaf %d started twice", id)
		}
		st.clock++
		st.start[id] = st.clock
		st.running++
		g.here++
		if g.here >= g.n {
			g.c.Broadcast()
		}
		// Everything that may start together must get here before any of it ends.
		for g.here < g.n {
			g.c.Wait()
		}
		for nd.Late && g.done < g.fast {
			g.c.Wait()
		}
		st.mu.Unlock()
		pause(nd.Pause)
		if nd.Late {
			time.Sleep(300 * time.Microsecond)
			if err := ctx.Err(); err != nil {
				st.e.Errorf("leaf %d: the context has ended, though nobody ended it: %s", id, err)
			}
		}
		st.mu.Lock()
		defer st.mu.Unlock()
		st.clock++
		st.end[id] = st.clock
		st.running--
		if !nd.Late {
			g.done++
			g.c.Broadcast()
		}
		if nd.Fail {
			return &testErr{id}
		}
		return nil
	}), id
}

// c02Plan is a node with the leaves below it.
type c02Plan struct {
	kind   string
	kids   []*c02Plan
	leaf   int
	fail   bool
	leaves []int
	t      fab.Target
}

func (st *c02State) newGroup() *c02Group {
	return &c02Group{c: sync.NewCond(&st.mu)}
}

func (st *c02State) build(nd c02Node, g *c02Group) *c02Plan {
	p := &c02Plan{kind: nd.Kind, fail: nd.Fail, leaf: -1}
	var kids []fab.Target
	add := func(k *c02Plan) {
		p.kids = append(p.kids, k)
		p.leaves = append(p.leaves, k.leaves...)
		kids = append(kids, k.t)
	}
	switch nd.Kind {
	case "leaf":
		p.t, p.leaf = st.leafTarget(nd, g)
		p.leaves = []int{p.leaf}
	case "bad":
		p.t = c14Bad{}
		p.fail = true
	case "all":
		for _, k := range nd.Kids {
			add(st.build(k, g))
		}
		p.t = fab.All(kids...)
	case "seq":
		cur := g
		for _, k := range nd.Kids {
			kp := st.build(k, cur)
			add(kp)
			if len(kp.leaves) > 0 || kp.fails() {
				cur = st.newGroup()
			}
		}
		p.t = fab.Seq(kids...)
	case "deps":
		fails := false
		for _, k := range nd.Kids[1:] {
			kp := st.build(k, g)
			add(kp)
			fails = fails || kp.fails()
		}
		if len(p.leaves) > 0 || fails {
			g = st.newGroup()
		}
		mp := st.build(nd.Kids[0], g)
		p.t = fab.Deps(mp.t, kids...)
		add(mp)
	case "arg":
		add(st.build(nd.Kids[0], g))
		p.t = fab.ArgTarget(kids[0])
	case "files":
		add(st.build(nd.Kids[0], g))
		p.t = fab.Files(kids[0], nil, []string{fmt.Sprintf("%s/o%d", st.e.Dir, len(st.leaves))})
	}
	return p
}

const c02Bad = -1

// fails tells whether running p on its own fails.
func (p *c02Plan) fails() bool { return len(p.model(map[int]bool{})) > 0 }

// model gives the executed leaves and the failures.
func (p *c02Plan) model(ran map[int]bool) map[int]bool {
	errs := map[int]bool{}
	add := func(m map[int]bool) {
		for k := range m {
			errs[k] = true
		}
	}
	switch p.kind {
	case "leaf":
		ran[p.leaf] = true
		if p.fail {
			errs[p.leaf] = true
		}
	case "bad":
		errs[c02Bad] = true
	case "seq":
		for _, k := range p.kids {
			if add(k.model(ran)); len(errs) > 0 {
				break
			}
		}
	case "deps":
		last := len(p.kids) - 1
		for _, k := range p.kids[:last] {
			add(k.model(ran))
		}
		if len(errs) == 0 {
			add(p.kids[last].model(ran))
		}
	default:
		for _, k := range p.kids {
			add(k.model(ran))
		}
	}
	return errs
}

// order checks that what must come before something else did.
func (st *c02State) order(p *c02Plan) {
	before := func(a, b []int) {
		for _, i := range a {
			for _, k := range b {
				s, ok := st.start[k]
				if !ok {
					continue
				}
				if en, ok := st.end[i]; ok && en > s {
					st.e.Errorf("%s: leaf %d started before leaf %d had ended", p.kind, k, i)
				}
			}
		}
	}
	switch p.kind {
	case "seq":
		for i := 1; i < len(p.kids); i++ {
			before(p.kids[i-1].leaves, p.kids[i].leaves)
		}
		for i := 2; i < len(p.kids); i++ {
			before(p.kids[i-2].leaves, p.kids[i].leaves)
		}
	case "deps":
		last := len(p.kids) - 1
		for _, k := range p.kids[:last] {
			before(k.leaves, p.kids[last].leaves)
		}
	}
	for _, k := range p.kids {
		st.order(k)
	}
}

func c02Run(e *pbt.Env, c c02Case) {
	st := &c02State{e: e, start: map[int]int{}, end: map[int]int{}}
	var (
		plans []*c02Plan
		ts    []fab.Target
		g     = st.newGroup()
		ran   = map[int]bool{}
		errs  = map[int]bool{}
	)
	for _, r := range c.Roots {
		p := st.build(r, g)
		plans = append(plans, p)
		ts = append(ts, p.t)
		for k := range p.model(ran) {
			errs[k] = true
		}
	}
	con := fab.NewController(e.Dir)
	check := func(what string) {
		err := con.Run(context.Background(), ts...)
		st.mu.Lock()
		defer st.mu.Unlock()
		if st.running != 0 {
			e.Errorf("%s: Run returned while %d targets were still running", what, st.running)
		}
		if (err != nil) != (len(errs) > 0) {
			e.Errorf("%s: got error %v, want failures of %v", what, err, sortedInts(errs))
		}
		want := map[int]bool{}
		for k := range errs {
			if k != c02Bad {
				want[k] = true
			}
		}
		if got := errIDs(err); fmt.Sprint(sortedInts(got)) != fmt.Sprint(sortedInts(want)) {
			e.Errorf("%s: error matches the failures of leaves %v, want %v: %v", what, sortedInts(got), sortedInts(want), err)
		}
		for i := range st.leaves {
			_, started := st.start[i]
			_, ended := st.end[i]
			switch {
			case ran[i] && !ended:
				e.Errorf("%s: leaf %d should have run", what, i)
			case !ran[i] && started:
				e.Errorf("%s: leaf %d ran after a failure that should have prevented it", what, i)
			}
		}
		for _, p := range plans {
			st.order(p)
		}
	}
	check("first run")
	if c.Again {
		check("second run")
	}
	if len(st.leaves) > 2 {
		e.NonTrivial()
	}
	e.LabelIf(len(errs) > 0, "failure")
	e.LabelIf(len(errs) > 1, "several failures")
	e.LabelIf(len(ran) < len(st.leaves), "early stop")
	e.LabelIf(g.n > 1, "several start at once")
	e.LabelIf(errs[c02Bad], "invalid target")
}

// Wide composites whose members all wait for each other.

type c02WideCase struct {
	How   string // run, all, deps, nested
	N     int
	Fails []int // which of them fail
	Bare  bool  // the members are leaves themselves, otherwise each is in a composite of its own
}

func c02WideGen(t *rapid.T) c02WideCase {
	c := c02WideCase{How: pick(t, "how", "run", "all", "deps", "nested"), Bare: drawBool(t, "bare")}
	c.N = pick(t, "n", 2, 7, 17, 33, 65, 129, 257, 600, 1100) + drawInt(t, 0, 8, "more")
	for k := drawInt(t, 0, 3, "fails"); k > 0; k-- {
		c.Fails = append(c.Fails, drawInt(t, 0, c.N-1, "fail"))
	}
	return c
}

func c02WideRun(e *pbt.Env, c c02WideCase) {
	fails := map[int]bool{}
	for _, i := range c.Fails {
		fails[i] = true
	}
	root := c02Node{Kind: "all"}
	for i := 0; i < c.N; i++ {
		nd := c02Node{Kind: "leaf", Fail: fails[i]}
		if !c.Bare {
			nd = c02Node{Kind: []string{"seq", "arg", "all"}[i%3], Kids: []c02Node{nd}}
		}
		root.Kids = append(root.Kids, nd)
	}
	var tree c02Case
	switch c.How {
	case "run":
		tree.Roots = root.Kids
	case "all":
		tree.Roots = []c02Node{root}
	case "deps":
		tree.Roots = []c02Node{{Kind: "deps", Kids: append([]c02Node{{Kind: "leaf"}}, root.Kids...)}}
	case "nested":
		// A binary tree of All.
		var split func(kids []c02Node) c02Node
		split = func(kids []c02Node) c02Node {
			if len(kids) <= 2 {
				return c02Node{Kind: "all", Kids: kids}
			}
			m := len(kids) / 2
			return c02Node{Kind: "all", Kids: []c02Node{split(kids[:m]), split(kids[m:])}}
		}
		tree.Roots = []c02Node{split(root.Kids)}
	}
	c02Run(e, tree)
}

// Requests whose context ends.

type c02CancelCase struct {
	Root   c02Node
	Cancel int  // the leaf that ends the context
	Late   bool // at the end of the leaf
	Heed   []bool
}

func c02CancelGen(t *rapid.T) c02CancelCase {
	left := drawInt(t, 2, 12, "size")
	leaves := 0
	var gen func(depth int) c02Node
	gen = func(depth int) c02Node {
		left--
		k := drawInt(t, 0, 99, "kind")
		if depth == 0 || left <= 0 || k < 20 && leaves > 0 {
			leaves++
			return c02Node{Kind: "leaf", Fail: chance(t, 8, "fail"), Pause: pick(t, "pause", 0, 0, 1)}
		}
		n := c02Node{Kind: "seq"}
		lo, hi := 1, 5
		switch {
		case k < 60:
		case k < 75:
			n.Kind = "all"
		case k < 90:
			n.Kind = "deps"
		case k < 95:
			n.Kind, hi = "arg", 1
		default:
			n.Kind, hi = "files", 1
		}
		for i := drawInt(t, lo, hi, "kids"); i > 0; i-- {
			n.Kids = append(n.Kids, gen(depth-1))
		}
		return n
	}
	c := c02CancelCase{Root: gen(3)}
	c.Cancel = drawInt(t, 0, leaves-1, "cancel")
	c.Late = drawBool(t, "late")
	for i := 0; i < leaves; i++ {
		c.Heed = append(c.Heed, chance(t, 25, "heed"))
	}
	return c
}

func c02CancelRun(e *pbt.Env, c c02CancelCase) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var (
		mu      sync.Mutex
		n       int
		ended   = map[int]bool{}
		failed  = map[int]bool{}
		running int
		clock   int
		st      = &c02State{e: e, start: map[int]int{}, end: map[int]int{}}
	)
	var build func(nd c02Node) *c02Plan
	build = func(nd c02Node) *c02Plan {
		p := &c02Plan{kind: nd.Kind, leaf: -1}
		if nd.Kind == "leaf" {
			id := n
			n++
			p.leaf, p.leaves = id, []int{id}
			p.t = fab.F(func(ctx context.Context, _ *fab.Controller) (err error) {
				mu.Lock()
				running++
				clock++
				st.start[id] = clock
				mu.Unlock()
				if id == c.Cancel && !c.Late {
					cancel()
				}
				pause(nd.Pause)
				if c.Heed[id] {
					err = ctx.Err()
				}
				if err == nil && nd.Fail {
					err = &testErr{id}
				}
				if id == c.Cancel && c.Late {
					cancel()
				}
				mu.Lock()
				defer mu.Unlock()
				running--
				clock++
				st.end[id] = clock
				ended[id] = err == nil
				failed[id] = err != nil
				return err
			})
			return p
		}
		var kids []fab.Target
		order := nd.Kids
		if nd.Kind == "deps" {
			order = append(append([]c02Node(nil), nd.Kids[1:]...), nd.Kids[0])
		}
		for _, k := range order {
			kp := build(k)
			p.kids = append(p.kids, kp)
			p.leaves = append(p.leaves, kp.leaves...)
			kids = append(kids, kp.t)
		}
		switch nd.Kind {
		case "seq":
			p.t = fab.Seq(kids...)
		case "all":
			p.t = fab.All(kids...)
		case "deps":
			p.t = fab.Deps(kids[len(kids)-1], kids[:len(kids)-1]...)
		case "arg":
			p.t = fab.ArgTarget(kids[0])
		case "files":
			p.t = fab.Files(kids[0], nil, []string{fmt.Sprintf("%s/o%d", e.Dir, n)})
		}
		return p
	}
	p := build(c.Root)
	err := fab.NewController(e.Dir).Run(ctx, p.t)
	mu.Lock()
	defer mu.Unlock()
	if running != 0 {
		e.Errorf("Run returned while %d targets were still running", running)
	}
	anyFailed := false
	for id := 0; id < n; id++ {
		if failed[id] {
			anyFailed = true
		}
		if err == nil && !ended[id] {
			e.Errorf("success, but leaf %d did not run and succeed (started: %v)", id, st.start[id] > 0)
		}
	}
	if anyFailed && err == nil {
		e.Errorf("success, though a leaf failed")
	}
	if err != nil && !anyFailed && !errors.Is(err, context.Canceled) {
		e.Errorf("no leaf failed, and the error is not that of the context: %v", err)
	}
	for id := range errIDs(err) {
		if !failed[id] {
			e.Errorf("the error matches leaf %d, which did not fail", id)
		}
	}
	// What the leaves did, apart from the context, tells which of them may have run.
	var walk func(p *c02Plan) bool // whether it succeeded
	walk = func(p *c02Plan) bool {
		ok := true
		switch p.kind {
		case "leaf":
			return ended[p.leaf]
		case "seq":
			for _, k := range p.kids {
				if !ok {
					for _, l := range k.leaves {
						if st.start[l] > 0 {
							e.Errorf("leaf %d of a Seq ran after an earlier element had not succeeded", l)
						}
					}
				}
				ok = walk(k) && ok
			}
		case "deps":
			last := len(p.kids) - 1
			for _, k := range p.kids[:last] {
				ok = walk(k) && ok
			}
			if !ok {
				for _, l := range p.kids[last].leaves {
					if st.start[l] > 0 {
						e.Errorf("leaf %d of the main target of a Deps ran though a dependency had not succeeded", l)
					}
				}
			}
			ok = walk(p.kids[last]) && ok
		default:
			for _, k := range p.kids {
				ok = walk(k) && ok
			}
		}
		return ok
	}
	walk(p)
	st.order(p)
	if n > 1 && st.start[c.Cancel] > 0 {
		e.NonTrivial()
	}
	e.LabelIf(err == nil, "success though cancelled")
	e.LabelIf(err != nil, "failure")
}

func init() {
	pbt.Register(&pbt.Prop{
		ID: "C02",
		Subs: []*pbt.Sub{
			pbt.NewSub("tree", "trees of All, Seq, Deps, ArgTarget and Files over leaves of which some fail; leaves that may start at the same time wait for each other, so that serialising them is a deadlock; non-trivial: more than two leaves", 20000, 1000000, c02Gen, c02Run),
			pbt.NewSub("wide", "composites of up to 1100 members that all wait for each other and of which some fail; non-trivial: always", 250, 10000, c02WideGen, func(e *pbt.Env, c c02WideCase) { e.NonTrivial(); c02WideRun(e, c) }),
			pbt.NewSub("cancel", "trees during whose run the context ends, with leaves that heed the context or do not: success means that everything ran and succeeded, and order and errors are as always; non-trivial: several leaves, and the context did end", 8000, 400000, c02CancelGen, c02CancelRun),
		},
	})
}
