package props

import (
	"context"
	"fmt"
	"os"
	"path/filepath"
	"sync"
	"time"

	"github.com/bobg/fab"
	"pgregory.net/rapid"

	"verif/pbt"
)

// C27: settings and arguments reach the targets in their scope.

type c27Set struct {
	What string // verbose, force, dry, db, args, value, deadline
	V    int
}

type c27Node struct {
	Kind string // leaf, all, seq, deps, arg, set, twice, files, shared
	Args []string
	Set  []c27Set
	Kids []c27Node
	Pre  []c27Node // of files: the producers of its inputs have these as subtargets
	N    int       // for shared: which
}

type c27Case struct {
	Shared []c27Node
	Roots  []c27Root
	// Separate roots have controllers of their own, and run at the same time.
	Separate bool
}

type c27Root struct {
	Set  []c27Set
	Node c27Node
}

func c27Sets(t *rapid.T, lo int) []c27Set {
	var r []c27Set
	for k := drawInt(t, lo, 3, "settings"); k > 0; k-- {
		r = append(r, c27Set{pick(t, "what", "verbose", "force", "dry", "db", "args", "value", "deadline"), drawInt(t, 0, 3, "v")})
	}
	return r
}

func c27Gen(t *rapid.T) c27Case {
	var c c27Case
	shared := 0
	var gen func(depth int) c27Node
	kids := func(lo, depth int) (r []c27Node) {
		for k := drawInt(t, lo, 3, "kids"); k > 0; k-- {
			r = append(r, gen(depth))
		}
		return r
	}
	gen = func(depth int) c27Node {
		if shared > 0 && chance(t, 12, "shared") {
			return c27Node{Kind: "shared", N: uniform(t, shared, "which")}
		}
		x := drawInt(t, 0, 99, "kind")
		switch {
		case depth == 0 || x < 15:
			return c27Node{Kind: "leaf"}
		case x < 40:
			return c27Node{Kind: "set", Set: c27Sets(t, 1), Kids: kids(1, depth-1)}
		case x < 55:
			n := c27Node{Kind: "arg", Kids: []c27Node{gen(depth - 1)}}
			for k := drawInt(t, 0, 2, "args"); k > 0; k-- {
				n.Args = append(n.Args, pick(t, "arg", "a", "-b", "", "a b"))
			}
			return n
		case x < 70:
			n := c27Node{Kind: "files", Kids: []c27Node{gen(depth - 1)}}
			for k := drawInt(t, 0, 2, "pre"); k > 0; k-- {
				n.Pre = append(n.Pre, gen(depth-1))
			}
			return n
		}
		return c27Node{Kind: pick(t, "comp", "all", "seq", "deps"), Kids: kids(1, depth-1)}
	}
	for k := drawInt(t, 0, 2, "sharedNodes"); k > 0; k-- {
		n := gen(1)
		c.Shared = append(c.Shared, n)
		shared++
	}
	for k := pick(t, "roots", 1, 1, 2, 3); k > 0; k-- {
		c.Roots = append(c.Roots, c27Root{c27Sets(t, 0), gen(pick(t, "depth", 2, 3, 4))})
	}
	c.Separate = drawBool(t, "separate")
	return c
}

type c27Key int

// c27Target changes settings for what it runs.
type c27Target struct {
	set  []c27Set
	dbs  []fab.HashDB
	kids []fab.Target
}

func (*c27Target) Desc() string { return "set" }

func (x *c27Target) Run(ctx context.Context, con *fab.Controller) error {
	return con.Run(c27Apply(ctx, x.set, x.dbs), x.kids...)
}

var c27Epoch = time.Date(2200, 1, 1, 0, 0, 0, 0, time.UTC)

var c27Args = [][]string{{}, {"x"}, {"-y", "z"}, nil}

func c27Apply(ctx context.Context, set []c27Set, dbs []fab.HashDB) context.Context {
	for _, s := range set {
		switch s.What {
		case "verbose":
			ctx = fab.WithVerbose(ctx, s.V%2 == 1)
		case "force":
			ctx = fab.WithForce(ctx, s.V%2 == 1)
		case "dry":
			ctx = fab.WithDryRun(ctx, s.V%2 == 1)
		case "db":
			ctx = fab.WithHashDB(ctx, dbs[s.V])
		case "args":
			ctx = fab.WithArgs(ctx, c27Args[s.V]...)
		case "value":
			ctx = context.WithValue(ctx, c27Key(0), s.V)
		case "deadline":
			// In a distant future. The earliest counts.
			var cancel context.CancelFunc
			ctx, cancel = context.WithDeadline(ctx, c27Epoch.Add(time.Duration(s.V)*time.Hour))
			_ = cancel
		}
	}
	return ctx
}

// c27State is what a target sees.
type c27State struct {
	Verbose, Force, Dry bool
	DB, Value           int
	Args                string
	Deadline            int // hours, plus one
}

func (s c27State) apply(set []c27Set) c27State {
	for _, x := range set {
		switch x.What {
		case "verbose":
			s.Verbose = x.V%2 == 1
		case "force":
			s.Force = x.V%2 == 1
		case "dry":
			s.Dry = x.V%2 == 1
		case "db":
			s.DB = x.V
		case "args":
			s.Args = fmt.Sprintf("%q", c27Args[x.V])
		case "value":
			s.Value = x.V
		case "deadline":
			if s.Deadline == 0 || x.V < s.Deadline-1 {
				s.Deadline = x.V + 1
			}
		}
	}
	return s
}

// c27DB never has anything.
type c27DB struct{ _ int }

func (*c27DB) Has(context.Context, []byte) (bool, error) { return false, nil }
func (*c27DB) Add(context.Context, []byte) error         { return nil }

func c27Run(e *pbt.Env, c c27Case) {
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	e.Must(err)
	e.Cleanup(func() { null.Close() })
	os.Stdout, os.Stderr = null, null

	dbs := []fab.HashDB{nil, &c27DB{}, &c27DB{}, &c27DB{}}
	var (
		mu   sync.Mutex
		seen = map[int][]c27State{} // per leaf
		want = map[int][]c27State{} // the possible ones
		ids  int
		outs int
		cons []*fab.Controller
	)
	leaf := func(id int) fab.Target {
		return fab.F(func(ctx context.Context, con *fab.Controller) error {
			s := c27State{Verbose: fab.GetVerbose(ctx), Force: fab.GetForce(ctx), Dry: fab.GetDryRun(ctx), DB: -1, Args: fmt.Sprintf("%q", fab.GetArgs(ctx))}
			for i, db := range dbs {
				if fab.GetHashDB(ctx) == db {
					s.DB = i
				}
			}
			s.Value, _ = ctx.Value(c27Key(0)).(int)
			if d, ok := ctx.Deadline(); ok {
				s.Deadline = int(d.Sub(c27Epoch)/time.Hour) + 1
			}
			mu.Lock()
			seen[id] = append(seen[id], s)
			mu.Unlock()
			return nil
		})
	}
	// A target is built once for each controller, and visited once for each scope.
	type builder struct {
		con    *fab.Controller
		shared []fab.Target
		leaves map[string]int
	}
	var build func(b *builder, n c27Node, path string) fab.Target
	build = func(b *builder, n c27Node, path string) fab.Target {
		var kids []fab.Target
		for i, k := range n.Kids {
			kids = append(kids, build(b, k, fmt.Sprintf("%s/%d", path, i)))
		}
		switch n.Kind {
		case "leaf":
			ids++
			b.leaves[path] = ids
			return leaf(ids)
		case "all":
			return fab.All(kids...)
		case "seq":
			return fab.Seq(kids...)
		case "deps":
			return fab.Deps(kids[0], kids[1:]...)
		case "arg":
			return fab.ArgTarget(kids[0], n.Args...)
		case "set":
			return &c27Target{n.Set, dbs, kids}
		case "shared":
			return b.shared[n.N]
		}
		var in []string
		for i, p := range n.Pre {
			outs++
			f := filepath.Join(e.Dir, fmt.Sprintf("f%d", outs))
			fab.Files(build(b, p, fmt.Sprintf("%s/p%d", path, i)), nil, []string{f})
			in = append(in, f)
		}
		outs++
		return fab.Files(kids[0], in, []string{filepath.Join(e.Dir, fmt.Sprintf("f%d", outs))})
	}
	scopes, files := 0, false
	var visit func(b *builder, n c27Node, path string, s c27State)
	visit = func(b *builder, n c27Node, path string, s c27State) {
		switch n.Kind {
		case "leaf":
			id := b.leaves[path]
			want[id] = append(want[id], s)
		case "shared":
			visit(b, c.Shared[n.N], fmt.Sprintf("s%d", n.N), s)
			return
		case "set":
			s = s.apply(n.Set)
			scopes++
		case "arg":
			s.Args = fmt.Sprintf("%q", n.Args)
			scopes++
		}
		for i, k := range n.Kids {
			visit(b, k, fmt.Sprintf("%s/%d", path, i), s)
		}
		for i, k := range n.Pre {
			files = true
			visit(b, k, fmt.Sprintf("%s/p%d", path, i), s)
		}
	}
	newBuilder := func() *builder {
		b := &builder{con: fab.NewController(e.Dir), leaves: map[string]int{}}
		for i, n := range c.Shared {
			b.shared = append(b.shared, build(b, n, fmt.Sprintf("s%d", i)))
		}
		cons = append(cons, b.con)
		return b
	}
	var (
		b       *builder
		runs    []func() error
		targets []fab.Target
	)
	for i, r := range c.Roots {
		if b == nil || c.Separate {
			b = newBuilder()
		}
		path := fmt.Sprintf("r%d", i)
		t := build(b, r.Node, path)
		targets = append(targets, t)
		visit(b, r.Node, path, c27State{Args: "[]"}.apply(r.Set))
		con, ctx := b.con, c27Apply(context.Background(), r.Set, dbs)
		runs = append(runs, func() error { return con.Run(ctx, t) })
	}
	if c.Separate {
		var wg sync.WaitGroup
		for _, f := range runs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				if err := f(); err != nil {
					e.Errorf("Run: %s", err)
				}
			}()
		}
		wg.Wait()
	} else {
		for _, f := range runs {
			if err := f(); err != nil {
				e.Fatalf("Run: %s", err)
			}
		}
	}
	for id := 1; id <= ids; id++ {
		got, w := seen[id], want[id]
		if len(w) == 0 {
			if len(got) > 0 {
				e.Fatalf("a target ran that was not asked for")
			}
			continue
		}
		if len(got) != 1 {
			e.Fatalf("a target ran %d times", len(got))
		}
		ok := false
		for _, s := range w {
			ok = ok || s == got[0]
		}
		if !ok {
			e.Fatalf("a target saw %+v, want one of %+v", got[0], w)
		}
		e.LabelIf(len(w) > 1, "reached in several scopes")
	}
	e.LabelIf(files, "producers of files")
	e.LabelIf(c.Separate && len(c.Roots) > 1, "controllers at the same time")
	if scopes > 1 {
		e.NonTrivial()
	}
	_ = targets
	_ = cons
}

func init() {
	pbt.Register(&pbt.Prop{
		ID: "C27",
		Subs: []*pbt.Sub{
			pbt.NewSub("scopes", "trees of the composites, ArgTarget, chained Files and targets that change settings for what they run, below Runs with settings of their own, one after another or at the same time; every leaf reports what it sees. Non-trivial: at least two targets change settings or arguments", 12000, 600000, c27Gen, c27Run),
		},
	})
}
