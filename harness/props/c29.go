package props

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/bobg/fab"
	"gopkg.in/yaml.v3"
	"pgregory.net/rapid"

	"verif/pbt"
)

// C29: controllers and registries may be used concurrently.
// This check is built with the race detector.

// Registry.

type c29Op struct {
	Op     string // reg, look, names, desc
	Name   int
	Target int
	Pause  int
}

type c29RegCase struct {
	Procs [][]c29Op
}

func c29RegGen(t *rapid.T) c29RegCase {
	var c c29RegCase
	names, targets := drawInt(t, 1, 3, "names"), drawInt(t, 1, 3, "targets")
	for p := drawInt(t, 2, 4, "procs"); p > 0; p-- {
		var ops []c29Op
		for k := drawInt(t, 1, 5, "ops"); k > 0; k-- {
			ops = append(ops, c29Op{pick(t, "op", "reg", "reg", "look", "names", "desc"), uniform(t, names, "name"), uniform(t, targets, "target"), pick(t, "pause", 0, 0, 0, 1, 2)})
		}
		c.Procs = append(c.Procs, ops)
	}
	return c
}

type c29T struct{ n int }

func (*c29T) Run(context.Context, *fab.Controller) error { return nil }
func (t *c29T) Desc() string                             { return fmt.Sprintf("T%d", t.n) }

// c29Event is one operation of a history.
type c29Event struct {
	start, end int64
	op         c29Op
	doc        string // of reg
	res        string
}

// c29Reg is the sequential registry.
type c29Reg struct {
	byName map[int]string // target and doc
	byAddr map[int]int
}

func (r c29Reg) apply(ev c29Event) (c29Reg, string) {
	switch ev.op.Op {
	case "reg":
		n := c29Reg{map[int]string{}, map[int]int{}}
		for k, v := range r.byName {
			n.byName[k] = v
		}
		for k, v := range r.byAddr {
			n.byAddr[k] = v
		}
		n.byName[ev.op.Name] = fmt.Sprintf("%d %s", ev.op.Target, ev.doc)
		n.byAddr[ev.op.Target] = ev.op.Name
		return n, "ok"
	case "look":
		if v, ok := r.byName[ev.op.Name]; ok {
			return r, v
		}
		return r, "none"
	case "names":
		var s []string
		for k := range r.byName {
			s = append(s, fmt.Sprintf("n%d", k))
		}
		sort.Strings(s)
		return r, strings.Join(s, " ")
	default:
		if n, ok := r.byAddr[ev.op.Target]; ok {
			return r, fmt.Sprintf("n%d", n)
		}
		return r, fmt.Sprintf("unnamed T%d", ev.op.Target)
	}
}

// c29Linearizable looks for an order of the operations that explains all results.
func c29Linearizable(evs []c29Event) bool {
	tried := map[string]bool{}
	var search func(done uint64, r c29Reg) bool
	search = func(done uint64, r c29Reg) bool {
		if done == 1<<len(evs)-1 {
			return true
		}
		key := fmt.Sprint(done, r)
		if tried[key] {
			return false
		}
		tried[key] = true
		minEnd := int64(1 << 62)
		for i, ev := range evs {
			if done>>i&1 == 0 && ev.end < minEnd {
				minEnd = ev.end
			}
		}
		for i, ev := range evs {
			if done>>i&1 == 1 || ev.start > minEnd {
				continue
			}
			if n, res := r.apply(ev); res == ev.res && search(done|1<<i, n) {
				return true
			}
		}
		return false
	}
	return search(0, c29Reg{})
}

func c29RegRun(e *pbt.Env, c c29RegCase) {
	for i := 0; i < 8; i++ {
		if c29RegOnce(e, c) {
			e.NonTrivial()
		}
	}
}

// c29RegOnce returns whether operations overlapped.
func c29RegOnce(e *pbt.Env, c c29RegCase) bool {
	con := fab.NewController(e.Dir)
	var targets []fab.Target
	index := map[fab.Target]int{}
	for i := 0; i < 3; i++ {
		t := &c29T{i}
		targets = append(targets, t)
		index[t] = i
	}
	var (
		clk   atomic.Int64
		ready sync.WaitGroup
		wg    sync.WaitGroup
		evs   = make([][]c29Event, len(c.Procs))
		begin atomic.Bool
	)
	for p, ops := range c.Procs {
		ready.Add(1)
		wg.Add(1)
		go func() {
			defer wg.Done()
			ready.Done()
			for !begin.Load() {
				runtime.Gosched()
			}
			for i, op := range ops {
				pause(op.Pause)
				name := fmt.Sprintf("n%d", op.Name)
				ev := c29Event{op: op, doc: fmt.Sprintf("%d.%d", p, i), start: clk.Add(1)}
				switch op.Op {
				case "reg":
					got, err := con.RegisterTarget(name, ev.doc, targets[op.Target])
					ev.res = "ok"
					if err != nil || got != targets[op.Target] {
						ev.res = fmt.Sprint(got, err)
					}
				case "look":
					got, doc := con.RegistryTarget(name)
					ev.res = "none"
					if got != nil {
						ev.res = fmt.Sprintf("%d %s", index[got], doc)
					}
				case "names":
					ev.res = strings.Join(con.RegistryNames(), " ")
				case "desc":
					ev.res = con.Describe(targets[op.Target])
				}
				ev.end = clk.Add(1)
				evs[p] = append(evs[p], ev)
			}
		}()
	}
	ready.Wait()
	begin.Store(true)
	wg.Wait()
	var all []c29Event
	overlap := false
	for _, es := range evs {
		for _, ev := range es {
			for _, o := range all {
				overlap = overlap || o.start < ev.end && ev.start < o.end
			}
		}
		all = append(all, es...)
	}
	if !c29Linearizable(all) {
		var b strings.Builder
		sort.Slice(all, func(i, j int) bool { return all[i].start < all[j].start })
		for _, ev := range all {
			fmt.Fprintf(&b, "[%d,%d] %s n%d T%d doc %s: %s\n", ev.start, ev.end, ev.op.Op, ev.op.Name, ev.op.Target, ev.doc, ev.res)
		}
		e.Fatalf("no order of these operations explains their results:\n%s", b.String())
	}
	return overlap
}

// Publication: what one query shows, all queries show.

type c29PubCase struct {
	Writers, N int
	Readers    [][2]string // pairs of queries: look, names, list, desc, parse
	Again      bool        // every target is registered under two names
}

func c29PubGen(t *rapid.T) c29PubCase {
	c := c29PubCase{Writers: drawInt(t, 1, 3, "writers"), N: pick(t, "n", 30, 100, 200), Again: chance(t, 30, "again")}
	for k := drawInt(t, 1, 3, "readers"); k > 0; k-- {
		c.Readers = append(c.Readers, [2]string{
			pick(t, "first", "look", "look", "desc", "desc", "parse", "names"),
			pick(t, "second", "look", "desc", "desc", "names", "list", "parse"),
		})
	}
	return c
}

func c29PubRun(e *pbt.Env, c c29PubCase) {
	var (
		con     = fab.NewController(e.Dir)
		wg      sync.WaitGroup
		stop    atomic.Bool
		targets = make([][]fab.Target, c.Writers)
		seen    atomic.Int64
	)
	name := func(w, i int) string { return fmt.Sprintf("w%d.%d", w, i) }
	for w := range targets {
		for i := 0; i < c.N; i++ {
			targets[w] = append(targets[w], &c29T{i})
		}
	}
	shows := func(query string, w, i int) bool {
		n, t := name(w, i), targets[w][i]
		switch query {
		case "look":
			got, doc := con.RegistryTarget(n)
			if got != nil && (got != t || doc != "Doc of "+n) {
				e.Errorf("%s is %v, documentation %q", n, got, doc)
			}
			return got != nil
		case "names":
			names := con.RegistryNames()
			k := sort.SearchStrings(names, n)
			return k < len(names) && names[k] == n
		case "list":
			var b bytes.Buffer
			con.ListTargets(&b)
			return strings.Contains(b.String(), n+"\n    Doc of "+n+"\n")
		case "parse":
			_, err := con.ParseArgs([]string{n})
			return err == nil
		default:
			d := con.Describe(t)
			if d != n && d != "second "+n && d != t.Desc() && d != "unnamed "+t.Desc() {
				e.Errorf("%s is described as %q", n, d)
			}
			return d == n || d == "second "+n
		}
	}
	for _, r := range c.Readers {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for w := 0; w < c.Writers; w++ {
				for i := 0; i < c.N; i++ {
					for !shows(r[0], w, i) {
						if stop.Load() {
							if !shows(r[0], w, i) {
								e.Errorf("%s does not show %s, which is registered", r[0], name(w, i))
							}
							return
						}
						seen.Add(1)
						runtime.Gosched()
					}
					if !shows(r[1], w, i) {
						e.Errorf("%s shows %s, and then %s does not", r[0], name(w, i), r[1])
						return
					}
					if r[0] == "names" || r[0] == "list" || r[1] == "list" || r[1] == "names" {
						i += 4 // these take time
					}
				}
			}
		}()
	}
	var writers sync.WaitGroup
	for w := range targets {
		writers.Add(1)
		go func() {
			defer writers.Done()
			for i, t := range targets[w] {
				n := name(w, i)
				if _, err := con.RegisterTarget(n, "Doc of "+n, t); err != nil {
					e.Errorf("RegisterTarget: %s", err)
				}
				if c.Again {
					con.RegisterTarget("second "+n, "", t)
				}
			}
		}()
	}
	writers.Wait()
	stop.Store(true)
	wg.Wait()
	if seen.Load() > 0 {
		e.NonTrivial()
	}
}

// Everything else.

type c29Step struct {
	Op    string
	K     int
	Pause int
}

type c29MixCase struct {
	Procs    [][]c29Step
	Separate bool // some have controllers of their own
	Verbose  bool
}

var c29Ops = []string{"yaml", "files", "run", "run", "runName", "indent", "copier", "list", "parse", "tag", "stringlist", "describe", "path", "clean", "command", "argtarget", "gate"}

func c29MixGen(t *rapid.T) c29MixCase {
	var c c29MixCase
	for p := drawInt(t, 2, 5, "procs"); p > 0; p-- {
		var ops []c29Step
		for k := drawInt(t, 1, 6, "ops"); k > 0; k-- {
			ops = append(ops, c29Step{pick(t, "op", c29Ops...), drawInt(t, 0, 3, "k"), pick(t, "pause", 0, 0, 0, 1, 2)})
		}
		c.Procs = append(c.Procs, ops)
	}
	c.Separate = chance(t, 20, "separate")
	c.Verbose = drawBool(t, "verbose")
	return c
}

type c29Count struct {
	N *int32 `json:"-"`
	S string
}

func (t *c29Count) Run(context.Context, *fab.Controller) error {
	atomic.AddInt32(t.N, 1)
	return nil
}
func (*c29Count) Desc() string { return "count" }

func c29MixRun(e *pbt.Env, c c29MixCase) {
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	e.Must(err)
	e.Cleanup(func() { null.Close() })
	os.Stdout, os.Stderr = null, null

	ctx := context.Background()
	if c.Verbose {
		ctx = fab.WithVerbose(ctx, true)
	}
	ctx = fab.WithHashDB(ctx, newMemDB())
	main := fab.NewController(e.Dir)

	// Targets that everybody has.
	var counts [4]int32
	counters := map[*fab.Controller]int{}
	shared := make([]fab.Target, 4)
	names := []string{"S0", "S1", "S2", "S3"}
	for i := range shared {
		shared[i] = &c29Count{&counts[i], "s"}
	}
	// Two of them are run by Files targets with a chain.
	out := filepath.Join(e.Dir, "chain")
	first := fab.Files(shared[0], nil, []string{out})
	second := fab.Files(shared[1], []string{out}, []string{out + "2"})
	register := func(con *fab.Controller) {
		counters[con] = 1
		for i, s := range shared {
			_, err := con.RegisterTarget(names[i], "Doc of "+names[i]+".", s)
			e.Must(err)
		}
		_, err := con.RegisterTarget("first", "", first)
		e.Must(err)
		_, err = con.RegisterTarget("second", "", second)
		e.Must(err)
	}
	register(main)
	cons := make([]*fab.Controller, len(c.Procs))
	for p := range c.Procs {
		cons[p] = main
		if c.Separate && p%2 == 1 {
			cons[p] = fab.NewController(e.Dir)
			register(cons[p])
		}
	}
	// Directories with YAML that refers to the next.
	for p := range c.Procs {
		for k := 0; k < 4; k++ {
			dir := fmt.Sprintf("d%d%d", p, k)
			e.WriteFile(filepath.Join(dir, "fab.yaml"), fmt.Sprintf("_dir: %s\n# Doc of A.\nA: !All\n  - ./B\n  - ../d%d%d/C\n  - S%d\nB: !Files\n  Target: !verif.Count x\n  In: [in]\n  Out: [out]\n  Autoclean: true\nC: !Seq\n  - ./B\n  - !verif.Count y\nS%d: !verif.Count z\n", dir, p, (k+1)%4, k, k))
		}
	}
	var (
		wg, ready sync.WaitGroup
		begin     = make(chan struct{})
		mu        sync.Mutex
		wantName  = map[*fab.Controller]map[string]bool{}
		wantRun   [4]bool
		chained   = false
	)
	want := func(con *fab.Controller, name string) {
		mu.Lock()
		defer mu.Unlock()
		if wantName[con] == nil {
			wantName[con] = map[string]bool{}
		}
		wantName[con][name] = true
	}
	outs := map[string]*int32{}
	for p, ops := range c.Procs {
		con := cons[p]
		ready.Add(1)
		wg.Add(1)
		go func() {
			defer wg.Done()
			ready.Done()
			<-begin
			for i, op := range ops {
				pause(op.Pause)
				name := fmt.Sprintf("p%d.%d", p, i)
				switch op.Op {
				case "yaml":
					dir := fmt.Sprintf("d%d%d", p, op.K)
					if err := con.ReadYAMLFile(dir); err != nil {
						e.Errorf("ReadYAMLFile: %s", err)
						continue
					}
					want(con, dir+"/A")
					want(con, dir+"/B")
					t, doc := con.RegistryTarget(dir + "/A")
					if t == nil || doc != "Doc of A." {
						e.Errorf("after reading %s: target %v, documentation %q", dir, t, doc)
						continue
					}
					if err := con.Run(ctx, t); err != nil {
						e.Errorf("running %s/A: %s", dir, err)
					}
				case "files":
					var n int32
					o := filepath.Join(e.Dir, name)
					t := fab.Files(&c29Count{&n, "f"}, nil, []string{o}, fab.Autoclean(op.K%2 == 0))
					// It can be found as the producer of its output at once.
					if err := con.Run(ctx, fab.Files(&c29Count{new(int32), "g"}, []string{o}, nil)); err != nil {
						e.Errorf("Run: %s", err)
					}
					if atomic.LoadInt32(&n) != 1 {
						e.Errorf("the producer of an input was executed %d times", n)
					}
					_ = t
					mu.Lock()
					outs[o] = &n
					mu.Unlock()
				case "run":
					if err := con.Run(ctx, shared[op.K], shared[(op.K+1)%4]); err != nil {
						e.Errorf("Run: %s", err)
					}
					mu.Lock()
					wantRun[op.K], wantRun[(op.K+1)%4] = true, true
					mu.Unlock()
				case "runName":
					t, _ := con.RegistryTarget(c29Pick(op.K, "first", "second"))
					if err := con.Run(ctx, t); err != nil {
						e.Errorf("Run: %s", err)
					}
					mu.Lock()
					chained = true
					mu.Unlock()
				case "indent":
					con.Indentf("line %d", op.K)
				case "copier":
					var b bytes.Buffer
					w := con.IndentingCopier(&b, "p")
					fmt.Fprintf(w, "a\nb\n")
					if !strings.HasSuffix(b.String(), "pb\n") {
						e.Errorf("copied: %q", b.String())
					}
				case "list":
					var b bytes.Buffer
					con.ListTargets(&b)
					if !strings.Contains(b.String(), "S3\n    Doc of S3.\n") {
						e.Errorf("ListTargets: %q", b.String())
					}
				case "parse":
					ts, err := con.ParseArgs(names[:op.K])
					if err != nil || len(ts) != op.K {
						e.Errorf("ParseArgs: %v, %v", ts, err)
					}
				case "tag":
					fab.RegisterYAMLTarget("verif."+name, func(*fab.Controller, *yaml.Node, string) (fab.Target, error) {
						return &c29Count{new(int32), name}, nil
					})
					if err := con.ReadYAML(strings.NewReader("T"+name+": !verif."+name+" x\n"), ""); err != nil {
						e.Errorf("ReadYAML: %s", err)
					}
					if t, _ := con.RegistryTarget("T" + name); t == nil || t.(*c29Count).S != name {
						e.Errorf("target of a new type is %v", t)
					}
					want(con, "T"+name)
				case "stringlist":
					fab.RegisterYAMLStringList("verif."+name, func(*fab.Controller, *yaml.Node, string) ([]string, error) {
						return []string{name}, nil
					})
					got, err := con.YAMLStringList(&yaml.Node{Kind: yaml.ScalarNode, Tag: "!verif." + name}, "")
					if err != nil || !equalStrings(got, []string{name}) {
						e.Errorf("YAMLStringList: %v %v", got, err)
					}
				case "describe":
					if d := con.Describe(shared[op.K]); d != names[op.K] {
						e.Errorf("Describe: %q", d)
					}
				case "path":
					if p := con.JoinPath("x"); p != filepath.Join(e.Dir, "x") {
						e.Errorf("JoinPath: %q", p)
					}
				case "clean":
					f := filepath.Join(e.Dir, name)
					if err := os.WriteFile(f, []byte("x"), 0o644); err != nil {
						e.Errorf("%s", err)
					}
					if err := con.Run(ctx, &fab.Clean{Files: []string{f}, Autoclean: op.K == 0}); err != nil {
						e.Errorf("Clean: %s", err)
					}
					if _, err := os.Lstat(f); err == nil {
						e.Errorf("Clean left a file")
					}
				case "command":
					f := filepath.Join(e.Dir, name)
					if err := con.Run(ctx, &fab.Command{Shell: "echo a; echo b >&2; echo x >" + f}); err != nil {
						e.Errorf("Shell: %s", err)
					}
				case "argtarget":
					var got []string
					f := fab.F(func(ctx context.Context, _ *fab.Controller) error {
						got = fab.GetArgs(ctx)
						return nil
					})
					if err := con.Run(ctx, fab.ArgTarget(f, name)); err != nil || !equalStrings(got, []string{name}) {
						e.Errorf("arguments %q, error %v", got, err)
					}
				case "gate":
					// Several requests of one new target.
					var n int32
					t := &c29Count{&n, "gate"}
					var g sync.WaitGroup
					for j := 0; j < 3; j++ {
						g.Add(1)
						go func() {
							defer g.Done()
							if err := con.Run(ctx, t); err != nil {
								e.Errorf("Run: %s", err)
							}
							if atomic.LoadInt32(&n) != 1 {
								e.Errorf("executed %d times", n)
							}
						}()
					}
					g.Wait()
				}
				runtime.Gosched()
			}
		}()
	}
	ready.Wait()
	close(begin)
	wg.Wait()
	for con, m := range wantName {
		have := map[string]bool{}
		for _, n := range con.RegistryNames() {
			have[n] = true
		}
		for n := range m {
			if !have[n] {
				e.Fatalf("%s was registered but is not there", n)
			}
		}
	}
	if !c.Separate {
		for i, w := range wantRun {
			if n := atomic.LoadInt32(&counts[i]); w && n != 1 || n > 1 {
				e.Fatalf("a shared target was executed %d times", n)
			}
		}
	}
	// All outputs are known to the registry of producers.
	var in []string
	for o := range outs {
		in = append(in, o)
	}
	con := fab.NewController(e.Dir)
	if err := con.Run(fab.WithForce(ctx, true), fab.Files(&c29Count{new(int32), "h"}, in, nil)); err != nil {
		e.Fatalf("Run: %s", err)
	}
	for o, n := range outs {
		if *n != 2 {
			e.Fatalf("the producer of %s was executed %d times, want twice", o, *n)
		}
	}
	e.LabelIf(chained, "chained files")
	e.LabelIf(len(outs) > 0, "files")
	if len(c.Procs) > 2 {
		e.NonTrivial()
	}
}

func c29Pick(k int, a, b string) string {
	if k%2 == 0 {
		return a
	}
	return b
}

func init() {
	fab.RegisterYAMLTarget("verif.Count", func(_ *fab.Controller, n *yaml.Node, _ string) (fab.Target, error) {
		return &c29Count{new(int32), n.Value}, nil
	})
	pbt.Register(&pbt.Prop{
		ID: "C29",
		Subs: []*pbt.Sub{
			pbt.NewSub("registry", "histories of up to four goroutines with up to five registrations and queries each, eight times; non-trivial: operations overlap in time", 4000, 200000, c29RegGen, c29RegRun),
			pbt.NewSub("publish", "goroutines that register many targets, and others that wait for each to appear in one kind of query and then look for it in another; non-trivial: a query came before the registration", 200, 10000, c29PubGen, c29PubRun),
			pbt.NewSub("mixed", "goroutines that read YAML files, create and run Files, Clean, commands and other targets, list, describe, register YAML types and write messages on one controller or several; non-trivial: more than two goroutines", 3000, 150000, c29MixGen, c29MixRun),
			pbt.NewSub("runs", "the graphs and concurrent Runs of C01; non-trivial as there", 3000, 150000, c01Gen(false), c01Run),
			pbt.NewSub("trees", "the trees of C02 whose leaves wait for each other; non-trivial as there", 2000, 100000, c02Gen, c02Run),
			pbt.NewSub("db", "the goroutines of C08 with handles on one database file; non-trivial as there", 200, 10000, c08GoGen, c08GoRun),
			pbt.NewSub("scopes", "the trees of C27, with controllers at the same time; non-trivial as there", 1500, 75000, c27Gen, c27Run),
		},
	})
}
