package props

import (
	"context"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"

	"github.com/bobg/fab"
	"github.com/bobg/fab/sqlite"
	"pgregory.net/rapid"

	"verif/pbt"
)

// C31: verbose output shows what is done.

type c31Node struct {
	Kind  string // cmd, clean, all, seq, deps, arg, files, ref
	Named bool
	Fails bool
	Kids  []c31Node // of files: the subtarget and perhaps a Files target that makes an input
	Ref   int       // which of the earlier named nodes
}

type c31Case struct {
	Root  c31Node
	YAML  bool
	Runs  []struct{ Dry, Force bool }
	Quiet bool // the runs before the last one are quiet
}

func c31Gen(yaml bool) func(t *rapid.T) c31Case {
	return func(t *rapid.T) c31Case {
		c := c31Case{YAML: yaml || drawBool(t, "yaml"), Quiet: drawBool(t, "quiet")}
		fails := pick(t, "fails", 0, 0, 10, 30)
		kinds := pick(t, "kinds", "any", "any", "sequential")
		leaf := func() c31Node {
			n := c31Node{Named: drawBool(t, "named"), Kind: "cmd", Fails: chance(t, fails, "fails")}
			if chance(t, 12, "clean") {
				n.Kind, n.Fails = "clean", false
			}
			return n
		}
		var files func(depth int) c31Node
		files = func(depth int) c31Node {
			n := c31Node{Kind: "files", Named: true}
			k := leaf()
			k.Kind = "cmd"
			n.Kids = append(n.Kids, k)
			if depth > 0 && chance(t, 40, "prereq") {
				n.Kids = append(n.Kids, files(depth-1))
			}
			return n
		}
		named, first := 0, true
		var gen func(depth int) c31Node
		gen = func(depth int) (n c31Node) {
			defer func() {
				if n.Named && n.Kind != "ref" {
					named++
				}
			}()
			x := uniform(t, 100, "kind")
			if first {
				x = 30 + x*7/10
				first = false
			}
			if kinds == "any" && named > 0 && x < 22 {
				return c31Node{Kind: "ref", Ref: uniform(t, named, "ref")}
			}
			if depth == 0 || x < 40 {
				return leaf()
			}
			n.Named = drawBool(t, "named")
			lo, hi := 0, 3
			switch {
			case x < 58 && kinds == "any":
				n.Kind, lo, hi = "all", 1, 4
			case x < 75:
				n.Kind, hi = "seq", 4
			case x < 83:
				n.Kind, lo = "deps", 1
				if kinds != "any" {
					hi = 2
				}
			case x < 88:
				n.Kind, lo, hi = "arg", 1, 1
			default:
				return files(depth)
			}
			for k := lo + uniform(t, hi-lo+1, "kids"); k > 0; k-- {
				n.Kids = append(n.Kids, gen(depth-1))
			}
			return n
		}
		c.Root = gen(pick(t, "depth", 1, 2, 3, 3, 4))
		c.Root.Named = c.Root.Kind != "ref"
		for k := pick(t, "runs", 1, 2, 2, 3); k > 0; k-- {
			c.Runs = append(c.Runs, struct{ Dry, Force bool }{chance(t, 20, "dry"), chance(t, 10, "force")})
		}
		return c
	}
}

// c31Item is a node with all that is known about it.
type c31Item struct {
	c31Node
	id   int
	name string
	kids []*c31Item // references resolved
	up   *c31Item   // the first one above it
}

type c31State struct {
	e     *pbt.Env
	c     c31Case
	items []*c31Item
	named []*c31Item
	refs  bool
	conc  bool // something may run concurrently

	recorded map[*c31Item]bool // Files targets that are up to date

	// For one run:
	dry, force bool
	ran        map[*c31Item]bool // and whether it succeeded
	fresh      map[*c31Item]bool // Files targets found up to date
	events     []string
}

func (st *c31State) resolve(n c31Node, up *c31Item) *c31Item {
	if n.Kind == "ref" {
		st.refs = true
		return st.named[n.Ref]
	}
	it := &c31Item{c31Node: n, id: len(st.items) + 1, up: up}
	st.items = append(st.items, it)
	for _, k := range n.Kids {
		it.kids = append(it.kids, st.resolve(k, it))
	}
	if n.Kind == "all" && len(it.kids) > 1 || n.Kind == "deps" && len(it.kids) > 2 {
		st.conc = true
	}
	if up == nil {
		it.name = "T"
	} else if n.Named {
		it.name = fmt.Sprintf("Name%dn", it.id)
	}
	if it.Named && !st.inFiles(it) {
		// In the order in which the generator counts them.
		st.named = append(st.named, it)
	}
	return it
}

// inFiles tells whether a node is part of a Files target.
func (st *c31State) inFiles(it *c31Item) bool {
	for up := it.up; up != nil; up = up.up {
		if up.Kind == "files" {
			return true
		}
	}
	return false
}

func (st *c31State) file(it *c31Item, kind string) string {
	return filepath.Join(st.e.Dir, "d", fmt.Sprintf("%s%dk", kind, it.id))
}

func (st *c31State) shell(it *c31Item) string {
	s := fmt.Sprintf("echo out%dx", it.id)
	if it.up != nil && it.up.Kind == "files" {
		s += "; echo x >" + st.file(it.up, "out")
	}
	if it.Fails {
		s += "; exit 3"
	}
	return s
}

// run says what running a target does.
func (st *c31State) run(it *c31Item) bool {
	if ok, done := st.ran[it]; done {
		return ok
	}
	st.event("start", it)
	ok := true
	switch it.Kind {
	case "cmd":
		st.event("command", it)
		if !st.dry {
			st.event("output", it)
			ok = !it.Fails
		}
	case "clean":
		st.event("remove", it)
	case "all", "arg":
		for _, k := range it.kids {
			ok = st.run(k) && ok
		}
	case "seq":
		for _, k := range it.kids {
			if ok = st.run(k); !ok {
				break
			}
		}
	case "deps":
		for _, k := range it.kids[1:] {
			ok = st.run(k) && ok
		}
		ok = ok && st.run(it.kids[0])
	case "files":
		if len(it.kids) > 1 {
			ok = st.run(it.kids[1])
		}
		if !ok {
			break
		}
		if st.recorded[it] && !st.dry && !st.force {
			st.event("fresh", it)
			st.fresh[it] = true
			break
		}
		ok = st.run(it.kids[0])
		if ok && !st.dry {
			st.recorded[it] = true
		}
	}
	st.ran[it] = ok
	return ok
}

func (st *c31State) event(what string, it *c31Item) {
	st.events = append(st.events, fmt.Sprintf("%s %d", what, it.id))
}

func (st *c31State) cleaned(it *c31Item) string { return st.file(it, "jun") }

func (st *c31State) input(it *c31Item) string {
	if len(it.kids) > 1 {
		return st.file(it.kids[1], "out")
	}
	return st.file(it, "in")
}

// goTarget makes the target.
func (st *c31State) goTarget(con *fab.Controller, made map[*c31Item]fab.Target, it *c31Item) (t fab.Target) {
	if t, ok := made[it]; ok {
		return t
	}
	var ts []fab.Target
	for i := range it.kids {
		k := i
		if it.Kind == "files" {
			k = len(it.kids) - 1 - i // the prerequisite first
		}
		ts = append(ts, st.goTarget(con, made, it.kids[k]))
	}
	switch it.Kind {
	case "cmd":
		t = fab.Shellf("%s", st.shell(it))
	case "clean":
		t = &fab.Clean{Files: []string{st.cleaned(it)}}
	case "all":
		t = fab.All(ts...)
	case "seq":
		t = fab.Seq(ts...)
	case "deps":
		t = fab.Deps(ts[0], ts[1:]...)
	case "arg":
		t = fab.ArgTarget(ts[0], "x")
	case "files":
		t = fab.Files(ts[len(ts)-1], []string{st.input(it)}, []string{st.file(it, "out")})
	}
	if it.name != "" {
		var err error
		t, err = con.RegisterTarget(it.name, "", t)
		st.e.Must(err)
	}
	made[it] = t
	return t
}

func (st *c31State) yaml() string {
	var (
		defs []string
		done = map[*c31Item]bool{}
		gen  func(it *c31Item) string
	)
	quote := func(s string) string { return fmt.Sprintf("%q", s) }
	gen = func(it *c31Item) (y string) {
		if done[it] {
			return it.name
		}
		done[it] = true
		var ys []string
		for _, k := range it.kids {
			ys = append(ys, gen(k))
		}
		list := "[" + strings.Join(ys, ", ") + "]"
		switch it.Kind {
		case "cmd":
			y = "!Command {Shell: " + quote(st.shell(it)) + "}"
		case "clean":
			y = "!Clean [" + quote(st.cleaned(it)) + "]"
		case "all":
			y = "!All " + list
		case "seq":
			y = "!Seq " + list
		case "deps":
			y = "!Deps " + list
		case "arg":
			y = "!ArgTarget [" + ys[0] + `, "x"]`
		case "files":
			y = "!Files {Target: " + ys[0] + ", In: [" + quote(st.input(it)) + "], Out: [" + quote(st.file(it, "out")) + "]}"
		}
		if it.name != "" {
			defs = append(defs, it.name+": "+y+"\n")
			y = it.name
		}
		return y
	}
	gen(st.items[0])
	return strings.Join(defs, "")
}

var c31Token = regexp.MustCompile(`\b(T|Name(\d+)n)\b`)

// check compares the output of a verbose run with what it did.
func (st *c31State) check(out string) {
	e := st.e
	type line struct{ indent, at int }
	var (
		seen      = map[string][]line{} // by event
		order     []string
		lines     = strings.Split(out, "\n")
		anonymous = map[string]int{}
	)
	con := fab.NewController("")
	unnamed := map[string]string{ // by kind
		"cmd":   con.Describe(&fab.Command{}),
		"clean": con.Describe(&fab.Clean{}),
	}
	for at, l := range lines {
		text := strings.TrimLeft(l, " ")
		add := func(what string) {
			seen[what] = append(seen[what], line{len(l) - len(text), at})
			order = append(order, what)
		}
		for _, it := range st.items {
			named := false
			if it.name != "" {
				for _, m := range c31Token.FindAllString(text, -1) {
					named = named || m == it.name
				}
			}
			switch {
			case text == fmt.Sprintf("out%dx", it.id):
				add(fmt.Sprintf("output %d", it.id))
			case it.Kind == "cmd" && strings.Contains(text, fmt.Sprintf("echo out%dx", it.id)):
				add(fmt.Sprintf("command %d", it.id))
			case it.Kind == "clean" && strings.Contains(text, st.cleaned(it)):
				add(fmt.Sprintf("remove %d", it.id))
			case named && strings.Contains(text, "up to date"):
				add(fmt.Sprintf("fresh %d", it.id))
			case named && strings.HasPrefix(text, "Running "):
				add(fmt.Sprintf("start %d", it.id))
			}
		}
		for kind, u := range unnamed {
			if strings.TrimSpace(text) == "Running "+u {
				anonymous[kind]++
			}
		}
	}
	want := map[string]bool{}
	var wantOrder []string
	wantAnonymous := map[string]int{}
	for _, ev := range st.events {
		var (
			what string
			id   int
		)
		fmt.Sscanf(ev, "%s %d", &what, &id)
		it := st.items[id-1]
		if what == "start" && it.name == "" {
			if unnamed[it.Kind] != "" {
				wantAnonymous[it.Kind]++
			}
			continue
		}
		want[ev] = true
		wantOrder = append(wantOrder, ev)
	}
	for ev := range want {
		if len(seen[ev]) != 1 {
			e.Fatalf("%q is shown %d times, want once:\n%s\nwhat was done: %q", ev, len(seen[ev]), out, st.events)
		}
	}
	for ev := range seen {
		if !want[ev] {
			e.Fatalf("%q is shown, but was not done:\n%s\nwhat was done: %q", ev, out, st.events)
		}
	}
	for kind, u := range unnamed {
		if anonymous[kind] != wantAnonymous[kind] {
			e.Fatalf("%q is shown %d times, want %d:\n%s\nwhat was done: %q", "Running "+u, anonymous[kind], wantAnonymous[kind], out, st.events)
		}
	}
	if st.refs {
		e.Label("shared targets")
		return
	}
	// A target is announced before all that is done for it.
	for _, it := range st.items {
		start, ok := seen[fmt.Sprintf("start %d", it.id)]
		for up := it.up; ok && up != nil; up = up.up {
			above, ok := seen[fmt.Sprintf("start %d", up.id)]
			if !ok {
				continue
			}
			if above[0].at >= start[0].at {
				e.Fatalf("target %d is shown after %d, which is part of it:\n%s", up.id, it.id, out)
			}
			if !st.conc && above[0].indent >= start[0].indent {
				e.Fatalf("target %d is part of %d but not indented more:\n%s", it.id, up.id, out)
			}
		}
		for _, what := range []string{"command", "output", "remove", "fresh"} {
			if l, ok2 := seen[fmt.Sprintf("%s %d", what, it.id)]; ok && ok2 && start[0].at >= l[0].at {
				e.Fatalf("target %d is shown after what it does:\n%s", it.id, out)
			}
		}
	}
	if !st.conc {
		e.Label("sequential")
		if !equalStrings(order, wantOrder) {
			e.Fatalf("shown in order %q, want %q:\n%s", order, wantOrder, out)
		}
	}
}

func c31Exec(e *pbt.Env, c c31Case, run func(st *c31State, dry, force, verbose bool) (out string, ok bool)) {
	st := &c31State{e: e, c: c, recorded: map[*c31Item]bool{}}
	st.resolve(c.Root, nil)
	if c.Root.Kind == "ref" {
		e.Infra("no root")
	}
	for _, it := range st.items {
		if it.Kind == "files" {
			e.WriteFile(st.input(it), "x\n")
			if len(it.kids) > 1 {
				os.Remove(st.input(it))
			}
		}
	}
	e.Must(os.MkdirAll(filepath.Join(e.Dir, "d"), 0o755))
	for i, r := range c.Runs {
		st.dry, st.force = r.Dry, r.Force
		st.ran, st.fresh, st.events = map[*c31Item]bool{}, map[*c31Item]bool{}, nil
		want := st.run(st.items[0])
		verbose := !c.Quiet || i == len(c.Runs)-1
		out, ok := run(st, r.Dry, r.Force, verbose)
		if ok != want {
			e.Fatalf("run %d: success: %v, want %v", i, ok, want)
		}
		if verbose {
			st.check(out)
			if len(st.events) > 2 {
				e.NonTrivial()
			}
			e.LabelIf(len(st.fresh) > 0, "up to date")
			e.LabelIf(r.Dry, "dry")
			e.LabelIf(!want, "failure")
		}
	}
}

func c31Run(e *pbt.Env, c c31Case) {
	out := filepath.Join(e.Dir, "stdout")
	c31Exec(e, c, func(st *c31State, dry, force, verbose bool) (string, bool) {
		f, err := os.Create(out)
		e.Must(err)
		defer f.Close()
		os.Stdout, os.Stderr = f, f
		db, err := sqlite.Open(filepath.Join(e.Dir, "hash.db"))
		e.Must(err)
		defer db.Close()
		ctx := fab.WithHashDB(context.Background(), db)
		ctx = fab.WithDryRun(ctx, dry)
		ctx = fab.WithForce(ctx, force)
		ctx = fab.WithVerbose(ctx, verbose)
		con := fab.NewController(e.Dir)
		var root fab.Target
		if c.YAML {
			y := st.yaml()
			if err := con.ReadYAML(strings.NewReader(y), ""); err != nil {
				e.Fatalf("ReadYAML: %s\n%s", err, y)
			}
			root, _ = con.RegistryTarget("T")
		} else {
			root = st.goTarget(con, map[*c31Item]fab.Target{}, st.items[0])
		}
		err = con.Run(ctx, root)
		data, err2 := os.ReadFile(out)
		e.Must(err2)
		return string(data), err == nil
	})
}

func c31CLI(e *pbt.Env, c c31Case) {
	top := filepath.Join(e.Dir, "top")
	c31Exec(e, c, func(st *c31State, dry, force, verbose bool) (string, bool) {
		e.WriteFile(filepath.Join(top, "fab.yaml"), st.yaml())
		args := []string{"-fab", filepath.Join(e.Dir, "fabdir")}
		for _, f := range []struct {
			on   bool
			flag string
		}{{dry, "-n"}, {force, "-f"}, {verbose, "-v"}} {
			if f.on {
				args = append(args, f.flag)
			}
		}
		out, _, code := runFab(e, pbt.FabBin(), top, "", append(args, "T")...)
		return out, code == 0
	})
}

func init() {
	pbt.Register(&pbt.Prop{
		ID: "C31",
		Subs: []*pbt.Sub{
			pbt.NewSub("library", "histories of one to three runs (some dry or forced) of trees of composites, Files with prerequisites, Clean and commands, some named, shared or failing, from Go and YAML; non-trivial: a verbose run with more than two events", 6000, 300000, c31Gen(false), c31Run),
			pbt.NewSub("cli", "the same with the fab command", 800, 40000, c31Gen(true), c31CLI),
		},
		Assumptions: []string{"Messages of verbose runs are recognized by the words Running and up to date and the name of the target, and by the text of a command and the names of files."},
	})
}
