package props

import (
	"bytes"
	"context"
	"fmt"
	"sort"
	"strings"

	"github.com/bobg/fab"
	"pgregory.net/rapid"

	"verif/pbt"
)

// C16: the registry, listing, and command-line arguments.

type c16Op struct {
	Op     string // register, parse, list
	Name   string
	Doc    string
	Target int
	Args   []string
}

type c16Case struct{ Ops []c16Op }

var c16Names = []string{"A", "B", "a", "AB", "Ab", "x/A", "x/y/B", "Test-1", "été", "zz", "_", "A B"}

func c16Gen(t *rapid.T) c16Case {
	var c c16Case
	var known []string
	n := drawInt(t, 1, 25, "n")
	bad := pick(t, "bad", 0, 1, 3)
	arg := rapid.Custom(func(t *rapid.T) string {
		switch k := drawInt(t, 0, 9, "kind"); {
		case k < bad:
			return pick(t, "odd", "nope", "", "-", "-x", "--", "a-b", "nope2", "x/nope", "-A")
		default:
			return pick(t, "name", known...)
		}
	})
	doc := rapid.Custom(func(t *rapid.T) string {
		lines := rapid.SliceOfN(rapid.SampledFrom([]string{"", "one", "  two", "three.", "é", "$1 %s"}), 0, 4).Draw(t, "lines")
		return strings.TrimRight(strings.Join(lines, "\n"), "\n")
	})
	for i := 0; i < n; i++ {
		switch k := drawInt(t, 0, 9, "op"); {
		case i == 0 || k < 5:
			known = append(known, pick(t, "name", c16Names...))
			c.Ops = append(c.Ops, c16Op{Op: "register", Name: known[len(known)-1], Doc: doc.Draw(t, "doc"), Target: drawInt(t, 0, 7, "target")})
		case k < 9:
			op := c16Op{Op: "parse"}
			if chance(t, 40, "withargs") {
				op.Args = append([]string{arg.Draw(t, "name")}, pick(t, "hyphen", "-", "--", "-x", "-x=y", "-1"))
				op.Args = append(op.Args, rapid.SliceOfN(rapid.OneOf(arg, rapid.StringN(0, 5, -1)), 0, 4).Draw(t, "rest")...)
			} else {
				op.Args = rapid.SliceOfN(arg, 0, 5).Draw(t, "args")
			}
			c.Ops = append(c.Ops, op)
		default:
			c.Ops = append(c.Ops, c16Op{Op: "list"})
		}
	}
	return c
}

// argTargetT records the arguments it sees.
type argTargetT struct {
	id   int
	seen *[]string
	ran  int
}

func (a *argTargetT) Run(ctx context.Context, con *fab.Controller) error {
	a.ran++
	*a.seen = append(*a.seen, fmt.Sprintf("%d:%q", a.id, fab.GetArgs(ctx)))
	return nil
}
func (a *argTargetT) Desc() string { return fmt.Sprintf("argTarget%d", a.id) }

func c16Run(e *pbt.Env, c c16Case) {
	type reg struct {
		target int
		doc    string
	}
	var (
		con     = fab.NewController(e.Dir)
		seen    []string
		targets []*argTargetT
		names   = map[string]reg{}
		ever    = map[int]map[string]bool{}
		multi   bool
	)
	// A registration is in effect or is refused.
	bad := fab.NewController(e.Dir)
	if _, err := bad.RegisterTarget("x", "", c14Bad{}); err == nil {
		if t, _ := bad.RegistryTarget("x"); t == nil || len(bad.RegistryNames()) != 1 {
			e.Fatalf("a registration was neither refused nor made: %v", bad.RegistryNames())
		}
	} else if names := bad.RegistryNames(); len(names) > 0 {
		e.Fatalf("a registration was refused (%s) and made: %v", err, names)
	}
	for i := 0; i < 8; i++ {
		targets = append(targets, &argTargetT{id: i, seen: &seen})
		ever[i] = map[string]bool{}
	}
	check := func() {
		got := con.RegistryNames()
		if want := sortedKeys(names); !equalStrings(got, want) {
			e.Fatalf("RegistryNames: got %q, want %q", got, want)
		}
		for i := range got {
			got[i] = "changed by the caller"
		}
		for _, n := range append(c16Names, "nope") {
			r, ok := names[n]
			gt, gd := con.RegistryTarget(n)
			if !ok {
				if gt != nil {
					e.Fatalf("RegistryTarget(%q) is %v but nothing has that name", n, gt)
				}
				continue
			}
			if gt != fab.Target(targets[r.target]) || gd != r.doc {
				e.Fatalf("RegistryTarget(%q) is %v, %q, want target %d, %q", n, gt, gd, r.target, r.doc)
			}
		}
		for i, t := range targets {
			d := con.Describe(t)
			if len(ever[i]) == 0 {
				if d != "unnamed "+t.Desc() {
					e.Fatalf("Describe of unregistered target %d is %q", i, d)
				}
			} else if !ever[i][d] {
				e.Fatalf("Describe of target %d is %q, want one of its names %q", i, d, sortedKeys(ever[i]))
			}
		}
	}
	for pos, op := range c.Ops {
		switch op.Op {
		case "register":
			got, err := con.RegisterTarget(op.Name, op.Doc, targets[op.Target])
			if err != nil || got != fab.Target(targets[op.Target]) {
				e.Fatalf("op %d: RegisterTarget returned %v, %v", pos, got, err)
			}
			if _, ok := names[op.Name]; ok {
				e.Label("name registered again")
			}
			names[op.Name] = reg{op.Target, op.Doc}
			ever[op.Target][op.Name] = true
			multi = multi || strings.Contains(op.Doc, "\n")

		case "list":
			var buf bytes.Buffer
			con.ListTargets(&buf)
			var want strings.Builder
			for _, n := range sortedKeys(names) {
				want.WriteString(n + "\n")
				if d := names[n].doc; d != "" {
					for _, l := range strings.Split(d, "\n") {
						want.WriteString("    " + l + "\n")
					}
				}
			}
			if buf.String() != want.String() {
				e.Fatalf("op %d: ListTargets wrote %q, want %q", pos, buf.String(), want.String())
			}
			e.Label("list")

		case "parse":
			var (
				selected []string
				wantArgs []string
				unknown  []string
				argForm  = len(op.Args) > 1 && strings.HasPrefix(op.Args[1], "-")
			)
			selected = op.Args
			if argForm {
				selected = op.Args[:1]
				wantArgs = op.Args[1:]
			}
			for _, n := range selected {
				if _, ok := names[n]; !ok {
					unknown = append(unknown, n)
				}
			}
			orig := append([]string(nil), op.Args...)
			got, err := con.ParseArgs(op.Args)
			if !equalStrings(orig, op.Args) {
				e.Fatalf("op %d: ParseArgs changed its argument", pos)
			}
			if len(unknown) > 0 {
				if err == nil {
					e.Fatalf("op %d: ParseArgs(%q) accepted unknown names %q", pos, op.Args, unknown)
				}
				if len(got) > 0 {
					e.Fatalf("op %d: ParseArgs(%q) returned targets and an error", pos, op.Args)
				}
				for _, u := range unknown {
					if !strings.Contains(err.Error(), u) {
						e.Fatalf("op %d: ParseArgs(%q) did not report %q: %s", pos, op.Args, u, err)
					}
				}
				e.Label("unknown names")
				continue
			}
			if err != nil {
				e.Fatalf("op %d: ParseArgs(%q) failed: %s", pos, op.Args, err)
			}
			if len(got) != len(selected) {
				e.Fatalf("op %d: ParseArgs(%q) returned %d targets, want %d", pos, op.Args, len(got), len(selected))
			}
			if argForm {
				e.Label("arguments")
				// What counts is which target runs and what it sees.
				seen = nil
				con2 := fab.NewController(e.Dir)
				if err := con2.Run(context.Background(), got...); err != nil {
					e.Fatalf("op %d: running the parsed target: %s", pos, err)
				}
				if want := fmt.Sprintf("%d:%q", names[selected[0]].target, wantArgs); len(seen) != 1 || seen[0] != want {
					e.Fatalf("op %d: ParseArgs(%q): saw %q, want %q", pos, op.Args, seen, want)
				}
			} else {
				for i, n := range selected {
					if got[i] != fab.Target(targets[names[n].target]) {
						e.Fatalf("op %d: ParseArgs(%q): element %d is %v, want target %d", pos, op.Args, i, got[i], names[n].target)
					}
				}
				e.LabelIf(len(selected) > 1, "several names")
			}
			if len(names) > 1 {
				e.NonTrivial()
			}
		}
		check()
	}
	e.LabelIf(multi, "multi-line doc")
}

// Nested ArgTargets.

type c16Node struct {
	Kind string // leaf, arg, all, seq
	Args []string
	Kids []c16Node
}

func c16TreeGen(t *rapid.T) c16Node {
	var gen func(depth int) c16Node
	gen = func(depth int) c16Node {
		k := drawInt(t, 0, 9, "kind")
		if depth == 0 || k < 2 {
			return c16Node{Kind: "leaf"}
		}
		if k < 7 {
			return c16Node{Kind: "arg", Args: rapid.SliceOfN(rapid.StringN(0, 6, -1), 0, 3).Draw(t, "args"), Kids: []c16Node{gen(depth - 1)}}
		}
		n := c16Node{Kind: pick(t, "comp", "all", "seq")}
		for i := drawInt(t, 1, 3, "kids"); i > 0; i-- {
			n.Kids = append(n.Kids, gen(depth-1))
		}
		return n
	}
	return gen(4)
}

func c16TreeRun(e *pbt.Env, root c16Node) {
	var (
		log   logT
		want  []string
		n     int
		build func(c16Node, []string) fab.Target
	)
	build = func(x c16Node, args []string) fab.Target {
		var kids []fab.Target
		for _, k := range x.Kids {
			a := args
			if x.Kind == "arg" {
				a = x.Args
			}
			kids = append(kids, build(k, a))
		}
		switch x.Kind {
		case "arg":
			e.NonTrivial()
			return fab.ArgTarget(kids[0], x.Args...)
		case "all":
			return fab.All(kids...)
		case "seq":
			return fab.Seq(kids...)
		}
		n++
		id := n
		want = append(want, fmt.Sprintf("%d:%q", id, args))
		return fab.F(func(ctx context.Context, _ *fab.Controller) error {
			log.add("%d:%q", id, fab.GetArgs(ctx))
			return nil
		})
	}
	outer := []string{"outer", "-x"}
	ctx := fab.WithArgs(context.Background(), outer...)
	t := build(root, outer)
	if err := fab.NewController(e.Dir).Run(ctx, t); err != nil {
		e.Fatalf("Run: %s", err)
	}
	got := log.take()
	sort.Strings(got)
	sort.Strings(want)
	if !equalStrings(got, want) {
		e.Fatalf("targets saw %q, want %q", got, want)
	}
}

// Documentation strings from YAML.

type c16Def struct {
	Name  string
	Head  []string // comment lines above
	Line  string   // comment on the line of the name
	Body  string
	Blank int
}

type c16YAMLCase struct {
	Dir  string
	Decl int // position of the _dir declaration
	Defs []c16Def
}

func c16YAMLGen(t *rapid.T) c16YAMLCase {
	var c c16YAMLCase
	c.Dir = pick(t, "dir", "", "", "d", "d/e")
	n := drawInt(t, 1, 6, "n")
	names := rapid.Permutation([]string{"A", "B", "C", "Dd", "a1", "Zed", "é"}).Draw(t, "names")
	text := rapid.StringMatching(`[A-Za-z.,:é][A-Za-z0-9 .,:'#é]{0,12}[a-z.]`)
	for i := 0; i < n; i++ {
		d := c16Def{Name: names[i], Body: pick(t, "body", "seq", "cmd", "flow", "ref"), Blank: drawInt(t, 0, 2, "blank")}
		for k := drawInt(t, 0, 3, "lines"); k > 0; k-- {
			l := text.Draw(t, "text")
			if len(d.Head) > 0 && k > 1 && chance(t, 20, "empty") {
				l = ""
			}
			d.Head = append(d.Head, l)
		}
		if (d.Body == "seq" || d.Body == "cmd") && chance(t, 30, "line") {
			d.Line = text.Draw(t, "linetext")
		}
		c.Defs = append(c.Defs, d)
	}
	c.Decl = drawInt(t, 0, n, "decl")
	return c
}

func c16YAMLRun(e *pbt.Env, c c16YAMLCase) {
	var (
		b    strings.Builder
		docs = map[string]string{}
	)
	decl := func(i int) {
		if c.Dir != "" && i == c.Decl {
			fmt.Fprintf(&b, "_dir: %s\n\n", c.Dir)
		}
	}
	for i, d := range c.Defs {
		decl(i)
		for k, l := range d.Head {
			switch {
			case l == "":
				b.WriteString("#\n")
			case k%2 == 0:
				b.WriteString("# " + l + "\n")
			default:
				b.WriteString("#  " + l + "\n")
			}
		}
		b.WriteString(d.Name + ":")
		doc := strings.Join(d.Head, "\n")
		comment := ""
		if d.Line != "" {
			comment = " # " + d.Line
			if doc == "" {
				doc = d.Line
			}
		}
		// A tag on the line of the name belongs to the value, whose comments are not documentation.
		switch d.Body {
		case "seq":
			if comment != "" {
				b.WriteString(comment + "\n  !Seq\n  - Zed\n")
			} else {
				b.WriteString(" !Seq\n  - Zed\n")
			}
		case "cmd":
			if comment != "" {
				b.WriteString(comment + "\n  !Command\n  Shell: 'true'\n")
			} else {
				b.WriteString(" !Command\n  Shell: 'true'\n")
			}
		case "flow":
			b.WriteString(" !All [Zed, A]\n")
		default:
			b.WriteString(" Zed\n")
		}
		name := d.Name
		if c.Dir != "" {
			name = c.Dir + "/" + name
		}
		docs[name] = doc
		b.WriteString(strings.Repeat("\n", 1+d.Blank))
	}
	decl(len(c.Defs))
	con := fab.NewController(e.Dir)
	if err := con.ReadYAML(strings.NewReader(b.String()), c.Dir); err != nil {
		e.Fatalf("ReadYAML: %s\n%s", err, b.String())
	}
	if got, want := con.RegistryNames(), sortedKeys(docs); !equalStrings(got, want) {
		e.Fatalf("names %q, want %q\n%s", got, want, b.String())
	}
	var want strings.Builder
	for _, n := range sortedKeys(docs) {
		if _, got := con.RegistryTarget(n); got != docs[n] {
			e.Fatalf("documentation of %s is %q, want %q\n%s", n, got, docs[n], b.String())
		}
		if t, _ := con.RegistryTarget(n); con.Describe(t) != n {
			e.Fatalf("target %s is described as %q", n, con.Describe(t))
		}
		want.WriteString(n + "\n")
		if docs[n] != "" {
			e.NonTrivial()
			want.WriteString("    " + strings.ReplaceAll(docs[n], "\n", "\n    ") + "\n")
		}
	}
	var buf bytes.Buffer
	con.ListTargets(&buf)
	if buf.String() != want.String() {
		e.Fatalf("ListTargets wrote %q, want %q", buf.String(), want.String())
	}
}

func init() {
	pbt.Register(&pbt.Prop{
		ID: "C16",
		Subs: []*pbt.Sub{
			pbt.NewSub("registry", "sequences of registrations (with replacement and several names for one target), listings and argument lists, compared with a map; non-trivial: an argument list was accepted with more than one name registered", 24000, 1500000, c16Gen, c16Run),
			pbt.NewSub("argtree", "trees of ArgTarget, All and Seq over leaves that record their arguments; non-trivial: has an ArgTarget", 8000, 400000, c16TreeGen, c16TreeRun),
			pbt.NewSub("yamldoc", "YAML files with comments above and beside names; non-trivial: some target has documentation", 6000, 300000, c16YAMLGen, c16YAMLRun),
		},
	})
}
