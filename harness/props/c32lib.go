package props

import (
	"context"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/bobg/fab"
	"pgregory.net/rapid"

	"verif/pbt"
)

// C32 in process: Files rules whose targets do not themselves tell in which project they are.

type c32LibRule struct {
	In, Out []string
	How     string // go, yaml, label, arg: how the rule is made, and how it refers to its target
	Text    string
}

type c32LibOp struct {
	Op    string // run, edit, del, copy, move
	Proj  int
	Rule  int
	File  string
	Text  string
	Force bool
}

type c32LibCase struct {
	Rules [2][]c32LibRule
	Init  [2]map[string]string
	Ops   []c32LibOp
	Where [2]string
}

func c32LibGen(t *rapid.T) c32LibCase {
	var c c32LibCase
	text := func() string { return pick(t, "text", "a", "b", "") }
	rules := func() []c32LibRule {
		var l []c32LibRule
		have := []string{"s0", "s1"}
		for i, n := 0, drawInt(t, 1, 3, "rules"); i < n; i++ {
			r := c32LibRule{How: pick(t, "how", "go", "label", "arg", "yaml"), Text: text()}
			for k := drawInt(t, 1, 2, "ins"); k > 0; k-- {
				r.In = append(r.In, have[uniform(t, len(have), "in")])
			}
			for k := drawInt(t, 1, 2, "outs"); k > 0; k-- {
				r.Out = append(r.Out, fmt.Sprintf("o%d%d", i, k))
			}
			have = append(have, r.Out...)
			l = append(l, r)
		}
		return l
	}
	c.Rules[0] = rules()
	c.Rules[1] = c.Rules[0]
	if chance(t, 25, "different rules") {
		c.Rules[1] = rules()
	}
	for p := range c.Init {
		c.Init[p] = map[string]string{"s0": text(), "s1": text()}
		if p == 1 && chance(t, 60, "same files") {
			c.Init[1] = c.Init[0]
		}
	}
	c.Where = pick(t, "where", [2]string{"p", "q"}, [2]string{"p", "x/p"}, [2]string{"p", "p/p"}, [2]string{"p", "p2"})
	for i := drawInt(t, 2, 9, "ops"); i > 0; i-- {
		op := c32LibOp{Proj: drawInt(t, 0, 1, "project")}
		rs := c.Rules[op.Proj]
		r := rs[len(rs)-1-uniform(t, len(rs), "rule")]
		files := append([]string{"s0", "s1"}, r.Out...)
		switch x := drawInt(t, 0, 99, "op"); {
		case x < 55:
			op.Op, op.Rule, op.Force = "run", len(rs)-1-uniform(t, len(rs), "rule"), chance(t, 8, "force")
		case x < 70:
			op.Op, op.File, op.Text = "edit", files[uniform(t, len(files), "file")], text()
		case x < 80:
			op.Op, op.File = "del", files[2+uniform(t, len(r.Out), "file")]
		default:
			op.Op = "copy"
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

// c32Target makes its outputs from its inputs. Its encoding does not tell where they are.
type c32Target struct {
	In, Out []string
	Text    string
}

func (*c32Target) Desc() string { return "c32" }

func (x *c32Target) Run(_ context.Context, con *fab.Controller) error {
	all := x.Text
	for _, f := range x.In {
		data, err := os.ReadFile(con.JoinPath(f))
		if err != nil {
			return err
		}
		all += string(data)
	}
	for _, f := range x.Out {
		if err := os.WriteFile(con.JoinPath(f), []byte(f+all), 0o644); err != nil {
			return err
		}
	}
	h, err := os.OpenFile(con.JoinPath("log"), os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644)
	if err != nil {
		return err
	}
	fmt.Fprintln(h, strings.Join(x.Out, "+"))
	return h.Close()
}

func c32LibPlay(e *pbt.Env, c c32LibCase, name string, shared bool) map[string]string {
	res := map[string]string{}
	var (
		dirs [2]string
		dbs  = [2]fab.HashDB{newMemDB(), newMemDB()}
	)
	if shared {
		dbs[1] = dbs[0]
	}
	for p := range dirs {
		dirs[p] = filepath.Join(e.Dir, name, c.Where[p])
	}
	// As with the fab command, every run has its own controller.
	load := func(p int) (*fab.Controller, []fab.Target) {
		con := fab.NewController(dirs[p])
		var tops []fab.Target
		y := ymap("")
		for i, r := range c.Rules[p] {
			t := &c32Target{In: r.In, Out: r.Out, Text: r.Text}
			label := fmt.Sprint("T", i)
			_, err := con.RegisterTarget(label, "", t)
			e.Must(err)
			if r.How == "go" {
				var in, out []string
				for _, f := range r.In {
					in = append(in, con.JoinPath(f))
				}
				for _, f := range r.Out {
					out = append(out, con.JoinPath(f))
				}
				_, err := con.RegisterTarget(fmt.Sprint("R", i), "", fab.Files(t, in, out))
				e.Must(err)
				continue
			}
			target := ystr(label)
			switch r.How {
			case "arg":
				target = yseq("ArgTarget", ystr(label))
			case "yaml":
				target = yseq("Seq", ystr(label))
			}
			in, out := yseq(""), yseq("")
			for _, f := range r.In {
				in.Seq = append(in.Seq, ystr(f))
			}
			for _, f := range r.Out {
				out.Seq = append(out.Seq, ystr(f))
			}
			y.add(fmt.Sprint("R", i), ymap("Files", "In", in, "Out", out, "Target", target))
		}
		if err := con.ReadYAML(strings.NewReader(y.text()), ""); err != nil {
			e.Fatalf("ReadYAML: %s\n%s", err, y.text())
		}
		for i := range c.Rules[p] {
			t, _ := con.RegistryTarget(fmt.Sprint("R", i))
			tops = append(tops, t)
		}
		return con, tops
	}
	for p := range dirs {
		for f, v := range c.Init[p] {
			e.WriteFile(filepath.Join(dirs[p], f), v)
		}
	}
	for i, op := range c.Ops {
		p := op.Proj
		switch op.Op {
		case "run":
			ctx := fab.WithForce(fab.WithHashDB(context.Background(), dbs[p]), op.Force)
			con, tops := load(p)
			err := con.Run(ctx, tops[op.Rule])
			res[fmt.Sprintf("error of op %d", i)] = strings.ReplaceAll(fmt.Sprint(err), filepath.Join(e.Dir, name), "DIR")
			for q := range dirs {
				log, _ := os.ReadFile(filepath.Join(dirs[q], "log"))
				os.Remove(filepath.Join(dirs[q], "log"))
				lines := strings.Fields(string(log))
				sort.Strings(lines)
				res[fmt.Sprintf("targets of project %d in op %d", q, i)] = strings.Join(lines, " ")
			}
		case "edit":
			e.WriteFile(filepath.Join(dirs[p], op.File), op.Text)
		case "del":
			os.Remove(filepath.Join(dirs[p], op.File))
		case "copy":
			// The files of one project become those of the other.
			ents, err := os.ReadDir(dirs[p])
			e.Must(err)
			for _, ent := range ents {
				if ent.IsDir() {
					continue
				}
				data, err := os.ReadFile(filepath.Join(dirs[p], ent.Name()))
				e.Must(err)
				e.WriteFile(filepath.Join(dirs[1-p], ent.Name()), string(data))
			}
		}
	}
	for p, dir := range dirs {
		for f, s := range snapshot(dir, false) {
			res[fmt.Sprintf("file %s of project %d", f, p)] = s
		}
	}
	return res
}

func c32LibRun(e *pbt.Env, c c32LibCase) {
	shared := c32LibPlay(e, c, "a", true)
	private := c32LibPlay(e, c, "b", false)
	if d := diffMaps(private, shared); d != "" {
		e.Fatalf("with a shared hash database, the effects differ from those with one for each project:\n%s", d)
	}
	var ran [2]bool
	for k, v := range shared {
		for p := range ran {
			ran[p] = ran[p] || v != "" && strings.HasPrefix(k, fmt.Sprintf("targets of project %d", p))
		}
	}
	if ran[0] && ran[1] {
		e.NonTrivial()
	}
	for _, op := range c.Ops {
		e.LabelIf(op.Op == "copy", "copy")
	}
}
