package props

import (
	"context"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/bobg/fab"
	"github.com/bobg/fab/sqlite"
	"pgregory.net/rapid"

	"verif/pbt"
)

// C28: verbosity affects messages only.

type c28Case struct {
	C06     c06Case
	Verbose []bool // per run
	Dry     []bool
}

func c28Gen(t *rapid.T) c28Case {
	root, init, files := c06Project(t)
	fails, reads := chance(t, 30, "withFailures"), chance(t, 50, "readStdin")
	dirs := 0
	var change func(n *c04Node)
	change = func(n *c04Node) {
		if n.Kind == "shell" {
			if reads && chance(t, 30, "reads") {
				n.S += "; cat >>log"
			}
			if reads && chance(t, 30, "environment") {
				// What a command can see.
				n.S += "; { umask; env | grep -v '^PWD=\\|^OLDPWD=\\|^_=' | sort | cksum; } >>log"
			}
			if fails && chance(t, 10, "fails") {
				n.S += "; exit 3"
			}
		}
		if n.Kind == "clean" && fails && chance(t, 20, "fails") {
			// A directory that is not empty.
			dirs++
			d := fmt.Sprintf("jun%ddir", dirs)
			init[d+"/file"] = "x"
			n.Args = append(n.Args, d)
		}
		for _, k := range n.Kids {
			change(k)
		}
	}
	change(root)
	c := c28Case{C06: c06Case{Root: root, Init: init, YAML: drawBool(t, "yaml"), Style: drawInt(t, 0, 1000, "style")}}
	c.C06.History = append(c06Ops(t, files, 5), c06Op{Op: "real"})
	for range c.C06.History {
		c.Verbose = append(c.Verbose, chance(t, 70, "verbose"))
		c.Dry = append(c.Dry, chance(t, 15, "dry"))
	}
	return c
}

func c28Exec(e *pbt.Env, c c28Case, run func(dir, db string, dry, force, verbose bool) error) {
	play := func(name string, verbose bool) map[string]string {
		n := 0
		cc := c.C06
		dir := filepath.Join(e.Dir, name)
		res := c06Play(e, cc, name, false, func(d, db string, _, force, _ bool) error {
			i := n
			n++
			err := run(d, db, c.Dry[i], force, verbose && c.Verbose[i])
			return err
		})
		res["recorded"] = fmt.Sprint(len(dbRows(e, filepath.Join(dir+"db", "hash.db"))))
		return res
	}
	quiet := play("a", false)
	loud := play("b", true)
	if d := diffMaps(quiet, loud); d != "" {
		e.Fatalf("with -v, the effects differ:\n%s", d)
	}
	any, runs := false, 0
	for _, op := range c.C06.History {
		if op.Op == "real" {
			any = any || c.Verbose[runs]
			runs++
		}
	}
	for k, v := range quiet {
		if strings.HasPrefix(k, "run") {
			e.LabelIf(v == "true", "a run fails")
		}
		if any && strings.HasPrefix(k, "log") && v != "" {
			e.NonTrivial()
		}
	}
}

// c28Stdin is the standard input of fab.
func c28Stdin(e *pbt.Env) *os.File {
	f, err := os.Open(e.WriteFile(filepath.Join(e.Dir, "stdin"), "standard input\n"))
	e.Must(err)
	return f
}

func c28Run(e *pbt.Env, c c28Case) {
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	e.Must(err)
	e.Cleanup(func() { null.Close() })
	os.Stdout, os.Stderr = null, null
	c28Exec(e, c, func(dir, dbfile string, dry, force, verbose bool) error {
		old := os.Stdin
		os.Stdin = c28Stdin(e)
		defer func() {
			os.Stdin.Close()
			os.Stdin = old
		}()
		db, err := sqlite.Open(dbfile)
		e.Must(err)
		defer db.Close()
		ctx := fab.WithHashDB(context.Background(), db)
		ctx = fab.WithDryRun(ctx, dry)
		ctx = fab.WithForce(ctx, force)
		ctx = fab.WithVerbose(ctx, verbose)
		con := fab.NewController(dir)
		if !c.C06.YAML {
			return con.Run(ctx, c.C06.Root.goTarget(con))
		}
		if err := con.ReadYAML(strings.NewReader(c.C06.yaml()), ""); err != nil {
			e.Fatalf("ReadYAML: %s\n%s", err, c.C06.yaml())
		}
		t, _ := con.RegistryTarget("T")
		return con.Run(ctx, t)
	})
}

func c28CLI(e *pbt.Env, c c28Case) {
	c.C06.Init["fab.yaml"] = c.C06.yaml()
	c28Exec(e, c, func(dir, db string, dry, force, verbose bool) error {
		in := c28Stdin(e)
		defer in.Close()
		return c06Fab(e, dir, filepath.Dir(db), dry, force, verbose, in)
	})
}

func init() {
	pbt.Register(&pbt.Prop{
		ID: "C28",
		Subs: []*pbt.Sub{
			pbt.NewSub("tree", "histories of edits and runs (some forced or dry, some failing) of rule trees of the built-in kinds, from Go and YAML, once quiet and once with some runs verbose; non-trivial: a verbose run, and commands were executed", 1200, 60000, c28Gen, c28Run),
			pbt.NewSub("cli", "the same with fab and fab -v, in driverless mode; non-trivial as for tree", 200, 10000, c28Gen, c28CLI),
		},
	})
}
