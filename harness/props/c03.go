package props

import (
	"context"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/bobg/fab"
	"pgregory.net/rapid"

	"verif/pbt"
)

// C03: skipping by hash database, as a state machine over a chain of Files targets.

type c03Target struct {
	In, Out []string // names; a trailing slash means a directory
	Wrap    string   // "", all, seq, arg, chan (something that has no encoding)
}

type c03Op struct {
	Op   string // run, edit, del, break (the file becomes a symbolic link to itself), rule, evict, clear
	File string
	Text string
	T    int // target
	// run:
	Force, Dry, NoDB, Verbose bool
	Do                        []string // behaviour of each target's action
	Fault                     int      // the database call that fails (0 = none)
}

type c03Case struct {
	Targets []c03Target // each one's first input is an output (or below one) of the one before
	Init    map[string]string
	Ops     []c03Op
	Perm    bool // list names in another order and repeatedly in every other run
}

func c03Gen(t *rapid.T) c03Case {
	c := c03Case{Init: map[string]string{}, Perm: drawBool(t, "perm")}
	n := pick(t, "targets", 1, 1, 2, 2, 3)
	var files []string
	addFile := func(f string) {
		files = append(files, f)
		if chance(t, 70, "exists") {
			c.Init[f] = pick(t, "text", "a", "b", "")
		}
	}
	for i := 0; i < n; i++ {
		tg := c03Target{Wrap: pick(t, "wrap", "", "", "", "all", "seq", "arg")}
		if chance(t, 4, "unencodable") {
			tg.Wrap = "chan"
		}
		if i > 0 {
			prev := c.Targets[i-1].Out
			o := prev[uniform(t, len(prev), "from")]
			if strings.HasSuffix(o, "/") && drawBool(t, "below") {
				o += "gen"
			}
			tg.In = append(tg.In, o)
		}
		for k := drawInt(t, 0, 2, "ins"); k > 0; k-- {
			name := fmt.Sprintf("t%di%d", i, k)
			if chance(t, 25, "dir") {
				addFile(name + "/x")
				addFile(name + "/y")
				name += "/"
			} else {
				addFile(name)
			}
			tg.In = append(tg.In, name)
		}
		lo := 0
		if i < n-1 {
			lo = 1
		}
		for k := drawInt(t, lo, 2, "outs"); k > 0; k-- {
			name := fmt.Sprintf("t%do%d", i, k)
			if chance(t, 25, "dir") {
				files = append(files, name+"/gen", name+"/extra")
				name += "/"
			} else {
				files = append(files, name)
			}
			tg.Out = append(tg.Out, name)
			if chance(t, 15, "inplace") && !strings.HasSuffix(name, "/") {
				tg.In = append(tg.In, name)
			}
		}
		c.Targets = append(c.Targets, tg)
	}
	for k := drawInt(t, 2, 25, "ops"); k > 0; k-- {
		var op c03Op
		switch x := drawInt(t, 0, 99, "op"); {
		case x < 55 || len(files) == 0:
			op = c03Op{Op: "run", T: n - 1}
			if chance(t, 15, "sub") {
				op.T = uniform(t, n, "target")
			}
			switch drawInt(t, 0, 19, "mode") {
			case 0, 1:
				op.Force = true
			case 2:
				op.Dry = true
			case 3:
				op.NoDB = true
			case 4:
				op.Force, op.Dry = true, true
			case 5:
				op.Force, op.NoDB = true, true
			}
			op.Verbose = chance(t, 10, "verbose")
			for i := 0; i < n; i++ {
				do := "write"
				if chance(t, 40, "odd") {
					do = pick(t, "do", "noop", "rand", "delete", "fail", "failwrite", "partial", "editin")
				}
				op.Do = append(op.Do, do)
			}
			if chance(t, 15, "fault") {
				op.Fault = drawInt(t, 1, 2*n, "fault")
			}
		case x < 75:
			op = c03Op{Op: "edit", File: files[uniform(t, len(files), "file")], Text: pick(t, "text", "a", "b", "")}
		case x < 77:
			op = c03Op{Op: "break", File: files[uniform(t, len(files), "file")]}
		case x < 85:
			op = c03Op{Op: "del", File: files[uniform(t, len(files), "file")]}
		case x < 91:
			op = c03Op{Op: "rule", T: uniform(t, n, "target")}
		case x < 97:
			op = c03Op{Op: "evict", T: drawInt(t, 0, 5, "which")}
		default:
			op = c03Op{Op: "clear"}
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

type c03Sub struct {
	Rule string
	st   *c03State
	i    int
}

func (s *c03Sub) Desc() string { return "sub" }

// c03Chan has no encoding.
type c03Chan struct {
	*c03Sub
	C chan int
}

var (
	errC03      = errors.New("action failed")
	errC03State = errors.New("state cannot be determined")
)

// c03Broken is the contents, in the model, of a symbolic link to itself.
const c03Broken = "\x00broken"

func (s *c03Sub) Run(ctx context.Context, con *fab.Controller) error {
	s.st.log = append(s.st.log, s.i)
	if fab.GetDryRun(ctx) {
		if s.st.do[s.i] == "fail" {
			return errC03
		}
		return nil
	}
	return s.st.act(s.i, s.st.real)
}

// c03FS is a file system, real or modelled.
type c03FS struct {
	dir string
	m   map[string]string // when modelled
}

func (f c03FS) read(name string) (string, bool) {
	if f.m != nil {
		s, ok := f.m[name]
		if s == c03Broken {
			return "", false
		}
		return s, ok
	}
	data, err := os.ReadFile(filepath.Join(f.dir, name))
	return string(data), err == nil
}

func (f c03FS) write(name, s string) {
	if f.m != nil {
		f.m[name] = s
		return
	}
	p := filepath.Join(f.dir, name)
	os.MkdirAll(filepath.Dir(p), 0755)
	if info, err := os.Lstat(p); err == nil && info.Mode()&os.ModeSymlink != 0 {
		os.Remove(p)
	}
	if err := os.WriteFile(p, []byte(s), 0644); err != nil {
		panic(err)
	}
}

func (f c03FS) breakFile(name string) {
	if f.m != nil {
		f.m[name] = c03Broken
		return
	}
	p := filepath.Join(f.dir, name)
	os.MkdirAll(filepath.Dir(p), 0755)
	os.Remove(p)
	if err := os.Symlink(filepath.Base(p), p); err != nil {
		panic(err)
	}
}

func (f c03FS) remove(name string) {
	if f.m != nil {
		delete(f.m, name)
		return
	}
	os.Remove(filepath.Join(f.dir, name))
}

type c03State struct {
	e     *pbt.Env
	c     c03Case
	real  c03FS
	model c03FS
	rules []int
	do    []string
	log   []int
	uniq  int
}

func c03Gens(o string) string {
	if strings.HasSuffix(o, "/") {
		return o + "gen"
	}
	return o
}

// act is what target i does.
func (st *c03State) act(i int, fs c03FS) error {
	tg, do := st.c.Targets[i], st.do[i]
	if do == "fail" {
		return errC03
	}
	if do == "noop" {
		return nil
	}
	if do == "delete" {
		if len(tg.Out) > 0 {
			fs.remove(c03Gens(tg.Out[0]))
		}
		return nil
	}
	if do == "editin" {
		if len(tg.In) > 0 && !strings.HasSuffix(tg.In[len(tg.In)-1], "/") {
			fs.write(tg.In[len(tg.In)-1], "edited")
		}
	}
	var b strings.Builder
	fmt.Fprintf(&b, "r%d", st.rules[i])
	for _, in := range tg.In {
		s, ok := fs.read(c03Gens(in))
		fmt.Fprintf(&b, "(%s %v)", s, ok)
	}
	if do == "rand" {
		fmt.Fprintf(&b, "#%d", st.uniq)
	}
	s := b.String()
	if len(s) > 60 {
		s = fmt.Sprintf("%.20s...%d", s, c03Hash(s))
	}
	for k, o := range tg.Out {
		if do == "partial" && k > 0 {
			break
		}
		fs.write(c03Gens(o), s)
	}
	if do == "failwrite" {
		return errC03
	}
	return nil
}

func c03Hash(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

// state describes what target i's being up to date depends on, in the model.
// It is empty when that cannot be determined.
func (st *c03State) state(i int) string {
	if st.c.Targets[i].Wrap == "chan" {
		return ""
	}
	var parts []string
	for _, l := range []struct {
		kind  string
		names []string
	}{{"in", st.c.Targets[i].In}, {"out", st.c.Targets[i].Out}} {
		m := map[string]string{}
		for _, n := range l.names {
			if strings.HasSuffix(n, "/") {
				for k, v := range st.model.m {
					if strings.HasPrefix(k, n) {
						m[k] = "+" + v
					}
				}
			} else if v, ok := st.model.m[n]; ok {
				m[n] = "+" + v
			} else {
				m[n] = "-"
			}
		}
		for k, v := range m {
			if v == "+"+c03Broken {
				return ""
			}
			parts = append(parts, fmt.Sprintf("%s %q %q", l.kind, k, v))
		}
	}
	sort.Strings(parts)
	return fmt.Sprintf("target %d rule %d: %s", i, st.rules[i], strings.Join(parts, ", "))
}

var errC03DB = errors.New("database failed")

type c03DB struct {
	*memDB
	calls, fault int
	adds         []string // of this run
	faulted      string
}

func (d *c03DB) Has(ctx context.Context, h []byte) (bool, error) {
	if d.calls++; d.calls == d.fault {
		d.faulted = "has"
		// The answer that comes with an error means nothing.
		return true, errC03DB
	}
	return d.memDB.Has(ctx, h)
}

func (d *c03DB) Add(ctx context.Context, h []byte) error {
	if d.calls++; d.calls == d.fault {
		d.faulted = "add"
		return errC03DB
	}
	d.adds = append(d.adds, string(h))
	return d.memDB.Add(ctx, h)
}

func c03Run(e *pbt.Env, c c03Case) {
	dir := filepath.Join(e.Dir, "p")
	e.Must(os.MkdirAll(dir, 0755))
	st := &c03State{e: e, c: c, real: c03FS{dir: dir}, model: c03FS{m: map[string]string{}}, rules: make([]int, len(c.Targets))}
	for _, k := range sortedKeys(c.Init) {
		st.real.write(k, c.Init[k])
		st.model.write(k, c.Init[k])
	}
	for _, tg := range c.Targets {
		for _, l := range [][]string{tg.In, tg.Out} {
			for _, n := range l {
				if strings.HasSuffix(n, "/") {
					e.Must(os.MkdirAll(filepath.Join(dir, n), 0755))
				}
			}
		}
	}
	var (
		db     = &c03DB{memDB: newMemDB()}
		states = map[string]string{} // model state to hash
		hashes = map[string]string{} // and back
		order  []string              // states held, oldest first
		skips  int
		execs  int
	)
	holds := func(s string) bool {
		for _, o := range order {
			if o == s {
				return true
			}
		}
		return false
	}
	devnull, err := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	e.Must(err)
	oldStdout := os.Stdout
	os.Stdout = devnull
	e.Cleanup(func() { os.Stdout = oldStdout; devnull.Close() })

	for step, op := range c.Ops {
		what := fmt.Sprintf("step %d (%s)", step, op.Op)
		switch op.Op {
		case "edit":
			st.real.write(op.File, op.Text)
			st.model.write(op.File, op.Text)
		case "del":
			st.real.remove(op.File)
			st.model.remove(op.File)
		case "break":
			st.real.breakFile(op.File)
			st.model.breakFile(op.File)
		case "rule":
			st.rules[op.T] = (st.rules[op.T] + 1) % 3
		case "evict":
			if len(order) > 0 {
				i := op.T % len(order)
				delete(db.m, states[order[i]])
				order = append(order[:i:i], order[i+1:]...)
			}
		case "clear":
			db.m, order = map[string]bool{}, nil
		case "run":
			st.do, st.log = op.Do, nil
			st.uniq++
			db.calls, db.fault, db.adds, db.faulted = 0, op.Fault, nil, ""

			// The real thing.
			var ts []fab.Target
			for i, tg := range c.Targets {
				var sub fab.Target = &c03Sub{Rule: fmt.Sprintf("rule %d of target %d", st.rules[i], i), st: st, i: i}
				switch tg.Wrap {
				case "all":
					sub = fab.All(sub)
				case "seq":
					sub = fab.Seq(sub)
				case "arg":
					sub = fab.ArgTarget(sub, "x")
				case "chan":
					sub = &c03Chan{c03Sub: sub.(*c03Sub)}
				}
				names := func(l []string) []string {
					var r []string
					for _, n := range l {
						r = append(r, filepath.Join(dir, n))
					}
					if c.Perm && step%2 == 1 && len(r) > 0 {
						for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
							r[i], r[j] = r[j], r[i]
						}
						r = append(r, r[0])
					}
					return r
				}
				ts = append(ts, fab.Files(sub, names(tg.In), names(tg.Out)))
			}
			ctx := context.Background()
			if !op.NoDB {
				ctx = fab.WithHashDB(ctx, db)
			}
			ctx = fab.WithForce(ctx, op.Force)
			ctx = fab.WithDryRun(ctx, op.Dry)
			ctx = fab.WithVerbose(ctx, op.Verbose)
			con := fab.NewController(dir)
			gotErr := con.Run(ctx, ts[op.T])

			// The model.
			var (
				wantLog  []int
				wantAdds []string
				wantErr  error
				calls    int
			)
			useDB := !op.NoDB && !op.Dry
			faults := func() bool {
				calls++
				return op.Fault == calls
			}
			var run func(i int) error
			run = func(i int) error {
				if i > 0 {
					if err := run(i - 1); err != nil {
						return err
					}
				}
				if useDB && !op.Force {
					if st.state(i) == "" {
						return errC03State
					}
					if faults() {
						return errC03DB
					}
					if holds(st.state(i)) {
						skips++
						return nil
					}
				}
				wantLog = append(wantLog, i)
				execs++
				if op.Dry {
					if op.Do[i] == "fail" {
						return errC03
					}
					return nil
				}
				if err := st.act(i, st.model); err != nil {
					return err
				}
				if useDB {
					s := st.state(i)
					if s == "" {
						return errC03State
					}
					if faults() {
						return errC03DB
					}
					wantAdds = append(wantAdds, s)
					if !holds(s) {
						order = append(order, s)
					}
				}
				return nil
			}
			wantErr = run(op.T)

			if fmt.Sprint(st.log) != fmt.Sprint(wantLog) {
				e.Fatalf("%s %+v: executed %v, want %v\nfiles %v", what, op, st.log, wantLog, st.model.m)
			}
			switch {
			case wantErr == nil && gotErr != nil:
				e.Fatalf("%s %+v: unexpected error %v", what, op, gotErr)
			case wantErr == errC03State:
				if gotErr == nil || errors.Is(gotErr, errC03) || errors.Is(gotErr, errC03DB) {
					e.Fatalf("%s %+v: got error %v, want one that says that the state cannot be determined", what, op, gotErr)
				}
			case wantErr != nil && !errors.Is(gotErr, wantErr):
				e.Fatalf("%s %+v: got error %v, want %v", what, op, gotErr, wantErr)
			}
			if len(db.adds) != len(wantAdds) {
				e.Fatalf("%s %+v: recorded %d states, want %d", what, op, len(db.adds), len(wantAdds))
			}
			for i, s := range wantAdds {
				h := db.adds[i]
				if old, ok := states[s]; ok && old != h {
					e.Fatalf("%s: the same state was recorded in two ways: %s", what, s)
				}
				if old, ok := hashes[h]; ok && old != s {
					e.Fatalf("%s: two states were recorded as one: %s; %s", what, old, s)
				}
				states[s], hashes[h] = h, s
			}
			if len(db.m) != len(order) {
				e.Fatalf("%s: the database has %d entries, want %d", what, len(db.m), len(order))
			}
			e.LabelIf(wantErr == errC03, "failing action")
			e.LabelIf(wantErr == errC03DB, "database fault")
			e.LabelIf(wantErr == errC03State, "undetermined state")
		}
		// Files never differ from the model's.
		for k, v := range st.model.m {
			if s, ok := st.real.read(k); v == c03Broken && ok || v != c03Broken && (!ok || s != v) {
				e.Fatalf("%s: file %s is %q, want %q", what, k, s, v)
			}
		}
	}
	if skips > 0 && execs > 1 {
		e.NonTrivial()
	}
	e.LabelIf(len(c.Targets) > 1, "chain")
	e.LabelIf(skips > 0, "skip")
}

func init() {
	pbt.Register(&pbt.Prop{
		ID: "C03",
		Subs: []*pbt.Sub{
			pbt.NewSub("history", "histories of edits, deletions, rule changes, evictions and runs (forced, dry, without database, with failing actions and database faults) of a chain of one to three Files targets; non-trivial: something was skipped and something was run more than once", 10000, 500000, c03Gen, c03Run),
		},
	})
}
