package props

import (
	"context"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/bobg/fab"
	"github.com/bobg/fab/sqlite"
	"pgregory.net/rapid"

	"verif/pbt"
)

// C26: interrupted and failed builds, resumed.

type c26Out struct {
	Name string
	Dir  bool // a directory, containing a and b
}

type c26Rule struct {
	In  []string
	Out []c26Out
	How string // shell, seq, all, stdout
}

// stages is the number of marks that each output contributes.
const c26Stages = 3

type c26Node struct {
	Kind string // rule, seq, all, deps
	Rule int
	Kids []*c26Node
}

type c26Edit struct {
	File string
	Text string
	Del  bool
}

type c26Build struct {
	Edits []c26Edit // before the run
	Force bool
	Fault string // "", or see c26Faults; in the last build it is ""
	Rule  int
	Stage int
	N     int // µs, or which database call
}

type c26Case struct {
	Rules  []c26Rule
	Src    map[string]string
	Tops   []*c26Node
	Builds []c26Build
	SQLite bool
	Pause  int
}

func c26Gen(faults ...string) func(t *rapid.T) c26Case {
	return func(t *rapid.T) c26Case {
		c := c26Case{Src: map[string]string{}, SQLite: chance(t, 10, "sqlite"), Pause: drawInt(t, 0, 2, "pause")}
		var srcs, outs, edits []string
		text := func() string { return pick(t, "text", "a\n", "b\n", "") }
		for i, n := 0, drawInt(t, 1, 3, "sources"); i < n; i++ {
			s := fmt.Sprintf("s%d", i)
			c.Src[s] = text()
			srcs = append(srcs, s)
		}
		n := drawInt(t, 1, 6, "rules")
		for i := 0; i < n; i++ {
			r := c26Rule{How: pick(t, "how", "shell", "shell", "seq", "all", "stdout")}
			used := map[string]bool{}
			for k := drawInt(t, 1, 3, "ins"); k > 0; k-- {
				from := srcs
				if len(outs) > 0 && chance(t, 65, "chained") {
					from = outs
				}
				in := from[uniform(t, len(from), "in")]
				if !used[in] {
					r.In = append(r.In, in)
				}
				used[in] = true
			}
			for k := drawInt(t, 1, 2, "outs"); k > 0; k-- {
				o := c26Out{Name: fmt.Sprintf("o%d_%d", i, k)}
				if r.How != "stdout" {
					o.Dir = chance(t, 20, "dir")
				}
				r.Out = append(r.Out, o)
				if r.How == "stdout" {
					break
				}
			}
			for _, o := range r.Out {
				outs = append(outs, o.Name)
				if o.Dir {
					edits = append(edits, o.Name+"/a", o.Name+"/extra")
				} else {
					edits = append(edits, o.Name)
				}
			}
			c.Rules = append(c.Rules, r)
		}
		edits = append(edits, srcs...)
		var gen func(depth int) *c26Node
		gen = func(depth int) *c26Node {
			if depth == 0 || chance(t, 40, "leaf") {
				return &c26Node{Kind: "rule", Rule: n - 1 - uniform(t, n, "rule")}
			}
			nd := &c26Node{Kind: pick(t, "node", "seq", "all", "deps")}
			for k := drawInt(t, 1, 3, "kids"); k > 0; k-- {
				nd.Kids = append(nd.Kids, gen(depth-1))
			}
			return nd
		}
		for k := drawInt(t, 1, 3, "tops"); k > 0; k-- {
			c.Tops = append(c.Tops, gen(2))
		}
		build := func(fault string) {
			b := c26Build{Fault: fault, Force: chance(t, 15, "force")}
			for k := drawInt(t, 0, 3, "edits") - 1; k > 0; k-- {
				ed := c26Edit{File: edits[len(edits)-1-uniform(t, len(edits), "file")], Text: text()}
				if !strings.HasPrefix(ed.File, "s") {
					ed.Del = drawBool(t, "del")
				}
				b.Edits = append(b.Edits, ed)
			}
			if fault != "" {
				b.Rule = n - 1 - uniform(t, n, "rule")
				b.Stage = uniform(t, c26Stages*len(c.Rules[b.Rule].Out), "stage")
				switch fault {
				case "time":
					b.N = drawInt(t, 0, 20, "ms")*1000 + drawInt(t, 0, 999, "us")
				case "has", "add":
					b.N = drawInt(t, 0, n, "call")
				}
			}
			c.Builds = append(c.Builds, b)
		}
		if chance(t, 40, "built before") {
			build("")
		}
		for k := drawInt(t, 1, 3, "faults"); k > 0; k-- {
			build(pick(t, "fault", faults...))
			if chance(t, 15, "complete") {
				build("")
			}
		}
		build("")
		last := &c.Builds[len(c.Builds)-1]
		last.Force = false
		if !chance(t, 15, "edits before resuming") {
			last.Edits = nil
		}
		return c
	}
}

func (c c26Case) producer(file string) int {
	for i, r := range c.Rules {
		for _, o := range r.Out {
			if o.Name == file {
				return i
			}
		}
	}
	return -1
}

// rules adds the rules that a node runs, prerequisites included.
func (c c26Case) rules(nd *c26Node, to map[int]bool) {
	if nd.Kind == "rule" {
		to[nd.Rule] = true
		for _, in := range c.Rules[nd.Rule].In {
			if p := c.producer(in); p >= 0 {
				c.rules(&c26Node{Kind: "rule", Rule: p}, to)
			}
		}
	}
	for _, k := range nd.Kids {
		c.rules(k, to)
	}
}

// before tells for each rule which others have to be complete when it starts.
func (c c26Case) before() map[int]map[int]bool {
	res := map[int]map[int]bool{}
	union := func(done map[int]bool, nd *c26Node) map[int]bool {
		u := map[int]bool{}
		for k := range done {
			u[k] = true
		}
		c.rules(nd, u)
		return u
	}
	var visit func(nd *c26Node, done map[int]bool)
	visit = func(nd *c26Node, done map[int]bool) {
		switch nd.Kind {
		case "rule":
			mine := done
			for _, in := range c.Rules[nd.Rule].In {
				if p := c.producer(in); p >= 0 {
					k := &c26Node{Kind: "rule", Rule: p}
					visit(k, done)
					mine = union(mine, k)
				}
			}
			if old, ok := res[nd.Rule]; ok {
				for k := range old {
					if !mine[k] {
						delete(old, k)
					}
				}
				return
			}
			cp := map[int]bool{}
			for k := range mine {
				cp[k] = k != nd.Rule
			}
			delete(cp, nd.Rule)
			res[nd.Rule] = cp
		case "all":
			for _, k := range nd.Kids {
				visit(k, done)
			}
		case "seq":
			for _, k := range nd.Kids {
				visit(k, done)
				done = union(done, k)
			}
		case "deps": // the first one depends on the others
			mine := done
			for _, k := range nd.Kids[1:] {
				visit(k, done)
				mine = union(mine, k)
			}
			visit(nd.Kids[0], mine)
		}
	}
	for _, nd := range c.Tops {
		visit(nd, nil)
	}
	return res
}

// content gives the files that a complete build leaves for the given files.
func (c c26Case) content(fs map[string]string, closure map[int]bool) map[string]string {
	res := map[string]string{}
	for f, v := range fs {
		res[f] = v
	}
	for i, r := range c.Rules {
		if !closure[i] {
			continue
		}
		text := ""
		for _, in := range r.In {
			if v, ok := res[in]; ok {
				text += v
			} else {
				text += res[in+"/a"] + res[in+"/b"]
			}
		}
		for _, o := range r.Out {
			v := o.Name + "\n" + text
			if o.Dir {
				for f := range res {
					if strings.HasPrefix(f, o.Name+"/") {
						delete(res, f)
					}
				}
				res[o.Name+"/a"], res[o.Name+"/b"] = v, "end\n"
			} else {
				res[o.Name] = v + "end\n"
			}
		}
	}
	return res
}

func (c c26Case) yaml() string {
	mark := func(i, j int) string {
		return fmt.Sprintf("echo %d.%d >>log; [ ! -e at.%d.%d ] || . ./fault; ", i, j, i, j)
	}
	y := ymap("")
	list := func(l []string) *Y {
		q := yseq("")
		for _, s := range l {
			q.Seq = append(q.Seq, ystr(s))
		}
		return q
	}
	for i, r := range c.Rules {
		var cmds []string
		var outs []string
		ins := ""
		for _, in := range r.In {
			ins += " " + in
			if p := c.producer(in); p >= 0 {
				for _, o := range c.Rules[p].Out {
					if o.Name == in && o.Dir {
						ins += "/a " + in + "/b"
					}
				}
			}
		}
		for k, o := range r.Out {
			outs = append(outs, o.Name)
			s := "set -e; " + mark(i, c26Stages*k)
			switch {
			case r.How == "stdout":
				s += fmt.Sprintf("echo %s; cat %s; %s echo end; %s", o.Name, ins, mark(i, c26Stages*k+1), mark(i, c26Stages*k+2))
			case o.Dir:
				s += fmt.Sprintf("rm -rf %s; mkdir %s; { echo %s; cat %s; } >%s/a; %s echo end >%s/b; %s", o.Name, o.Name, o.Name, ins, o.Name, mark(i, c26Stages*k+1), o.Name, mark(i, c26Stages*k+2))
			default:
				s += fmt.Sprintf("{ echo %s; cat %s; } >%s; %s echo end >>%s; %s", o.Name, ins, o.Name, mark(i, c26Stages*k+1), o.Name, mark(i, c26Stages*k+2))
			}
			cmds = append(cmds, s)
		}
		var target *Y
		cmd := func(s string) *Y {
			m := ymap("Command", "Shell", ystr(s), "Dir", ystr("."))
			if r.How == "stdout" {
				m.add("Stdout", ystr(outs[0]))
			}
			return m
		}
		switch r.How {
		case "seq", "all":
			target = yseq(map[string]string{"seq": "Seq", "all": "All"}[r.How])
			for _, s := range cmds {
				target.Seq = append(target.Seq, cmd(s))
			}
		default:
			target = cmd(strings.Join(cmds, ""))
		}
		y.add(fmt.Sprint("R", i), ymap("Files", "In", list(r.In), "Out", list(outs), "Target", target))
	}
	var node func(nd *c26Node) *Y
	node = func(nd *c26Node) *Y {
		if nd.Kind == "rule" {
			return ystr(fmt.Sprint("R", nd.Rule))
		}
		q := yseq(map[string]string{"seq": "Seq", "all": "All", "deps": "Deps"}[nd.Kind])
		for _, k := range nd.Kids {
			q.Seq = append(q.Seq, node(k))
		}
		return q
	}
	for i, nd := range c.Tops {
		v := node(nd)
		if nd.Kind == "rule" {
			v = yseq("Seq", v)
		}
		y.add(fmt.Sprint("T", i), v)
	}
	return y.text()
}

// c26Outcome is what one run of the build did.
type c26Outcome struct {
	marks map[[2]int]int // those that were reached
	ended bool           // not killed
	ok    bool
	text  string
}

// c26Do performs the case. The function run does one build.
func c26Do(e *pbt.Env, c c26Case, dir string, run func(i int, b c26Build) c26Outcome) {
	e.Must(os.MkdirAll(dir, 0o755))
	for f, v := range c.Src {
		e.WriteFile(filepath.Join(dir, f), v)
	}
	closure := map[int]bool{}
	for _, nd := range c.Tops {
		c.rules(nd, closure)
	}
	before := c.before()
	src := map[string]string{}
	for f, v := range c.Src {
		src[f] = v
	}
	ignored := func(f string) bool {
		return f == "log" || f == "fault" || f == "abort" || f == "fab.yaml" || strings.HasPrefix(f, "at.")
	}
	read := func() map[string]string {
		fs := map[string]string{}
		c05Read(dir, ".", fs)
		for f := range fs {
			if ignored(f) {
				delete(fs, f)
			}
		}
		return fs
	}
	names := func(m map[int]bool) []int {
		var r []int
		for k := range m {
			r = append(r, k)
		}
		sort.Ints(r)
		return r
	}
	var (
		complete              map[int]bool // by the previous run, and nothing has changed since
		fired, partly, spared bool
	)
	for i, b := range c.Builds {
		what := fmt.Sprintf("build %d (%+v)", i, b)
		for _, ed := range b.Edits {
			p := filepath.Join(dir, ed.File)
			if c05Blocked(dir, ed.File) {
				continue
			}
			complete = nil
			if ed.Del {
				e.Must(os.RemoveAll(p))
				continue
			}
			e.WriteFile(p, ed.Text)
		}
		start := read()
		o := run(i, b)
		ran := map[int]bool{}
		for m := range o.marks {
			ran[m[0]] = true
		}
		for k := range ran {
			if !closure[k] {
				e.Fatalf("%s ran rule %d, which is not needed", what, k)
			}
			if complete[k] && !b.Force {
				e.Fatalf("%s: rule %d was complete after the previous build (%v), and nothing has changed, but it ran again\n%s", what, k, names(complete), o.text)
			}
		}
		for m, n := range o.marks {
			if n > 1 {
				e.Fatalf("%s reached stage %v %d times", what, m, n)
			}
		}
		hit := b.Fault != "" && b.Fault != "time" && b.Fault != "has" && b.Fault != "add" && o.marks[[2]int{b.Rule, b.Stage}] > 0
		switch {
		case hit && b.Fault != "cancel" && o.ok:
			e.Fatalf("%s succeeded, though a command did not\n%s", what, o.text)
		case b.Fault == "" && !o.ok:
			e.Fatalf("%s failed\n%s", what, o.text)
		}
		if b.Fault == "" && complete != nil && !b.Force {
			spared = spared || len(complete) > 0
		}
		if !o.ok {
			fired = true
		}
		if o.ok {
			want := c.content(start, closure)
			if d := diffMaps(want, read()); d != "" {
				e.Fatalf("%s succeeded, but its results are not those of an uninterrupted build (it ran %v):\n%s%s", what, names(ran), d, o.text)
			}
			o2 := run(i, c26Build{})
			if !o2.ok || len(o2.marks) > 0 {
				e.Fatalf("%s succeeded; the same build once more ran %v (error: %v)\n%s", what, o2.marks, !o2.ok, o2.text)
			}
			if d := diffMaps(want, read()); d != "" {
				e.Fatalf("%s succeeded; the same build once more changed the files\n%s", what, d)
			}
		}
		complete = map[int]bool{}
		for k := range ran {
			for q := range before[k] {
				complete[q] = true
			}
			if !o.ended || b.Fault == "add" || b.Fault == "has" || b.Fault == "cancel" || b.Fault == "stop" || b.Fault == "abort" || hit && k == b.Rule {
				continue
			}
			all := true
			for j := range c.Rules[k].Out {
				all = all && o.marks[[2]int{k, c26Stages*j + c26Stages - 1}] > 0
			}
			if all {
				complete[k] = true
			}
		}
		if o.ok {
			for k := range closure {
				complete[k] = true
			}
		} else if len(ran) > 0 && len(complete) < len(closure) {
			partly = true
		}
		e.LabelIf(!o.ok, "fault: "+b.Fault)
		e.LabelIf(!o.ok && b.Force, "forced build interrupted")
	}
	e.LabelIf(partly, "interrupted between the first command and the last")
	e.LabelIf(spared, "complete rules spared")
	if fired && partly {
		e.NonTrivial()
	}
}

func c26Signal(fault string) string {
	switch fault {
	case "fail":
		return "exit 3\n"
	case "killcmd":
		return "kill -9 $$\n"
	case "abort":
		return "echo >abort; exec sleep 50\n"
	}
	return "kill -" + strings.TrimPrefix(fault, "sig") + " 0; sleep 20\n"
}

// c26CLI runs the builds with the fab command.
func c26CLI(e *pbt.Env, c c26Case) {
	dir := filepath.Join(e.Dir, "p")
	e.WriteFile(filepath.Join(dir, "fab.yaml"), c.yaml())
	args := []string{"-fab", filepath.Join(e.Dir, "cache")}
	// The processes that a killed fab leaves become children of this one.
	if _, _, errno := syscall.Syscall(syscall.SYS_PRCTL, 36 /* PR_SET_CHILD_SUBREAPER */, 1, 0); errno != 0 {
		e.Infra("prctl: %s", errno)
	}
	c26Do(e, c, dir, func(i int, b c26Build) c26Outcome {
		os.Remove(filepath.Join(dir, "log"))
		var at string
		if b.Fault != "" && b.Fault != "time" {
			at = filepath.Join(dir, fmt.Sprintf("at.%d.%d", b.Rule, b.Stage))
			e.WriteFile(at, "")
			e.WriteFile(filepath.Join(dir, "fault"), c26Signal(b.Fault))
		}
		a := append([]string{}, args...)
		if b.Force {
			a = append(a, "-f")
		}
		for k := range c.Tops {
			a = append(a, fmt.Sprint("T", k))
		}
		cmd := exec.Command(pbt.FabBin(), a...)
		cmd.Dir = dir
		cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
		outName := filepath.Join(e.Dir, "output")
		out, err := os.Create(outName)
		e.Must(err)
		cmd.Stdout, cmd.Stderr = out, out
		e.Must(cmd.Start())
		pid := cmd.Process.Pid
		if b.Fault == "time" {
			time.Sleep(time.Duration(b.N) * time.Microsecond)
			syscall.Kill(-pid, syscall.SIGKILL)
		}
		err = cmd.Wait()
		out.Close()
		syscall.Kill(-pid, syscall.SIGKILL)
		// Wait for the rest of the group.
		for {
			if _, err := syscall.Wait4(-pid, nil, 0, nil); err != nil && err != syscall.EINTR {
				break
			}
		}
		if at != "" {
			os.Remove(at)
		}
		text, _ := os.ReadFile(outName)
		o := c26Outcome{marks: map[[2]int]int{}, ended: cmd.ProcessState.Exited() && !strings.HasPrefix(b.Fault, "sig"), ok: err == nil, text: string(text)}
		if b.Fault != "sigQUIT" && (strings.Contains(o.text, "panic: ") || strings.Contains(o.text, "fatal error: ")) {
			e.Fatalf("fab crashed: %s", text)
		}
		c26Log(e, dir, o.marks)
		return o
	})
}

func c26Log(e *pbt.Env, dir string, marks map[[2]int]int) {
	log, _ := os.ReadFile(filepath.Join(dir, "log"))
	for _, l := range strings.Fields(string(log)) {
		var m [2]int
		if _, err := fmt.Sscanf(l, "%d.%d", &m[0], &m[1]); err != nil {
			e.Infra("log: %q", log)
		}
		marks[m]++
	}
}

// c26Abort runs the builds in process with the real commands, and cancels the context while one of them runs.
func c26Abort(e *pbt.Env, c c26Case) {
	dir := filepath.Join(e.Dir, "p")
	e.WriteFile(filepath.Join(dir, "fab.yaml"), c.yaml())
	e.Must(os.Chdir(dir))
	db, done := c26OpenDB(e, c)
	defer done()
	c26Do(e, c, dir, func(i int, b c26Build) c26Outcome {
		os.Remove("log")
		os.Remove("abort")
		if b.Fault != "" {
			at := fmt.Sprintf("at.%d.%d", b.Rule, b.Stage)
			e.WriteFile(filepath.Join(dir, at), "")
			e.WriteFile(filepath.Join(dir, "fault"), c26Signal(b.Fault))
			defer os.Remove(at)
		}
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		ended := make(chan bool)
		var wg sync.WaitGroup
		if b.Fault == "abort" {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					select {
					case <-ended:
						return
					case <-time.After(time.Millisecond):
					}
					if _, err := os.Stat("abort"); err == nil {
						cancel()
						return
					}
				}
			}()
		}
		con := fab.NewController(dir)
		e.Must(con.ReadYAMLFile(""))
		var tops []fab.Target
		for k := range c.Tops {
			t, _ := con.RegistryTarget(fmt.Sprint("T", k))
			if t == nil {
				e.Fatalf("target T%d is not registered", k)
			}
			tops = append(tops, t)
		}
		err := con.Run(fab.WithForce(fab.WithHashDB(ctx, db), b.Force), tops...)
		close(ended)
		wg.Wait()
		o := c26Outcome{marks: map[[2]int]int{}, ended: true, ok: err == nil, text: fmt.Sprint(err)}
		c26Log(e, dir, o.marks)
		return o
	})
}

// c26Target is a rule's subtarget in process.
type c26Target struct {
	Rule, Out int
	st        *c26State
}

type c26State struct {
	e      *pbt.Env
	c      c26Case
	dir    string
	mu     sync.Mutex
	marks  map[[2]int]int
	b      c26Build
	cancel context.CancelFunc
}

var errC26 = errors.New("injected fault")

func (*c26Target) Desc() string { return "c26" }

func (x *c26Target) Run(ctx context.Context, con *fab.Controller) error {
	st := x.st
	r := st.c.Rules[x.Rule]
	mark := func(j int) error {
		pause(st.c.Pause)
		st.mu.Lock()
		defer st.mu.Unlock()
		st.marks[[2]int{x.Rule, j}]++
		if st.b.Rule != x.Rule || st.b.Stage != j {
			return nil
		}
		switch st.b.Fault {
		case "fail":
			return errC26
		case "cancel":
			st.cancel()
		case "stop": // a target that notices that its context is cancelled
			st.cancel()
			return ctx.Err()
		}
		return nil
	}
	write := func(f, s string, flag int) {
		h, err := os.OpenFile(filepath.Join(st.dir, f), os.O_WRONLY|os.O_CREATE|flag, 0o644)
		if err != nil {
			st.e.Errorf("harness: %s", err)
			return
		}
		h.WriteString(s)
		h.Close()
	}
	for k, o := range r.Out {
		if x.Out >= 0 && x.Out != k {
			continue
		}
		if err := mark(c26Stages * k); err != nil {
			return err
		}
		text := o.Name + "\n"
		for _, in := range r.In {
			for _, f := range []string{in, in + "/a", in + "/b"} {
				data, _ := os.ReadFile(filepath.Join(st.dir, f))
				text += string(data)
			}
		}
		f1, f2, flag := o.Name, o.Name, os.O_APPEND
		if o.Dir {
			p := filepath.Join(st.dir, o.Name)
			os.RemoveAll(p)
			os.Mkdir(p, 0o755)
			f1, f2, flag = o.Name+"/a", o.Name+"/b", os.O_TRUNC
		}
		write(f1, text, os.O_TRUNC)
		if err := mark(c26Stages*k + 1); err != nil {
			return err
		}
		write(f2, "end\n", flag)
		if err := mark(c26Stages*k + 2); err != nil {
			return err
		}
	}
	return nil
}

// c26DB is a hash database that fails in the given call.
type c26DB struct {
	fab.HashDB
	mu       sync.Mutex
	has, add int
	at       c26Build
	failed   bool
}

func (d *c26DB) fails(what string, n *int) bool {
	d.mu.Lock()
	defer d.mu.Unlock()
	f := d.at.Fault == what && d.at.N == *n
	*n++
	d.failed = d.failed || f
	return f
}

func (d *c26DB) Has(ctx context.Context, h []byte) (bool, error) {
	if d.fails("has", &d.has) {
		return d.at.Stage%2 > 0, errC26
	}
	return d.HashDB.Has(ctx, h)
}

func (d *c26DB) Add(ctx context.Context, h []byte) error {
	if d.fails("add", &d.add) {
		return errC26
	}
	return d.HashDB.Add(ctx, h)
}

// c26Lib runs the builds in process, with faults in targets, contexts and the database.
func c26Lib(e *pbt.Env, c c26Case) {
	dir := filepath.Join(e.Dir, "p")
	db, done := c26OpenDB(e, c)
	defer done()
	c26Do(e, c, dir, func(i int, b c26Build) c26Outcome {
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		st := &c26State{e: e, c: c, dir: dir, marks: map[[2]int]int{}, b: b, cancel: cancel}
		con := fab.NewController(dir)
		p := func(s string) string { return filepath.Join(dir, s) }
		rules := make([]fab.Target, len(c.Rules))
		for i, r := range c.Rules {
			var in, out []string
			for _, f := range r.In {
				in = append(in, p(f))
			}
			var kids []fab.Target
			for k, o := range r.Out {
				out = append(out, p(o.Name))
				kids = append(kids, &c26Target{Rule: i, Out: k, st: st})
			}
			var target fab.Target
			switch r.How {
			case "seq":
				target = fab.Seq(kids...)
			case "all":
				target = fab.All(kids...)
			default:
				target = &c26Target{Rule: i, Out: -1, st: st}
			}
			rules[i] = fab.Files(target, in, out)
		}
		var node func(nd *c26Node) fab.Target
		node = func(nd *c26Node) fab.Target {
			var kids []fab.Target
			for _, k := range nd.Kids {
				kids = append(kids, node(k))
			}
			switch nd.Kind {
			case "seq":
				return fab.Seq(kids...)
			case "all":
				return fab.All(kids...)
			case "deps":
				return fab.Deps(kids[0], kids[1:]...)
			}
			return rules[nd.Rule]
		}
		var tops []fab.Target
		for _, nd := range c.Tops {
			tops = append(tops, node(nd))
		}
		fdb := &c26DB{HashDB: db, at: b}
		err := con.Run(fab.WithForce(fab.WithHashDB(ctx, fdb), b.Force), tops...)
		if fdb.failed && err == nil {
			e.Fatalf("build %d: the hash database reported an error in call %d of %s, and the build reported none", i, b.N, b.Fault)
		}
		if b.Fault == "" && err != nil {
			e.Fatalf("build %d failed: %s", i, err)
		}
		st.mu.Lock()
		defer st.mu.Unlock()
		return c26Outcome{marks: st.marks, ended: true, ok: err == nil, text: fmt.Sprint(err)}
	})
}

func init() {
	pbt.Register(&pbt.Prop{
		ID: "C26",
		Subs: []*pbt.Sub{
			pbt.NewSub("kill", "multi-rule builds with the fab command, killed with their whole process group by a signal at a chosen stage of a chosen rule's commands or at a random moment, or with failing or killed commands, possibly several times in a row and with edits before each run, then resumed; non-trivial: a build was interrupted after its first command started and before its last one was complete", 1500, 40000, c26Gen("sigKILL", "sigKILL", "time", "time", "sigINT", "sigTERM", "sigHUP", "sigQUIT", "fail", "fail", "killcmd"), c26CLI),
			pbt.NewSub("fault", "the same builds in process, with errors and cancellations at a chosen stage and errors of the hash database at a chosen call, then repeated; non-trivial: as above", 5000, 200000, c26Gen("fail", "fail", "cancel", "stop", "has", "add"), c26Lib),
			pbt.NewSub("abort", "the same builds in process, with the real commands, cancelled while a chosen command runs, or with failing or killed commands, then repeated; non-trivial: as above", 1500, 40000, c26Gen("abort", "abort", "abort", "fail", "killcmd"), c26Abort),
		},
		Assumptions: []string{"commands write their outputs afresh, whatever an interrupted run left of them, and die with the build"},
	})
}

func c26OpenDB(e *pbt.Env, c c26Case) (fab.HashDB, func()) {
	if !c.SQLite {
		return newMemDB(), func() {}
	}
	db, err := sqlite.Open(filepath.Join(e.Dir, "db"))
	e.Must(err)
	return db, func() { db.Close() }
}
