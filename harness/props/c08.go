package props

import (
	"bufio"
	"context"
	"database/sql"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"

	"github.com/bobg/fab"
	"github.com/bobg/fab/sqlite"
	"pgregory.net/rapid"

	"verif/pbt"
)

// C08: concurrent use and abrupt ends.

type c08Op struct {
	Op    string // add, has, reopen, pause
	K     int
	Pause int // microseconds before it
}

type c08Proc struct {
	Handles int
	Workers [][]c08Op // each on handle number i % Handles
	Kill    int       // kill after so many lines of output (0 = never)
	Delay   int       // microseconds later
	Opts    int
}

type c08Case struct {
	Keys  int
	Prior bool // the file exists
	Procs []c08Proc
	Again []c08Proc // started when the others are gone
}

func c08GenProc(t *rapid.T, keys, workers, ops int, kill bool) c08Proc {
	p := c08Proc{Handles: drawInt(t, 1, workers, "handles"), Opts: drawInt(t, 0, 3, "opts")}
	total := 0
	for w := drawInt(t, 1, workers, "workers"); w > 0; w-- {
		var l []c08Op
		for n := drawInt(t, 1, ops, "ops"); n > 0; n-- {
			op := c08Op{K: uniform(t, keys, "k"), Pause: pick(t, "pause", 0, 0, 0, 10, 300)}
			switch x := drawInt(t, 0, 99, "op"); {
			case x < 45:
				op.Op = "add"
			case x < 93:
				op.Op = "has"
			default:
				op.Op = "reopen"
			}
			l = append(l, op)
			total++
		}
		p.Workers = append(p.Workers, l)
	}
	if kill {
		p.Kill = drawInt(t, 1, 2*total+1, "kill")
		p.Delay = pick(t, "delay", 0, 0, 20, 100, 300, 1000)
	}
	return p
}

func c08GoGen(t *rapid.T) c08Case {
	c := c08Case{Keys: drawInt(t, 1, 8, "keys"), Prior: drawBool(t, "prior")}
	c.Procs = []c08Proc{c08GenProc(t, c.Keys, 5, 15, false)}
	return c
}

func c08ProcGen(t *rapid.T) c08Case {
	c := c08Case{Keys: drawInt(t, 1, 10, "keys"), Prior: chance(t, 30, "prior")}
	for n := drawInt(t, 1, 3, "procs"); n > 0; n-- {
		c.Procs = append(c.Procs, c08GenProc(t, c.Keys, 2, 12, chance(t, 60, "kills")))
	}
	if drawBool(t, "again") {
		c.Again = append(c.Again, c08GenProc(t, c.Keys, 2, 8, chance(t, 40, "kills")))
	}
	return c
}

func monoNanos() int64 {
	var ts syscall.Timespec
	syscall.Syscall(syscall.SYS_CLOCK_GETTIME, 1, uintptr(unsafe.Pointer(&ts)), 0)
	return ts.Nano()
}

// c08Event is an operation as observed.
type c08Event struct {
	Op         string
	K          int
	Start, End int64 // End is 0 if it is not known to have ended
	Res        bool
	Err        string
}

func c08Key(k int) []byte { return []byte(fmt.Sprintf("key %d\x00", k)) }

func c08Opts(n int) []sqlite.Option {
	switch n {
	case 1:
		return []sqlite.Option{sqlite.Keep(time.Hour)}
	case 2:
		return []sqlite.Option{sqlite.UpdateOnAccess(false)}
	case 3:
		return []sqlite.Option{sqlite.Keep(time.Hour), sqlite.UpdateOnAccess(false)}
	}
	return nil
}

// c08Work performs a process's operations, calling begin and end around each.
func c08Work(file string, p c08Proc, begin func(w, i int), end func(w, i int, res bool, err error)) {
	var (
		mu  sync.RWMutex
		dbs = make([]*sqlite.DB, p.Handles)
		wg  sync.WaitGroup
		ctx = context.Background()
	)
	// All handles are opened at the same time.
	for h := range dbs {
		h := h
		wg.Add(1)
		go func() {
			defer wg.Done()
			begin(-1, h)
			db, err := sqlite.Open(file, c08Opts(p.Opts)...)
			mu.Lock()
			dbs[h] = db
			mu.Unlock()
			end(-1, h, true, err)
		}()
	}
	wg.Wait()
	for _, db := range dbs {
		if db == nil {
			return
		}
	}
	for w, ops := range p.Workers {
		w, ops := w, ops
		wg.Add(1)
		go func() {
			defer wg.Done()
			h := w % p.Handles
			for i, op := range ops {
				if op.Pause > 0 {
					time.Sleep(time.Duration(op.Pause) * time.Microsecond)
				}
				begin(w, i)
				var (
					res bool
					err error
				)
				switch op.Op {
				case "add":
					mu.RLock()
					err = dbs[h].Add(ctx, c08Key(op.K))
					mu.RUnlock()
				case "has":
					mu.RLock()
					res, err = dbs[h].Has(ctx, c08Key(op.K))
					mu.RUnlock()
				case "reopen":
					mu.Lock()
					if err = dbs[h].Close(); err == nil {
						var db *sqlite.DB
						if db, err = sqlite.Open(file, c08Opts(p.Opts)...); err == nil {
							dbs[h] = db
						}
					}
					mu.Unlock()
				}
				end(w, i, res, err)
			}
		}()
	}
	wg.Wait()
	for _, db := range dbs {
		db.Close()
	}
}

// c08Check judges a history; known are keys that are there from the start.
func c08Check(e *pbt.Env, events []c08Event) {
	overlap := false
	for _, ev := range events {
		if ev.Err != "" {
			e.Fatalf("%s (key %d) failed: %s", ev.Op, ev.K, ev.Err)
		}
		if ev.Op != "has" || ev.End == 0 {
			continue
		}
		could, must := false, false
		for _, a := range events {
			if a.Op == "add" && a.K == ev.K {
				could = could || a.Start < ev.End
				must = must || a.End != 0 && a.End < ev.Start
				overlap = overlap || a.Start < ev.End && (a.End == 0 || a.End > ev.Start)
			}
		}
		switch {
		case ev.Res && !could:
			e.Fatalf("Has(key %d) is true but no Add of it had started", ev.K)
		case !ev.Res && must:
			e.Fatalf("Has(key %d) is false although an Add of it had returned", ev.K)
		}
	}
	e.LabelIf(overlap, "Has overlaps Add")
}

func c08Final(e *pbt.Env, file string, keys int, events []c08Event) {
	raw, err := sql.Open("sqlite3", file)
	e.Must(err)
	var res string
	err = raw.QueryRow("PRAGMA integrity_check").Scan(&res)
	raw.Close()
	if err != nil || res != "ok" {
		e.Fatalf("integrity check: %s (error %v)", res, err)
	}
	db, err := sqlite.Open(file)
	if err != nil {
		e.Fatalf("Open at the end: %s", err)
	}
	defer db.Close()
	ctx := context.Background()
	for k := 0; k <= keys; k++ {
		start := monoNanos()
		got, err := db.Has(ctx, c08Key(k))
		if err != nil {
			e.Fatalf("Has at the end: %s", err)
		}
		c08Check(e, append(events[:len(events):len(events)], c08Event{Op: "has", K: k, Start: start, End: monoNanos(), Res: got}))
	}
	if err := db.Add(ctx, c08Key(keys)); err != nil {
		e.Fatalf("Add at the end: %s", err)
	}
	if ok, err := db.Has(ctx, c08Key(keys)); !ok || err != nil {
		e.Fatalf("Has after Add at the end: %v, %v", ok, err)
	}
}

// c08File is on a file system in memory, where waiting for the disk does not make operations time out.
func c08File(e *pbt.Env) string {
	dir, err := os.MkdirTemp("/dev/shm", "verif-c08-")
	if err != nil {
		dir = e.Dir
	} else {
		e.Cleanup(func() { os.RemoveAll(dir) })
	}
	return filepath.Join(dir, "hash.db")
}

func c08Prior(e *pbt.Env, c c08Case, file string) []c08Event {
	if !c.Prior {
		return nil
	}
	db, err := sqlite.Open(file)
	e.Must(err)
	defer db.Close()
	ev := c08Event{Op: "add", K: 0, Start: monoNanos()}
	e.Must(db.Add(context.Background(), c08Key(0)))
	ev.End = monoNanos()
	return []c08Event{ev}
}

func c08GoRun(e *pbt.Env, c c08Case) {
	file := c08File(e)
	events := c08Prior(e, c, file)
	var (
		mu  sync.Mutex
		pos = map[[2]int]int{}
		p   = c.Procs[0]
	)
	c08Work(file, p, func(w, i int) {
		mu.Lock()
		defer mu.Unlock()
		ev := c08Event{Op: "open"}
		if w >= 0 {
			ev.Op, ev.K = p.Workers[w][i].Op, p.Workers[w][i].K
		}
		ev.Start = monoNanos()
		pos[[2]int{w, i}] = len(events)
		events = append(events, ev)
	}, func(w, i int, res bool, err error) {
		at := monoNanos()
		mu.Lock()
		defer mu.Unlock()
		ev := &events[pos[[2]int{w, i}]]
		ev.End, ev.Res = at, res
		if err != nil {
			ev.Err = err.Error()
		}
	})
	c08Check(e, events)
	c08Final(e, file, c.Keys, events)
	if len(p.Workers) > 1 {
		e.NonTrivial()
	}
	e.LabelIf(p.Handles > 1, "several handles")
}

type c08Line struct {
	W, I int
	End  bool
	At   int64
	Res  bool
	Err  string
}

func c08Helper(args []string) {
	var p c08Proc
	if err := json.Unmarshal([]byte(args[1]), &p); err != nil {
		panic(err)
	}
	var mu sync.Mutex
	say := func(l c08Line) {
		mu.Lock()
		defer mu.Unlock()
		j, _ := json.Marshal(l)
		os.Stdout.Write(append(j, '\n'))
	}
	c08Work(args[0], p,
		func(w, i int) { say(c08Line{W: w, I: i, At: monoNanos()}) },
		func(w, i int, res bool, err error) {
			l := c08Line{W: w, I: i, End: true, At: monoNanos(), Res: res}
			if err != nil {
				l.Err = err.Error()
			}
			say(l)
		})
}

func c08ProcRun(e *pbt.Env, c c08Case) {
	file := c08File(e)
	events := c08Prior(e, c, file)
	killed := false
	for _, procs := range [][]c08Proc{c.Procs, c.Again} {
		var (
			wg sync.WaitGroup
			mu sync.Mutex
		)
		for _, p := range procs {
			p := p
			j, err := json.Marshal(p)
			e.Must(err)
			cmd := exec.Command(pbt.Self(), "helper", "c08", file, string(j))
			cmd.Stderr = os.Stderr
			out, err := cmd.StdoutPipe()
			e.Must(err)
			e.Must(cmd.Start())
			wg.Add(1)
			go func() {
				defer wg.Done()
				var (
					sc    = bufio.NewScanner(out)
					pos   = map[[2]int]int{}
					lines int
				)
				for sc.Scan() {
					var l c08Line
					if json.Unmarshal(sc.Bytes(), &l) != nil {
						continue // cut off
					}
					mu.Lock()
					if !l.End {
						ev := c08Event{Op: "open", Start: l.At}
						if l.W >= 0 {
							ev.Op, ev.K = p.Workers[l.W][l.I].Op, p.Workers[l.W][l.I].K
						}
						pos[[2]int{l.W, l.I}] = len(events)
						events = append(events, ev)
					} else {
						ev := &events[pos[[2]int{l.W, l.I}]]
						ev.End, ev.Res, ev.Err = l.At, l.Res, l.Err
					}
					mu.Unlock()
					if lines++; lines == p.Kill {
						if p.Delay > 0 {
							time.Sleep(time.Duration(p.Delay) * time.Microsecond)
						}
						cmd.Process.Kill()
						mu.Lock()
						killed = true
						mu.Unlock()
					}
				}
				cmd.Wait()
			}()
		}
		wg.Wait()
	}
	c08Check(e, events)
	c08Final(e, file, c.Keys, events)
	if killed || len(c.Procs) > 1 {
		e.NonTrivial()
	}
	e.LabelIf(killed, "killed")
	unfinished := false
	for _, ev := range events {
		unfinished = unfinished || ev.End == 0
	}
	e.LabelIf(unfinished, "killed during an operation")
}

// A slow process has the file locked for some time.

type c08SlowCase struct {
	Prior bool
	Holds []c08Hold
	Proc  c08Proc
}

type c08Hold struct {
	Begin    string // IMMEDIATE or EXCLUSIVE
	Wait, Ms int    // both in milliseconds
}

func c08SlowGen(t *rapid.T) c08SlowCase {
	c := c08SlowCase{Prior: drawBool(t, "prior"), Proc: c08GenProc(t, 4, 3, 5, false)}
	for n := drawInt(t, 1, 2, "holds"); n > 0; n-- {
		c.Holds = append(c.Holds, c08Hold{pick(t, "begin", "IMMEDIATE", "EXCLUSIVE"), pick(t, "wait", 0, 0, 1, 5), pick(t, "ms", 20, 150, 300, 700, 1300)})
	}
	return c
}

func c08SlowRun(e *pbt.Env, c c08SlowCase) {
	file := c08File(e)
	events := c08Prior(e, c08Case{Prior: c.Prior}, file)
	if !c.Prior {
		db, err := sqlite.Open(file)
		e.Must(err)
		e.Must(db.Close())
	}
	raw, err := sql.Open("sqlite3", file)
	e.Must(err)
	defer raw.Close()
	ctx := context.Background()
	conn, err := raw.Conn(ctx)
	e.Must(err)
	defer conn.Close()
	long := false
	hold := func(h c08Hold) func() {
		_, err := conn.ExecContext(ctx, "BEGIN "+h.Begin)
		e.Must(err)
		long = long || h.Ms > 100
		return func() {
			time.Sleep(time.Duration(h.Ms) * time.Millisecond)
			if _, err := conn.ExecContext(ctx, "ROLLBACK"); err != nil {
				e.Infra("ROLLBACK: %s", err)
			}
		}
	}
	// The file is locked before anything else happens.
	release := hold(c.Holds[0])
	done := make(chan struct{})
	go func() {
		defer close(done)
		release()
		for _, h := range c.Holds[1:] {
			time.Sleep(time.Duration(h.Wait) * time.Millisecond)
			hold(h)()
		}
	}()
	var (
		mu  sync.Mutex
		pos = map[[2]int]int{}
		p   = c.Proc
	)
	c08Work(file, p, func(w, i int) {
		mu.Lock()
		defer mu.Unlock()
		ev := c08Event{Op: "open", Start: monoNanos()}
		if w >= 0 {
			ev.Op, ev.K = p.Workers[w][i].Op, p.Workers[w][i].K
		}
		pos[[2]int{w, i}] = len(events)
		events = append(events, ev)
	}, func(w, i int, res bool, err error) {
		at := monoNanos()
		mu.Lock()
		defer mu.Unlock()
		ev := &events[pos[[2]int{w, i}]]
		ev.End, ev.Res = at, res
		if err != nil {
			ev.Err = err.Error()
		}
	})
	<-done
	c08Check(e, events)
	c08Final(e, file, 4, events)
	if long {
		e.NonTrivial()
	}
}

// Several fab commands at once.

type c08FabCase struct {
	Rules int
	Procs [][]int // the targets each asks for
	Keep  bool    // the fab directory exists
}

func c08FabGen(t *rapid.T) c08FabCase {
	c := c08FabCase{Rules: drawInt(t, 2, 8, "rules"), Keep: drawBool(t, "exists")}
	// No two of them ask for the same target.
	n := drawInt(t, 2, 4, "procs")
	c.Procs = make([][]int, n)
	for i := 0; i < c.Rules; i++ {
		k := uniform(t, n, "who")
		c.Procs[k] = append(c.Procs[k], i)
	}
	return c
}

func c08FabRun(e *pbt.Env, c c08FabCase) {
	doc := ymap("")
	for i := 0; i < c.Rules; i++ {
		e.WriteFile(fmt.Sprintf("p/in%d", i), fmt.Sprint(i))
		doc.add(fmt.Sprintf("T%d", i), ymap("Files",
			"Target", ymap("Command", "Shell", ystr(fmt.Sprintf("cp in%d out%d; echo %d >>log%d", i, i, i, i))),
			"In", yseq("", ystr(fmt.Sprintf("in%d", i))), "Out", yseq("", ystr(fmt.Sprintf("out%d", i)))))
	}
	e.WriteFile("p/fab.yaml", doc.text())
	fabdir := filepath.Dir(c08File(e))
	if !c.Keep {
		fabdir = filepath.Join(fabdir, "sub", "fab")
	}
	round := func(n int) {
		var wg sync.WaitGroup
		for _, targets := range c.Procs {
			if len(targets) == 0 {
				continue
			}
			args := []string{"-fab", fabdir}
			for _, i := range targets {
				args = append(args, fmt.Sprintf("T%d", i))
			}
			cmd := exec.Command(pbt.FabBin(), args...)
			cmd.Dir = filepath.Join(e.Dir, "p")
			wg.Add(1)
			go func() {
				defer wg.Done()
				if out, err := cmd.CombinedOutput(); err != nil {
					e.Errorf("round %d: fab %v: %s: %s", n, args, err, out)
				}
			}()
		}
		wg.Wait()
		for i := 0; i < c.Rules; i++ {
			log, _ := os.ReadFile(filepath.Join(e.Dir, fmt.Sprintf("p/log%d", i)))
			if got := strings.Count(string(log), "\n"); got != 1 {
				e.Errorf("round %d: rule %d has been executed %d times, want once", n, i, got)
			}
		}
	}
	round(1)
	round(2)
	e.NonTrivial()
}

var _ fab.HashDB = &sqlite.DB{}

func init() {
	pbt.Helpers["c08"] = c08Helper
	pbt.Register(&pbt.Prop{
		ID: "C08",
		Subs: []*pbt.Sub{
			pbt.NewSub("goroutines", "goroutines with one or more handles (opened at the same time) on one file; non-trivial: more than one goroutine", 1500, 60000, c08GoGen, c08GoRun),
			pbt.NewSub("processes", "processes on one file, some killed at chosen points, followed by others; non-trivial: several processes, or a kill", 500, 20000, c08ProcGen, c08ProcRun),
			pbt.NewSub("slow", "goroutines with one or more handles on one file while another connection, of a process that is slow, has it locked for up to 1.3 s at a time; non-trivial: for more than 0.1 s", 60, 1500, c08SlowGen, c08SlowRun),
			pbt.NewSub("fab", "several fab commands at the same time with one fab directory; every case is non-trivial", 100, 3000, c08FabGen, c08FabRun),
		},
		Assumptions: []string{"no more simultaneous users than the default five-second busy time-out of the SQLite driver can serve"},
	})
}
