// Package pbt is the framework of the checks: it drives generated cases
// through a property, shrinks failures, and records what was covered.
package pbt

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"pgregory.net/rapid"
)

// Sub is one generated check belonging to a property.
type Sub struct {
	Name     string
	Rule     string // how cases are made, and what makes one non-trivial
	Quick    int    // number of cases, over all shards
	Thorough int
	Shards   int  // maximum number of shards (0 = as many as there are cores)
	Isolated bool // each case needs a process of its own
	Serial   bool // do not run at the same time as other subs

	gen func(*rapid.T) any
	run func(*Env, []byte) error
}

// NewSub makes a Sub whose cases have type C, which must survive a trip through JSON.
func NewSub[C any](name, rule string, quick, thorough int, gen func(*rapid.T) C, run func(*Env, C)) *Sub {
	return &Sub{
		Name: name, Rule: rule, Quick: quick, Thorough: thorough,
		gen: func(t *rapid.T) any { return gen(t) },
		run: func(e *Env, data []byte) error {
			var c C
			if err := json.Unmarshal(data, &c); err != nil {
				return err
			}
			run(e, c)
			return nil
		},
	}
}

// Prop is a property with the subs that decide it.
type Prop struct {
	ID          string
	Subs        []*Sub
	Known       []Known
	Assumptions []string
}

// Known is a probe for a defect that is listed as a known finding.
type Known struct {
	ID    string
	Desc  string
	Fails func(*Env) bool
}

var props = map[string]*Prop{}

// Register adds a property.
func Register(p *Prop) {
	if props[p.ID] != nil {
		panic("duplicate property " + p.ID)
	}
	props[p.ID] = p
}

// Lookup finds a property.
func Lookup(id string) *Prop { return props[id] }

// IDs lists the registered properties.
func IDs() []string {
	var r []string
	for id := range props {
		r = append(r, id)
	}
	sort.Strings(r)
	return r
}

func (p *Prop) sub(name string) *Sub {
	for _, s := range p.Subs {
		if s.Name == name {
			return s
		}
	}
	return origSub(p, name)
}

var origSub func(*Prop, string) *Sub

// Env is what a running case sees of the framework.
type Env struct {
	Dir  string // scratch directory of this case
	Seq  int    // distinguishes the cases of one process
	Tier string

	mu       sync.Mutex
	labels   map[string]bool
	nontriv  bool
	errs     []string
	cleanups []func()
}

type failure struct{ msg string }
type infra struct{ msg string }

// Fatalf reports a violation of the property and ends the case.
// It must be called from the goroutine that runs the case.
func (e *Env) Fatalf(format string, args ...any) {
	panic(failure{fmt.Sprintf(format, args...)})
}

// Errorf reports a violation of the property from any goroutine.
func (e *Env) Errorf(format string, args ...any) {
	e.mu.Lock()
	defer e.mu.Unlock()
	if len(e.errs) < 20 {
		e.errs = append(e.errs, fmt.Sprintf(format, args...))
	}
}

// Infra reports that the harness, not the code under test, could not do its work.
func (e *Env) Infra(format string, args ...any) {
	panic(infra{fmt.Sprintf(format, args...)})
}

// Must is Infra if err is not nil.
func (e *Env) Must(err error) {
	if err != nil {
		_, file, line, _ := runtime.Caller(1)
		panic(infra{fmt.Sprintf("%s:%d: %s", filepath.Base(file), line, err)})
	}
}

// NonTrivial marks the case as non-trivial by its sub's rule.
func (e *Env) NonTrivial() {
	e.mu.Lock()
	e.nontriv = true
	e.mu.Unlock()
}

// Label classifies the case.
func (e *Env) Label(format string, args ...any) {
	e.mu.Lock()
	e.labels[fmt.Sprintf(format, args...)] = true
	e.mu.Unlock()
}

// LabelIf classifies the case if cond is true.
func (e *Env) LabelIf(cond bool, label string) {
	if cond {
		e.Label("%s", label)
	}
}

// Cleanup adds a function to call at the end of the case.
func (e *Env) Cleanup(f func()) { e.cleanups = append(e.cleanups, f) }

// WriteFile writes a file in the scratch directory (or at an absolute path) creating directories.
func (e *Env) WriteFile(name, content string) string {
	if !filepath.IsAbs(name) {
		name = filepath.Join(e.Dir, name)
	}
	e.Must(os.MkdirAll(filepath.Dir(name), 0o755))
	e.Must(os.WriteFile(name, []byte(content), 0o644))
	return name
}

// Result is the outcome of one case.
type Result struct {
	Fail    string   `json:"fail,omitempty"`
	Infra   string   `json:"infra,omitempty"`
	Labels  []string `json:"labels,omitempty"`
	Nontriv bool     `json:"nontriv,omitempty"`
	Fatal   bool     `json:"fatal,omitempty"`   // the process must not go on
	Timeout bool     `json:"timeout,omitempty"` // detected after a long time, so do not shrink
}

var caseSeq int

// RunCase runs one case in this process.
func RunCase(s *Sub, data []byte, scratch, tier string) (res Result) {
	caseSeq++
	dir := filepath.Join(scratch, fmt.Sprintf("c%d", caseSeq))
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return Result{Infra: err.Error()}
	}
	e := &Env{Dir: dir, Seq: caseSeq, Tier: tier, labels: map[string]bool{}}
	wd, _ := os.Getwd()
	stdin, stdout, stderr := os.Stdin, os.Stdout, os.Stderr

	done := make(chan Result, 1)
	go func() {
		done <- func() (r Result) {
			defer func() {
				x := recover()
				switch x := x.(type) {
				case nil:
				case failure:
					r.Fail = x.msg
				case infra:
					r.Infra = x.msg
				default:
					stack := string(debug.Stack())
					msg := fmt.Sprintf("panic: %v\n%s", x, stack)
					if strings.Contains(stack, "github.com/bobg/fab") {
						r.Fail = msg
					} else {
						r.Infra = msg
					}
				}
			}()
			if err := s.run(e, data); err != nil {
				r.Infra = err.Error()
			}
			return
		}()
	}()
	res = watch(done)
	if res.Fatal {
		return res
	}
	for i := len(e.cleanups) - 1; i >= 0; i-- {
		e.cleanups[i]()
	}
	os.Stdin, os.Stdout, os.Stderr = stdin, stdout, stderr
	os.Chdir(wd)
	os.RemoveAll(dir)

	e.mu.Lock()
	defer e.mu.Unlock()
	if res.Fail == "" && len(e.errs) > 0 {
		res.Fail = strings.Join(e.errs, "\n")
	}
	for l := range e.labels {
		res.Labels = append(res.Labels, l)
	}
	sort.Strings(res.Labels)
	res.Nontriv = e.nontriv
	return res
}

const (
	cpuBudget  = 60 * time.Second // of this process, for one case
	hangBudget = 60 * time.Second // with nothing running in this process and those below it
	wallBudget = 600 * time.Second
)

// watch waits for the case to finish.
// It recognizes a deadlock by the state of the goroutines, not by time:
// time only decides when to look.
func watch(done chan Result) Result {
	select {
	case r := <-done:
		return r
	case <-time.After(2 * time.Second):
	}
	var (
		start    = time.Now()
		startCPU = cpuTime()
		prev     string
		quiet    quietness
	)
	for {
		select {
		case r := <-done:
			return r
		case <-time.After(500 * time.Millisecond):
		}
		blocked, dump := allBlocked()
		if blocked && dump == prev {
			return Result{Fail: "deadlock: every goroutine is blocked\n" + dump, Fatal: true}
		}
		prev = ""
		if blocked {
			prev = dump
		}
		if cpuTime()-startCPU > cpuBudget {
			return Result{Fail: fmt.Sprintf("does not terminate: used more than %s of processor time\n%s", cpuBudget, stacks()), Fatal: true, Timeout: true}
		}
		if d := quiet.check(); d > hangBudget {
			return Result{Fail: fmt.Sprintf("deadlock: nothing has been running for %s\n%s\n%s", hangBudget, quiet.procs, stacks()), Fatal: true, Timeout: true}
		}
		if time.Since(start) > wallBudget {
			return Result{Infra: fmt.Sprintf("case took more than %s\n%s", wallBudget, stacks()), Fatal: true}
		}
	}
}

// quietness finds out for how long nothing has been running in this process (except for the framework) and those started by it.
type quietness struct {
	since time.Time
	procs string
}

func (q *quietness) check() time.Duration {
	procs, running := descendants()
	if q.since.IsZero() || running || procs != q.procs || !allWaiting() {
		q.since, q.procs = time.Now(), procs
	}
	return time.Since(q.since)
}

// descendants lists the processes started by this one, directly or indirectly, with the processor time they have used,
// and tells whether any of them is running.
func descendants() (string, bool) {
	type proc struct {
		ppid  int
		state string
		desc  string
	}
	procs := map[int]proc{}
	files, _ := filepath.Glob("/proc/[0-9]*/stat")
	for _, f := range files {
		data, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		i, j := bytes.IndexByte(data, '('), bytes.LastIndexByte(data, ')')
		if i < 0 || j < i {
			continue
		}
		pid, _ := strconv.Atoi(strings.TrimSpace(string(data[:i])))
		fields := strings.Fields(string(data[j+1:]))
		if len(fields) < 13 {
			continue
		}
		ppid, _ := strconv.Atoi(fields[1])
		procs[pid] = proc{ppid, fields[0], fmt.Sprintf("%d %s user %s system %s", pid, data[i:j+1], fields[11], fields[12])}
	}
	var (
		out     []string
		running bool
	)
	self := os.Getpid()
	for pid, p := range procs {
		q := p.ppid
		for n := 0; q > 1 && q != self && n < 100; n++ {
			q = procs[q].ppid
		}
		if q != self {
			continue
		}
		out = append(out, p.desc)
		if p.state == "R" || p.state == "D" {
			running = true
		}
		// The other threads.
		tasks, _ := filepath.Glob(fmt.Sprintf("/proc/%d/task/*/stat", pid))
		for _, f := range tasks {
			data, err := os.ReadFile(f)
			if err != nil {
				continue
			}
			if j := bytes.LastIndexByte(data, ')'); j > 0 && j+2 < len(data) && (data[j+2] == 'R' || data[j+2] == 'D') {
				running = true
			}
		}
	}
	sort.Strings(out)
	return strings.Join(out, "\n"), running
}

// allWaiting tells whether no goroutine but those of the framework is running or sleeping.
func allWaiting() bool {
	for _, g := range strings.Split(stacks(), "\n\n") {
		head, _, _ := strings.Cut(g, "\n")
		if !strings.HasPrefix(head, "goroutine ") || strings.Contains(g, "pbt.watch(") {
			continue
		}
		i, j := strings.Index(head, "["), strings.Index(head, "]")
		if i < 0 || j < i {
			return false
		}
		state, _, _ := strings.Cut(head[i+1:j], ",")
		ok := state == "IO wait" || state == "syscall"
		for _, b := range blockedStates {
			ok = ok || state == b || strings.HasPrefix(state, b+" (")
		}
		if !ok {
			return false
		}
	}
	return true
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func stacks() string {
	buf := make([]byte, 1<<20)
	return string(buf[:runtime.Stack(buf, true)])
}

var blockedStates = []string{"sync.Cond.Wait", "sync.WaitGroup.Wait", "chan receive", "chan send", "select", "semacquire", "sync.Mutex.Lock", "sync.RWMutex.Lock", "sync.RWMutex.RLock"}

// allBlocked tells whether every goroutine except the framework's own is waiting for another one,
// and returns a dump of those in the code under test.
func allBlocked() (bool, string) {
	var (
		out   strings.Builder
		found bool
	)
	for _, g := range strings.Split(stacks(), "\n\n") {
		head, _, _ := strings.Cut(g, "\n")
		if !strings.HasPrefix(head, "goroutine ") {
			continue
		}
		if strings.Contains(g, "pbt.watch(") || strings.Contains(g, "pbt.allBlocked(") {
			continue
		}
		i, j := strings.Index(head, "["), strings.Index(head, "]")
		if i < 0 || j < i {
			return false, ""
		}
		state, _, _ := strings.Cut(head[i+1:j], ",")
		ok := false
		for _, b := range blockedStates {
			if state == b || strings.HasPrefix(state, b+" (") {
				ok = true
			}
		}
		if !ok {
			return false, ""
		}
		if strings.Contains(g, "github.com/bobg/fab") {
			found = true
			// Omit the waiting time.
			out.WriteString(head[:i] + "[" + state + "]" + g[len(head):] + "\n\n")
		}
	}
	return found, out.String()
}

// crashFail decides whether the standard error of a process that died shows a crash of the code under test.
func crashFail(stderr []byte) bool {
	if bytes.Contains(stderr, []byte("out of memory")) || bytes.Contains(stderr, []byte("cannot allocate memory")) {
		return false
	}
	if raceFail(stderr) {
		return true
	}
	i := bytes.Index(stderr, []byte("panic: "))
	if j := bytes.Index(stderr, []byte("fatal error: ")); i < 0 || (j >= 0 && j < i) {
		i = j
	}
	if i < 0 {
		return false
	}
	return bytes.Contains(stderr[i:], []byte("github.com/bobg/fab"))
}

// raceFail decides whether the race detector has found a race in which the code under test makes one of the two accesses,
// directly or by calling the runtime.
func raceFail(stderr []byte) bool {
	i := bytes.Index(stderr, []byte("WARNING: DATA RACE"))
	if i < 0 {
		return false
	}
	lines := strings.Split(string(stderr[i:]), "\n")
	for j, line := range lines {
		line = strings.ToLower(line)
		if !strings.Contains(line, " at 0x") || !strings.Contains(line, " by ") {
			continue
		}
		for _, frame := range lines[j+1:] {
			frame = strings.TrimSpace(frame)
			if strings.HasPrefix(frame, "/") {
				continue
			}
			if strings.HasPrefix(frame, "github.com/bobg/fab") {
				return true
			}
			if strings.HasPrefix(frame, "verif/") || strings.HasPrefix(frame, "main.") || frame == "" {
				break
			}
		}
	}
	return false
}
