package pbt

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"strconv"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// WorkerResult is what a worker leaves in its output file.
type WorkerResult struct {
	Evaluations int               `json:"evaluations"`
	Skipped     int               `json:"skipped"`
	Distinct    []uint64          `json:"distinct"`
	Labels      map[string]int    `json:"labels"`
	Samples     []json.RawMessage `json:"samples"`
	Fail        string            `json:"fail,omitempty"`
	FailCase    json.RawMessage   `json:"fail_case,omitempty"`
	FailIndex   int               `json:"fail_index,omitempty"`
	Fatal       bool              `json:"fatal,omitempty"`
	Timeout     bool              `json:"timeout,omitempty"`
	Infra       string            `json:"infra,omitempty"`
}

// WorkerArgs tells a worker what to do.
type WorkerArgs struct {
	Prop, Sub, Tier string
	Seed            uint64
	Checks          int
	Skip            int // do not run this many cases (they are known to pass)
	Isolated        bool
	Deadline        time.Duration
	Shrink          time.Duration
	Out, Cur        string
	Scratch         string
}

type testTB struct {
	failed bool
	log    bytes.Buffer
}

type tbStop struct{}

func (t *testTB) Helper()                   {}
func (t *testTB) Name() string              { return "vrun" }
func (t *testTB) Logf(f string, a ...any)   { fmt.Fprintf(&t.log, f+"\n", a...) }
func (t *testTB) Log(a ...any)              { fmt.Fprintln(&t.log, a...) }
func (t *testTB) Skipf(f string, a ...any)  { panic(tbStop{}) }
func (t *testTB) Skip(a ...any)             { panic(tbStop{}) }
func (t *testTB) SkipNow()                  { panic(tbStop{}) }
func (t *testTB) Errorf(f string, a ...any) { t.Logf(f, a...); t.failed = true }
func (t *testTB) Error(a ...any)            { t.Log(a...); t.failed = true }
func (t *testTB) Fatalf(f string, a ...any) { t.Errorf(f, a...); panic(tbStop{}) }
func (t *testTB) Fatal(a ...any)            { t.Error(a...); panic(tbStop{}) }
func (t *testTB) FailNow()                  { t.failed = true; panic(tbStop{}) }
func (t *testTB) Fail()                     { t.failed = true }
func (t *testTB) Failed() bool              { return t.failed }

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(2)
	}
}

// Worker runs the cases of one shard of one sub.
func Worker(a WorkerArgs) {
	debug.SetMaxStack(256 << 20)
	testing.Init()
	must(flag.CommandLine.Parse(nil))
	for k, v := range map[string]string{
		"rapid.checks":     strconv.Itoa(a.Checks),
		"rapid.seed":       strconv.FormatUint(a.Seed, 10),
		"rapid.nofailfile": "true",
		"rapid.shrinktime": a.Shrink.String(),
	} {
		must(flag.Set(k, v))
	}
	p := Lookup(a.Prop)
	s := p.sub(a.Sub)

	var (
		wr       = WorkerResult{Labels: map[string]int{}}
		distinct = map[uint64]bool{}
		deadline = time.Now().Add(a.Deadline)
		failing  bool
		idx      int
		stride   = 1
		nextSamp = 1
	)
	save := func() {
		for h := range distinct {
			wr.Distinct = append(wr.Distinct, h)
		}
		data, err := json.Marshal(wr)
		must(err)
		must(os.WriteFile(a.Out, data, 0o644))
	}

	tb := &testTB{}
	func() {
		defer func() {
			if x := recover(); x != nil {
				if _, ok := x.(tbStop); !ok {
					panic(x)
				}
			}
		}()
		rapid.Check(tb, func(t *rapid.T) {
			c := s.gen(t)
			data, err := json.Marshal(c)
			must(err)
			if !failing {
				idx++
				if idx <= a.Skip {
					return
				}
				if time.Now().After(deadline) {
					wr.Skipped++
					return
				}
			}
			must(os.WriteFile(a.Cur, []byte(fmt.Sprintf("%d\n%s", idx, data)), 0o644))
			var res Result
			if a.Isolated || s.Isolated {
				res = runIsolated(a, data)
			} else {
				res = RunCase(s, data, a.Scratch, a.Tier)
			}
			if res.Infra != "" {
				wr.Infra = res.Infra
				wr.FailCase = data
				save()
				os.Exit(2)
			}
			if !failing {
				wr.Evaluations++
				for _, l := range res.Labels {
					wr.Labels[l]++
				}
				if res.Nontriv {
					h := fnv.New64a()
					h.Write(data)
					distinct[h.Sum64()] = true
					if len(distinct) >= nextSamp && len(data) < 4000 && len(wr.Samples) < 4 {
						wr.Samples = append(wr.Samples, data)
						stride *= 4
						nextSamp += stride
					}
				}
			}
			if res.Fail != "" {
				failing = true
				wr.Fail, wr.FailCase, wr.FailIndex, wr.Fatal, wr.Timeout = res.Fail, data, idx, res.Fatal, res.Timeout
				if res.Timeout {
					save()
					os.Exit(3)
				}
				if res.Fatal && !(a.Isolated || s.Isolated) {
					// This process is stuck. The caller goes on with isolated cases.
					save()
					os.Exit(3)
				}
				t.Fatalf("property violated")
			}
		})
	}()
	if tb.failed && wr.Fail == "" {
		wr.Infra = "rapid: " + tb.log.String()
		save()
		os.Exit(2)
	}
	save()
}

// runIsolated runs one case in a process of its own.
func runIsolated(a WorkerArgs, data []byte) Result {
	dir, err := os.MkdirTemp(a.Scratch, "iso")
	must(err)
	defer os.RemoveAll(dir)
	in, out := filepath.Join(dir, "case.json"), filepath.Join(dir, "result.json")
	must(os.WriteFile(in, data, 0o644))
	self, err := os.Executable()
	must(err)
	cmd := exec.Command(self, "case", "-prop", a.Prop, "-sub", a.Sub, "-tier", a.Tier, "-in", in, "-out", out, "-scratch", dir)
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	cmd.Stdout = &stderr
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	must(cmd.Start())
	err = cmd.Wait()
	syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	if rdata, rerr := os.ReadFile(out); rerr == nil {
		var r Result
		if json.Unmarshal(rdata, &r) == nil {
			return r
		}
	}
	if crashFail(stderr.Bytes()) {
		return Result{Fail: "crash: " + tail(stderr.String(), 6000)}
	}
	return Result{Infra: fmt.Sprintf("isolated case: %v\n%s", err, tail(stderr.String(), 6000))}
}

// CaseMain is the entry point of an isolated case.
func CaseMain(prop, sub, tier, in, out, scratch string) {
	debug.SetMaxStack(256 << 20)
	data, err := os.ReadFile(in)
	must(err)
	s := Lookup(prop).sub(sub)
	res := RunCase(s, data, scratch, tier)
	rdata, err := json.Marshal(res)
	must(err)
	must(os.WriteFile(out, rdata, 0o644))
	os.Exit(0)
}

func tail(s string, n int) string {
	if len(s) <= n {
		return s
	}
	return s[:n/2] + "\n...\n" + s[len(s)-n/2:]
}
