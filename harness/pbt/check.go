package pbt

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// CheckArgs are the arguments of Check.
type CheckArgs struct {
	Prop, Tier, Verif string
	OnlySub           string
	Seed              uint64
	Replay            string
	Scale             float64
	Verbose           bool
}

type job struct {
	sub    *Sub
	shard  int
	checks int
	seed   uint64
	isol   bool
	skip   int
}

type subStats struct {
	Evaluations int            `json:"evaluations"`
	Nontrivial  int            `json:"distinct_nontrivial"`
	Skipped     int            `json:"not_run_for_lack_of_time,omitempty"`
	Labels      map[string]int `json:"labels,omitempty"`
	Rule        string         `json:"rule"`
	distinct    map[uint64]bool
	samples     []json.RawMessage
}

type violation struct {
	sub    string
	replay string
	msg    string
}

func mix(parts ...string) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		h.Write([]byte(p))
		h.Write([]byte{0})
	}
	x := h.Sum64()
	// splitmix64 finalizer
	x ^= x >> 30
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	x *= 0x94d049bb133111eb
	x ^= x >> 31
	x >>= 1
	if x == 0 {
		x = 1
	}
	return x
}

// Check runs the check of one property and returns its exit status.
func Check(a CheckArgs) int {
	start := time.Now()
	p := Lookup(a.Prop)
	if p == nil {
		fmt.Fprintf(os.Stderr, "unknown property %s\n", a.Prop)
		return 2
	}
	scratch, err := os.MkdirTemp("", "verif-"+a.Prop+"-")
	must(err)
	defer os.RemoveAll(scratch)
	c := &checker{a: a, p: p, scratch: scratch}
	if a.Replay != "" {
		return c.replay(a.Replay)
	}

	listed := c.readKnown()
	var (
		stats      = map[string]*subStats{}
		violations []violation
		infras     []string
	)

	knownSub := c.knownProbes(listed, &violations, &infras)

	deadline := 400 * time.Second
	shrink := 12 * time.Second
	if a.Tier == "thorough" {
		deadline = 100 * time.Minute
		shrink = 60 * time.Second
	}
	deadlineAt := start.Add(deadline)

	cores := runtime.NumCPU()
	var jobs, serial []job
	for _, s := range p.Subs {
		if a.OnlySub != "" && a.OnlySub != s.Name {
			continue
		}
		stats[s.Name] = &subStats{Labels: map[string]int{}, Rule: s.Rule, distinct: map[uint64]bool{}}
		n := s.Quick
		if a.Tier == "thorough" {
			n = s.Thorough
		}
		if a.Scale != 0 {
			n = int(float64(n)*a.Scale) + 1
		}
		shards := cores
		if s.Shards > 0 && s.Shards < shards {
			shards = s.Shards
		}
		if shards > n {
			shards = n
		}
		for i := 0; i < shards; i++ {
			k := n / shards
			if i < n%shards {
				k++
			}
			j := job{sub: s, shard: i, checks: k, seed: mix(strconv.FormatUint(a.Seed, 10), a.Prop, s.Name, strconv.Itoa(i))}
			if s.Serial {
				serial = append(serial, j)
			} else {
				jobs = append(jobs, j)
			}
		}
	}
	// Interleave the subs, so that each gets its share if time runs out.
	sort.SliceStable(jobs, func(i, k int) bool { return jobs[i].shard < jobs[k].shard })

	var mu sync.Mutex
	failedSub := map[string]bool{}
	runJobs := func(jobs []job, par int) {
		var wg sync.WaitGroup
		ch := make(chan job)
		for i := 0; i < par; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := range ch {
					mu.Lock()
					skip := failedSub[j.sub.Name]
					mu.Unlock()
					if skip {
						continue
					}
					wr := c.runJob(j, time.Until(deadlineAt), shrink)
					mu.Lock()
					st := stats[j.sub.Name]
					st.Evaluations += wr.Evaluations
					st.Skipped += wr.Skipped
					for _, h := range wr.Distinct {
						st.distinct[h] = true
					}
					for l, n := range wr.Labels {
						st.Labels[l] += n
					}
					if len(st.samples) < 3 {
						st.samples = append(st.samples, wr.Samples...)
					}
					if wr.Infra != "" {
						infras = append(infras, fmt.Sprintf("%s/%d: %s\ncase: %s", j.sub.Name, j.shard, wr.Infra, wr.FailCase))
					}
					if wr.Fail != "" && !failedSub[j.sub.Name] {
						failedSub[j.sub.Name] = true
						violations = append(violations, violation{j.sub.Name, c.saveReplay(j.sub.Name, wr), wr.Fail})
					}
					mu.Unlock()
				}
			}()
		}
		for _, j := range jobs {
			ch <- j
		}
		close(ch)
		wg.Wait()
	}
	runJobs(jobs, cores)
	runJobs(serial, 1)

	// Report.
	total, nontriv, skipped := 0, 0, 0
	var (
		rules   []string
		samples = []any{}
		subsOut = map[string]*subStats{}
	)
	for _, s := range p.Subs {
		st := stats[s.Name]
		if st == nil {
			continue
		}
		st.Nontrivial = len(st.distinct)
		total += st.Evaluations
		nontriv += st.Nontrivial
		skipped += st.Skipped
		rules = append(rules, s.Name+": "+s.Rule)
		n := 0
		for _, x := range st.samples {
			if n == 2 {
				break
			}
			n++
			samples = append(samples, map[string]any{"sub": s.Name, "case": x})
		}
		subsOut[s.Name] = st
		if a.Verbose {
			fmt.Printf("%s: %d cases, %d distinct non-trivial, %d not run\n", s.Name, st.Evaluations, st.Nontrivial, st.Skipped)
			var ls []string
			for l, n := range st.Labels {
				ls = append(ls, fmt.Sprintf("    %6.2f%% %s", 100*float64(n)/float64(max(st.Evaluations, 1)), l))
			}
			sort.Strings(ls)
			for _, l := range ls {
				fmt.Println(l)
			}
		}
	}
	ev := map[string]any{
		"property": a.Prop, "tier": a.Tier, "seed": a.Seed, "level": "exploration",
		"coverage": map[string]any{
			"evaluations": total, "distinct_nontrivial": nontriv,
			"rule": strings.Join(rules, " | "), "samples": samples,
			"subs": subsOut, "not_run_for_lack_of_time": skipped,
			"known_findings_probed": knownSub,
		},
		"assumptions": p.Assumptions,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  len(violations),
	}
	if p.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	data, err := json.MarshalIndent(ev, "", " ")
	must(err)
	must(os.MkdirAll(filepath.Join(a.Verif, "evidence"), 0o755))
	must(os.WriteFile(filepath.Join(a.Verif, "evidence", a.Prop+".json"), append(data, '\n'), 0o644))

	for _, v := range violations {
		fmt.Printf("--- %s %s violated:\n%s\n", a.Prop, v.sub, tail(v.msg, 5000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", a.Prop, v.replay)
	}
	if len(violations) > 0 {
		return 1
	}
	if len(infras) > 0 {
		for _, s := range infras {
			fmt.Printf("harness error: %s\n", tail(s, 5000))
		}
		return 2
	}
	if skipped > 0 {
		fmt.Printf("%s: time ran out before %d of the cases\n", a.Prop, skipped)
	}
	fmt.Printf("%s: held on %d cases (%d distinct non-trivial) in %.1fs\n", a.Prop, total, nontriv, time.Since(start).Seconds())
	return 0
}

type checker struct {
	a       CheckArgs
	p       *Prop
	scratch string
	n       int
	mu      sync.Mutex
}

func (c *checker) path(name string) string {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.n++
	return filepath.Join(c.scratch, fmt.Sprintf("%s%d", name, c.n))
}

func (c *checker) runJob(j job, left, shrink time.Duration) WorkerResult {
	if left < 0 {
		left = 0
	}
	out, cur, home := c.path("out"), c.path("cur"), c.path("w")
	must(os.MkdirAll(home, 0o755))
	defer os.RemoveAll(home)
	args := []string{"worker", "-prop", c.p.ID, "-sub", j.sub.Name, "-tier", c.a.Tier,
		"-seed", strconv.FormatUint(j.seed, 10), "-checks", strconv.Itoa(j.checks), "-skip", strconv.Itoa(j.skip),
		"-deadline", left.String(), "-shrink", shrink.String(), "-out", out, "-cur", cur, "-scratch", home}
	if j.isol {
		args = append(args, "-isolated")
	}
	stderr, err := c.spawn(home, args)
	var wr WorkerResult
	data, rerr := os.ReadFile(out)
	if rerr == nil {
		if jerr := json.Unmarshal(data, &wr); jerr != nil {
			return WorkerResult{Infra: "worker output: " + jerr.Error()}
		}
		if wr.Fatal && !wr.Timeout && !j.isol {
			// Stuck: find a smaller case by running each in a process of its own.
			return c.isolate(j, wr, wr.FailIndex, left, shrink)
		}
		if err != nil && wr.Infra == "" && wr.Fail == "" {
			wr.Infra = fmt.Sprintf("worker: %v\n%s", err, tail(string(stderr), 4000))
		}
		return wr
	}
	// The worker died.
	if !crashFail(stderr) {
		return WorkerResult{Infra: fmt.Sprintf("worker died: %v\n%s", err, tail(string(stderr), 4000))}
	}
	cdata, rerr := os.ReadFile(cur)
	if rerr != nil {
		return WorkerResult{Infra: fmt.Sprintf("worker died: %v\n%s", err, tail(string(stderr), 4000))}
	}
	head, body, _ := bytes.Cut(cdata, []byte("\n"))
	idx, _ := strconv.Atoi(string(head))
	wr = WorkerResult{Evaluations: idx, Fail: "crash: " + tail(string(stderr), 6000), FailCase: body, FailIndex: idx}
	if j.isol {
		return wr
	}
	return c.isolate(j, wr, idx, left, shrink)
}

// isolate looks for the failure that ended a worker again, with each case in its own process, so that it can be shrunk.
func (c *checker) isolate(j job, first WorkerResult, idx int, left, shrink time.Duration) WorkerResult {
	j.isol = true
	j.skip = idx - 1
	wr := c.runJob(j, 2*time.Minute, 2*shrink)
	if wr.Fail != "" {
		wr.Evaluations += first.Evaluations
		wr.Distinct = append(wr.Distinct, first.Distinct...)
		return wr
	}
	first.Fail += "\n(this did not happen again with the case alone in a new process)"
	return first
}

// spawn runs this program with the given arguments in the sandbox.
func (c *checker) spawn(home string, args []string) ([]byte, error) {
	self, err := os.Executable()
	must(err)
	full := []string{"sandbox", c.scratch, os.Getenv("GOCACHE"), filepath.Join(os.Getenv("GOPATH"), "pkg/mod/cache"), "--", self}
	cmd := exec.Command(self, append(full, args...)...)
	cmd.Dir = home
	cmd.Env = append(os.Environ(), "HOME="+home, "TMPDIR="+home, "XDG_CACHE_HOME="+filepath.Join(home, ".cache"), "SHELL=/bin/sh")
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	cmd.Stdout = &stderr
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	must(cmd.Start())
	err = cmd.Wait()
	syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	return stderr.Bytes(), err
}

// Replay is the content of a replay file.
type Replay struct {
	Property string          `json:"property"`
	Sub      string          `json:"sub"`
	Seed     uint64          `json:"seed"`
	Tier     string          `json:"tier"`
	Failure  string          `json:"failure"`
	Case     json.RawMessage `json:"case"`
}

func (c *checker) saveReplay(sub string, wr WorkerResult) string {
	r := Replay{c.p.ID, sub, c.a.Seed, c.a.Tier, tail(wr.Fail, 8000), wr.FailCase}
	data, err := json.MarshalIndent(r, "", " ")
	must(err)
	h := fnv.New32a()
	h.Write(wr.FailCase)
	dir := filepath.Join(c.a.Verif, "replays")
	must(os.MkdirAll(dir, 0o755))
	file := filepath.Join(dir, fmt.Sprintf("%s-%s-%08x.json", c.p.ID, sub, h.Sum32()))
	must(os.WriteFile(file, append(data, '\n'), 0o644))
	return file
}

func (c *checker) replay(file string) int {
	data, err := os.ReadFile(file)
	must(err)
	var r Replay
	must(json.Unmarshal(data, &r))
	if r.Property != c.p.ID || c.p.sub(r.Sub) == nil {
		fmt.Fprintln(os.Stderr, "replay file is for", r.Property, r.Sub)
		return 2
	}
	res := c.oneCase(r.Sub, r.Case)
	switch {
	case res.Fail != "":
		fmt.Printf("%s\nVIOLATION property=%s replay=%s\n", tail(res.Fail, 5000), c.p.ID, file)
		return 1
	case res.Infra != "":
		fmt.Println("harness error:", res.Infra)
		return 2
	}
	fmt.Printf("%s: held on the case in %s\n", c.p.ID, file)
	return 0
}

// oneCase runs a single case in the sandbox.
func (c *checker) oneCase(sub string, data []byte) Result {
	home := c.path("w")
	must(os.MkdirAll(home, 0o755))
	in, out := c.path("in"), c.path("out")
	must(os.WriteFile(in, data, 0o644))
	stderr, err := c.spawn(home, []string{"case", "-prop", c.p.ID, "-sub", sub, "-tier", c.a.Tier, "-in", in, "-out", out, "-scratch", home})
	var res Result
	if rdata, rerr := os.ReadFile(out); rerr == nil {
		must(json.Unmarshal(rdata, &res))
		return res
	}
	if crashFail(stderr) {
		return Result{Fail: "crash: " + string(stderr)}
	}
	return Result{Infra: fmt.Sprintf("%v\n%s", err, stderr)}
}

// readKnown reads the list of known findings of this property.
func (c *checker) readKnown() map[string]string {
	listed := map[string]string{}
	f, err := os.Open(filepath.Join(c.a.Verif, "known-findings.txt"))
	if err != nil {
		return listed
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		rest, ok := strings.CutPrefix(sc.Text(), "known: property="+c.p.ID+" id=")
		if !ok {
			continue
		}
		id, desc, _ := strings.Cut(rest, " ")
		listed[id] = desc
	}
	return listed
}

func (c *checker) knownProbes(listed map[string]string, violations *[]violation, infras *[]string) []string {
	names := []string{}
	for _, k := range c.p.Known {
		names = append(names, k.ID)
		res := c.oneCase("known:"+k.ID, []byte("{}"))
		switch {
		case res.Infra != "":
			*infras = append(*infras, "known finding "+k.ID+": "+res.Infra)
		case res.Fail == "":
		case listed[k.ID] != "":
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.p.ID, listed[k.ID])
		default:
			wr := WorkerResult{Fail: res.Fail, FailCase: []byte("{}")}
			*violations = append(*violations, violation{"known:" + k.ID, c.saveReplay("known:"+k.ID, wr), res.Fail})
		}
	}
	return names
}

func init() {
	// Known-finding probes run as subs of their own.
	origSub = func(p *Prop, name string) *Sub {
		for _, k := range p.Known {
			if "known:"+k.ID == name {
				k := k
				return &Sub{Name: name, run: func(e *Env, _ []byte) error {
					if k.Fails(e) {
						e.Fatalf("%s", k.Desc)
					}
					return nil
				}}
			}
		}
		return nil
	}
}
