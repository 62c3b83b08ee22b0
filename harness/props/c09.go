package props

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"github.com/bobg/fab"
	"pgregory.net/rapid"

	"verif/pbt"
)

// C09: what Command runs and where its output goes.

type c09Chunk struct {
	FD    int
	Data  []byte
	Reps  int
	Pause int
}

// c09Script is what the process does.
type c09Script struct {
	NoStdin bool
	Chunks  []c09Chunk
	Exit    int // 1000 + n: die of signal n
	Hang    bool
	Late    []byte // written by a child that outlives the process
	LateFD  int
	LateMS  int
}

type c09Stream struct {
	Dest string // none, writer, fn, closer, badcloser, nilfn, file, append, missing
	Old  bool   // the file exists
	Pre  string // what comes before the name of the file
}

type c09Case struct {
	Script   c09Script
	Shell    string // "" = not by the shell; unset, sh, own
	Args     []string
	Env      []string
	Dir      string // "", abs, rel, missing
	Stdin    string // "", reader, osfile, file, missing
	Input    []byte
	Reps     int
	Out, Err c09Stream
	Shared   string // "", file, append, mixed, writer
	Verbose  bool
	Depth    int
	Times    int
	Cancel   string // "", before, during
	NotFound bool
}

func c09Data(t *rapid.T, label string) []byte {
	return rapid.OneOf(
		rapid.SliceOfN(rapid.SampledFrom([]byte("ab\n\n")), 0, 10),
		rapid.SliceOfN(rapid.Byte(), 0, 12),
		rapid.SliceOfN(rapid.SampledFrom([]byte("x\r\n")), 0, 8),
	).Draw(t, label)
}

func c09Arg(t *rapid.T, oneLine bool) string {
	s := pick(t, "arg", "", "a", "-c", "a b", "$HOME", "'", "\"", "\\", "*", "é", "\xff\xfe", "--", "a\nb", ";", "`id`", "%d", "#")
	if oneLine {
		s = strings.ReplaceAll(s, "\n", "/")
	}
	return s
}

func c09Gen(t *rapid.T) c09Case {
	c := c09Case{Verbose: chance(t, 35, "verbose"), Depth: pick(t, "depth", 0, 0, 1, 2), Times: pick(t, "times", 1, 1, 1, 2)}
	c.Shell = pick(t, "shell", "", "", "", "unset", "sh", "own")
	for n := drawInt(t, 0, 5, "args"); n > 0; n-- {
		c.Args = append(c.Args, c09Arg(t, c.Verbose))
	}
	for n := drawInt(t, 0, 4, "env"); n > 0; n-- {
		c.Env = append(c.Env, pick(t, "var", "VERIF_A", "VERIF_B", "HOME", "VERIF_EMPTY", "LANG")+"="+strings.ReplaceAll(c09Arg(t, false), "\x00", "")+pick(t, "tail", "", "=x"))
	}
	c.Dir = pick(t, "dir", "", "", "abs", "rel")
	c.Stdin = pick(t, "stdin", "", "reader", "osfile", "file")
	c.Input, c.Reps = c09Data(t, "input"), pick(t, "reps", 1, 1, 1, 30000)
	dest := func(label string) c09Stream {
		return c09Stream{
			Dest: pick(t, label, "none", "none", "writer", "fn", "closer", "badcloser", "nilfn", "file", "append"),
			Old:  drawBool(t, "old"),
			Pre:  pick(t, "pre", ">>", ">> ", ">>  "),
		}
	}
	c.Out, c.Err = dest("out"), dest("err")
	if chance(t, 25, "share") {
		c.Shared = pick(t, "shared", "file", "append", "mixed", "writer")
	}
	c.Script.NoStdin = chance(t, 20, "nostdin")
	for n := drawInt(t, 0, 6, "chunks"); n > 0; n-- {
		c.Script.Chunks = append(c.Script.Chunks, c09Chunk{
			FD: drawInt(t, 1, 2, "fd"), Data: c09Data(t, "data"), Reps: pick(t, "reps", 1, 1, 1, 1, 9000), Pause: pick(t, "pause", 0, 0, 0, 1)})
	}
	if chance(t, 40, "fails") {
		c.Script.Exit = pick(t, "exit", 1, 2, 77, 255, 1000+int(syscall.SIGKILL), 1000+int(syscall.SIGTERM))
	}
	if chance(t, 20, "trouble") {
		switch drawInt(t, 0, 7, "which") {
		case 0:
			c.Dir = "missing"
		case 1:
			c.Stdin = "missing"
		case 2:
			c.Out.Dest = "missing"
		case 3:
			c.Err.Dest = "missing"
		case 4:
			c.NotFound, c.Shell = true, ""
		case 5:
			c.Cancel = "before"
		case 6:
			c.Cancel, c.Script.Hang = "during", true
		case 7:
			c.Shared = "mixed"
		}
	}
	if c.Cancel == "" && chance(t, 3, "child") {
		file := func(s c09Stream) bool { return s.Dest == "file" || s.Dest == "append" }
		s := pick(t, "of", c.Out, c.Err)
		c.Script.LateFD = 1
		if s == c.Err {
			c.Script.LateFD = 2
		}
		if c.Shared == "writer" || c.Shared == "" && !file(s) {
			c.Script.Late, c.Script.LateMS = []byte("late\n"), pick(t, "late", 20, 300, 600)
		}
	}
	return c
}

type c09Report struct {
	Args  []string
	Bytes [][]byte // the same, not spoilt by JSON
	Dir   string
	Env   [][]byte
	Stdin []byte
}

func c09Helper(args []string) {
	// FILE SCRIPT ARG...
	var s c09Script
	if err := json.Unmarshal([]byte(args[1]), &s); err != nil {
		panic(err)
	}
	var r c09Report
	for _, a := range args[2:] {
		r.Bytes = append(r.Bytes, []byte(a))
	}
	r.Dir, _ = syscallGetwd()
	for _, v := range os.Environ() {
		r.Env = append(r.Env, []byte(v))
	}
	if !s.NoStdin {
		r.Stdin, _ = io.ReadAll(os.Stdin)
	}
	tell := func() {
		j, _ := json.Marshal(r)
		tmp := args[0] + ".tmp"
		if err := os.WriteFile(tmp, j, 0o644); err != nil {
			panic(err)
		}
		os.Rename(tmp, args[0])
	}
	if !s.Hang {
		tell()
	}
	for _, c := range s.Chunks {
		time.Sleep(time.Duration(c.Pause) * time.Millisecond)
		f := os.Stdout
		if c.FD == 2 {
			f = os.Stderr
		}
		f.Write(bytes.Repeat(c.Data, c.Reps))
	}
	if len(s.Late) > 0 {
		child := exec.Command("/bin/sh", "-c", fmt.Sprintf("sleep %d.%03d; printf '%%s' \"$1\"", s.LateMS/1000, s.LateMS%1000), "sh", string(s.Late))
		child.Stdout = os.Stdout
		if s.LateFD == 2 {
			child.Stdout = os.Stderr
		}
		if err := child.Start(); err != nil {
			panic(err)
		}
	}
	if s.Hang {
		tell()
		time.Sleep(100 * time.Second)
	}
	if s.Exit >= 1000 {
		syscall.Kill(os.Getpid(), syscall.Signal(s.Exit-1000))
		time.Sleep(10 * time.Second)
	}
	os.Exit(s.Exit)
}

// syscallGetwd does not believe $PWD.
func syscallGetwd() (string, error) {
	var buf [4096]byte
	n, err := syscall.Getcwd(buf[:])
	if err != nil {
		return "", err
	}
	return string(buf[:n-1]), nil
}

// c09Writer is a destination. It must not be written to or closed at the same time as something else.
type c09Writer struct {
	buf      bytes.Buffer
	closed   int
	closeErr error
	late     bool
}

func (w *c09Writer) Write(p []byte) (int, error) {
	if w.closed > 0 {
		w.late = true
	}
	return w.buf.Write(p)
}

type c09Closer struct{ c09Writer }

func (w *c09Closer) Close() error {
	w.closed++
	return w.closeErr
}

var errC09Close = errors.New("cannot close")

func shellQuote(s string) string { return "'" + strings.ReplaceAll(s, "'", `'\''`) + "'" }

func c09Run(e *pbt.Env, c c09Case) {
	e.Must(os.Chdir(e.Dir))
	for k := 0; k < c.Times; k++ {
		if !c09Once(e, c, k) {
			break
		}
		if c.Stdin == "reader" || c.Stdin == "osfile" {
			break
		}
	}
	if len(c.Script.Chunks) > 0 {
		e.NonTrivial()
	}
	e.Label("stdout %s", c.Out.Dest)
	e.Label("stderr %s", c.Err.Dest)
	e.LabelIf(c.Shared != "", "both to one "+c.Shared)
	e.LabelIf(c.Verbose, "verbose")
	e.LabelIf(len(c.Script.Late) > 0, "process leaves a child that writes")
	e.LabelIf(c.Shell != "", "shell "+c.Shell)
	e.LabelIf(c.Script.Exit != 0, "failing process")
}

type c09Dest struct {
	w        *c09Writer
	closer   *c09Closer
	file     string
	old      string
	calls    int
	indirect bool // by function
}

func c09Once(e *pbt.Env, c c09Case, round int) bool {
	var (
		report = filepath.Join(e.Dir, fmt.Sprint("report", round))
		script []byte
		err    error
	)
	script, err = json.Marshal(c.Script)
	e.Must(err)
	args := append([]string{"helper", "c09", report, string(script)}, c.Args...)
	cmd := &fab.Command{Cmd: pbt.Self(), Args: args, Env: append([]string(nil), c.Env...)}
	if c.NotFound {
		cmd.Cmd = pick2(round, "verif-no-such-command", filepath.Join(e.Dir, "no/such"))
	}
	shellLog := filepath.Join(e.Dir, "shell-args")
	if c.Shell != "" {
		s := "exec " + shellQuote(pbt.Self())
		for _, a := range args {
			s += " " + shellQuote(a)
		}
		cmd.Cmd, cmd.Args, cmd.Shell = "", nil, s
		oldShell, had := os.LookupEnv("SHELL")
		e.Cleanup(func() {
			if os.Unsetenv("SHELL"); had {
				os.Setenv("SHELL", oldShell)
			}
		})
		switch c.Shell {
		case "unset":
			os.Unsetenv("SHELL")
		case "sh":
			os.Setenv("SHELL", "/bin/sh")
		case "own":
			own := filepath.Join(e.Dir, "my shell")
			if _, err := os.Stat(own); err != nil {
				e.WriteFile(own, fmt.Sprintf("#!/bin/sh\nprintf '%%s\\n' \"$#\" \"$1\" \"$2\" >%s\nexec /bin/sh \"$@\"\n", shellQuote(shellLog)))
				e.Must(os.Chmod(own, 0o755))
			}
			os.Setenv("SHELL", own)
		}
	}

	// Directory.
	wantDir := e.Dir
	switch c.Dir {
	case "abs":
		cmd.Dir = filepath.Join(e.Dir, "some dir")
		wantDir = cmd.Dir
	case "rel":
		cmd.Dir = "some dir/sub"
		wantDir = filepath.Join(e.Dir, cmd.Dir)
	case "missing":
		cmd.Dir = filepath.Join(e.Dir, "missing")
	}
	e.Must(os.MkdirAll(filepath.Join(e.Dir, "some dir/sub"), 0o755))
	if wantDir, err = filepath.EvalSymlinks(wantDir); err != nil {
		e.Infra("%s", err)
	}

	// Input.
	input := bytes.Repeat(c.Input, c.Reps)
	switch c.Stdin {
	case "reader":
		cmd.Stdin = struct{ io.Reader }{bytes.NewReader(input)}
	case "osfile":
		f, err := os.Open(e.WriteFile("input", string(input)))
		e.Must(err)
		defer f.Close()
		cmd.Stdin = f
	case "file":
		cmd.StdinFile = e.WriteFile("input", string(input))
	case "missing":
		cmd.StdinFile = filepath.Join(e.Dir, "missing")
	default:
		input = nil
	}

	// Output.
	con := fab.NewController(e.Dir)
	type ctxKey struct{}
	outcome := map[string]string{}
	setup := func(name string, s c09Stream, w *io.Writer, fn *func(context.Context, *fab.Controller) io.Writer, file *string) *c09Dest {
		d := &c09Dest{}
		give := func(x io.Writer) func(context.Context, *fab.Controller) io.Writer {
			d.indirect = true
			return func(ctx context.Context, gotCon *fab.Controller) io.Writer {
				d.calls++
				if gotCon != con || ctx.Value(ctxKey{}) != "mark" {
					e.Errorf("%sFn was called with another controller or context", name)
				}
				return x
			}
		}
		old := func() {
			d.file = filepath.Join(e.Dir, name+".txt")
			if data, err := os.ReadFile(d.file); err == nil {
				d.old = string(data)
			} else if s.Old {
				d.old = "old " + name + " without end of line"
				e.WriteFile(d.file, d.old)
			}
		}
		switch s.Dest {
		case "writer":
			d.w = &c09Writer{}
			*w = d.w
		case "fn":
			d.w = &c09Writer{}
			*fn = give(d.w)
		case "closer", "badcloser":
			d.closer = &c09Closer{}
			d.w = &d.closer.c09Writer
			if s.Dest == "badcloser" {
				d.closer.closeErr = errC09Close
			}
			*fn = give(d.closer)
		case "nilfn":
			*fn = give(nil)
		case "file":
			old()
			*file = d.file
			d.old = ""
		case "append":
			old()
			*file = s.Pre + d.file
		case "missing":
			*file = filepath.Join(e.Dir, "missing", name)
		}
		return d
	}
	var outD, errD *c09Dest
	mixed := false
	switch c.Shared {
	case "":
		outD = setup("Stdout", c.Out, &cmd.Stdout, &cmd.StdoutFn, &cmd.StdoutFile)
		errD = setup("Stderr", c.Err, &cmd.Stderr, &cmd.StderrFn, &cmd.StderrFile)
	case "writer":
		outD = setup("Stdout", c09Stream{Dest: "writer"}, &cmd.Stdout, &cmd.StdoutFn, &cmd.StdoutFile)
		cmd.Stderr, errD = cmd.Stdout, outD
	default:
		s := c.Out
		s.Dest = "file"
		if c.Shared == "append" {
			s.Dest = "append"
		}
		outD = setup("Stdout", s, &cmd.Stdout, &cmd.StdoutFn, &cmd.StdoutFile)
		cmd.StderrFile, errD = cmd.StdoutFile, outD
		if c.Shared == "mixed" {
			mixed = true
			cmd.StderrFile = ">>" + cmd.StdoutFile
			if c.Out.Old {
				cmd.StdoutFile, cmd.StderrFile = cmd.StderrFile, cmd.StdoutFile
			}
		}
	}

	// Run.
	ctx, cancel := context.WithCancel(context.WithValue(context.Background(), ctxKey{}, "mark"))
	defer cancel()
	ctx = fab.WithVerbose(ctx, c.Verbose)
	switch c.Cancel {
	case "before":
		cancel()
	case "during":
		go func() {
			for ctx.Err() == nil {
				if _, err := os.Stat(report); err == nil {
					cancel()
				}
				time.Sleep(time.Millisecond)
			}
		}()
	}
	var t fab.Target = cmd
	for i := 0; i < c.Depth; i++ {
		t = fab.Seq(t)
	}
	stopOut := capture(e, &os.Stdout, fmt.Sprint("captured-out", round))
	stopErr := capture(e, &os.Stderr, fmt.Sprint("captured-err", round))
	gotErr := con.Run(ctx, t)
	gotOut, gotErrOut := stopOut(), stopErr()

	// What was run?
	setupFails := c.Dir == "missing" || c.Stdin == "missing" || c.NotFound || c.Cancel == "before" || mixed ||
		c.Shared == "" && (c.Out.Dest == "missing" || c.Err.Dest == "missing")
	data, rerr := os.ReadFile(report)
	if setupFails {
		if rerr == nil {
			e.Fatalf("the process was run although its set-up should have failed")
		}
		if gotErr == nil {
			e.Fatalf("no error although the set-up should have failed")
		}
		for _, d := range []*c09Dest{outD, errD} {
			if d.closer != nil && d.calls != d.closer.closed {
				e.Fatalf("a writer handed out %d times was closed %d times", d.calls, d.closer.closed)
			}
		}
		e.Label("set-up fails")
		return false
	}
	if rerr != nil {
		e.Fatalf("the process was not run: %v", gotErr)
	}
	var r c09Report
	e.Must(json.Unmarshal(data, &r))
	if fmt.Sprintf("%q", r.Bytes) != fmt.Sprintf("%q", c.Args) {
		e.Fatalf("the arguments were %q, want %q", r.Bytes, c.Args)
	}
	if r.Dir != wantDir {
		e.Fatalf("the directory was %q, want %q", r.Dir, wantDir)
	}
	envMap := func(l []string) map[string]string {
		m := map[string]string{}
		for _, v := range l {
			k, x, _ := strings.Cut(v, "=")
			m[k] = x
		}
		delete(m, "PWD")
		delete(m, "_")
		delete(m, "OLDPWD")
		return m
	}
	var gotEnv []string
	for _, v := range r.Env {
		gotEnv = append(gotEnv, string(v))
	}
	if d := diffMaps(envMap(append(os.Environ(), c.Env...)), envMap(gotEnv)); d != "" {
		e.Fatalf("the environment differs:\n%s", d)
	}
	if !c.Script.NoStdin && !bytes.Equal(r.Stdin, input) {
		e.Fatalf("standard input was %d bytes %.100q, want %d bytes %.100q", len(r.Stdin), r.Stdin, len(input), input)
	}
	if c.Shell == "own" {
		got, _ := os.ReadFile(shellLog)
		if want := "2\n-c\n" + cmd.Shell + "\n"; string(got) != want {
			e.Fatalf("$SHELL was run with %q, want %q", got, want)
		}
	}

	// Where did its output go?
	var streams [3]bytes.Buffer // 0: both
	for _, ch := range c.Script.Chunks {
		x := bytes.Repeat(ch.Data, ch.Reps)
		streams[ch.FD].Write(x)
		streams[0].Write(x)
	}
	if late := c.Script.Late; len(late) > 0 {
		streams[c.Script.LateFD].Write(late)
		streams[0].Write(late)
	}
	var captured bytes.Buffer
	nilOr := func(dest string) bool { return dest == "none" || dest == "nilfn" }
	outDefault := c.Shared == "" && nilOr(c.Out.Dest)
	errDefault := c.Shared == "" && nilOr(c.Err.Dest)
	if !c.Verbose {
		switch {
		case outDefault && errDefault:
			captured = streams[0]
		case outDefault:
			captured = streams[1]
		case errDefault:
			captured = streams[2]
		}
	}
	wantOut, wantErrOut := "", ""
	if c.Verbose {
		indent := strings.Repeat("  ", c.Depth)
		if outDefault {
			wantOut = c14Model(indent+"      ", streams[1].Bytes())
		}
		if errDefault {
			wantErrOut = c14Model(indent+"      ", streams[2].Bytes())
		}
		// What comes before are messages.
		if rest, ok := strings.CutSuffix(gotOut, wantOut); ok {
			msgs := true
			for _, l := range strings.Split(strings.TrimSuffix(rest, "\n"), "\n") {
				msgs = msgs && (l == "" || strings.Contains(l, "Running "))
			}
			if msgs {
				gotOut = wantOut
			}
		}
	}
	outcome["Fab's standard output"] = gotOut
	outcome["Fab's standard error"] = gotErrOut
	want := map[string]string{"Fab's standard output": wantOut, "Fab's standard error": wantErrOut}
	look := func(name string, d *c09Dest, content string) {
		switch {
		case d.file != "":
			got, _ := os.ReadFile(d.file)
			outcome[name], want[name] = string(got), d.old+content
		case d.w != nil:
			outcome[name], want[name] = d.w.buf.String(), content
			if d.w.late {
				e.Fatalf("%s was written to after it had been closed", name)
			}
		}
		if d.indirect && d.calls != 1 {
			e.Fatalf("the function for %s was called %d times", name, d.calls)
		}
		if d.closer != nil && d.closer.closed != 1 {
			e.Fatalf("%s was closed %d times", name, d.closer.closed)
		}
	}
	if outD == errD {
		look("Stdout and Stderr", outD, streams[0].String())
	} else {
		look("Stdout", outD, streams[1].String())
		look("Stderr", errD, streams[2].String())
	}
	if d := diffMaps(want, outcome); d != "" {
		e.Fatalf("output differs from what is wanted:\n%s", d)
	}

	// How did it end?
	badClose := c.Shared == "" && (c.Out.Dest == "badcloser" || c.Err.Dest == "badcloser")
	procFails := c.Script.Exit != 0 || c.Cancel != ""
	switch {
	case procFails:
		if gotErr == nil {
			e.Fatalf("no error although the process failed")
		}
		var x *exec.ExitError
		if !errors.As(gotErr, &x) && c.Cancel == "" {
			e.Fatalf("the error does not tell how the process ended: %v", gotErr)
		}
		if x != nil && c.Cancel == "" {
			if c.Script.Exit < 1000 && x.ExitCode() != c.Script.Exit {
				e.Fatalf("exit status is %d, want %d", x.ExitCode(), c.Script.Exit)
			}
			if c.Script.Exit >= 1000 && x.Sys().(syscall.WaitStatus).Signal() != syscall.Signal(c.Script.Exit-1000) {
				e.Fatalf("ended by %v, want signal %d", x, c.Script.Exit-1000)
			}
		}
		var ce fab.CommandErr
		if errors.As(gotErr, &ce) {
			if !bytes.Equal(ce.Output, captured.Bytes()) {
				e.Fatalf("the output with the error is %.200q, want %.200q", ce.Output, captured.Bytes())
			}
		} else if captured.Len() > 0 {
			e.Fatalf("the error is without the captured output: %v", gotErr)
		}
	case badClose:
		if !errors.Is(gotErr, errC09Close) {
			e.Fatalf("got error %v although a writer could not be closed", gotErr)
		}
	case gotErr != nil:
		e.Fatalf("unexpected error %v", gotErr)
	}
	return true
}

func init() {
	pbt.Helpers["c09"] = c09Helper
	pbt.Register(&pbt.Prop{
		ID: "C09",
		Subs: []*pbt.Sub{
			pbt.NewSub("command", "Commands by shell or not, with arguments, environment, directory, input, and all combinations of destinations, running a program that reports what it was given and follows a script of output and exit; non-trivial: the program writes output", 2400, 100000, c09Gen, c09Run),
		},
		Assumptions: []string{"PWD and OLDPWD are not compared"},
	})
}
