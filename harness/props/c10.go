package props

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"github.com/bobg/fab"
	"pgregory.net/rapid"

	"verif/pbt"
)

// C10: what a YAML Command means.

type c10Stream struct {
	Dest string // "", special, rel, abs, missing
	S    string // the special name, or the name of the file
	App  string // "" or the prefix
	Old  bool
}

type c10Case struct {
	Dir     string // of the YAML file
	RelTop  bool
	List    bool // Shell is a list
	Cmd     bool // Cmd and Args
	Args    []string
	ArgsTag int // how lists are written: 0 plain, 1 as one tagged list, 2 partly, 3 and 4 the same with one that depends on the directory
	EnvTag  int
	ListTag int
	Env     []string
	Scripts []c09Script
	Plain   []string // for those that are not run by the program: the shell string
	WorkDir string   // "", abs, rel, up, missing
	Stdin   string   // "", special, rel, abs, missing
	Input   []byte
	Out     c10Stream
	Err     c10Stream
	Same    bool
	Verbose bool
	Times   int
	Doc     *Y // with %TOP% and %REPORT% not yet filled in
	Bad     string
}

func c10Gen(t *rapid.T) c10Case {
	c := c10Case{
		Dir: pick(t, "dir", "", "d", "d/e f"), RelTop: drawBool(t, "relTop"), Verbose: chance(t, 40, "verbose"),
		Times: pick(t, "times", 1, 1, 2),
	}
	switch drawInt(t, 0, 3, "form") {
	case 0:
		c.Cmd = true
	case 1:
	default:
		c.List = true
	}
	n := 1
	if c.List {
		n = drawInt(t, 0, 4, "n")
	}
	for i := 0; i < n; i++ {
		if c.List && chance(t, 25, "plain") {
			p := c10Plains[uniform(t, len(c10Plains), "plainKind")]
			if c.Verbose && strings.Contains(p.text, "\n") {
				p = c10Plains[0] // the command is shown in a message
			}
			c.Scripts = append(c.Scripts, c09Script{NoStdin: true, Chunks: p.chunks, Exit: p.exit})
			c.Plain = append(c.Plain, p.text)
			continue
		}
		c.Plain = append(c.Plain, "-")
		s := c09Script{NoStdin: drawBool(t, "nostdin")}
		for k := drawInt(t, 0, 4, "chunks"); k > 0; k-- {
			s.Chunks = append(s.Chunks, c09Chunk{FD: drawInt(t, 1, 2, "fd"), Data: c09Data(t, "data"), Reps: pick(t, "reps", 1, 1, 1, 3000)})
		}
		if c.Verbose {
			s.Chunks = append(s.Chunks, c09Chunk{FD: 1, Data: []byte("\n"), Reps: 1}, c09Chunk{FD: 2, Data: []byte("\n"), Reps: 1})
		}
		if chance(t, 25, "fails") {
			s.Exit = pick(t, "exit", 1, 3, 1015)
		}
		c.Scripts = append(c.Scripts, s)
	}
	if c.Cmd {
		for k := drawInt(t, 0, 4, "args"); k > 0; k-- {
			c.Args = append(c.Args, strings.ToValidUTF8(c09Arg(t, c.Verbose), "?"))
		}
	}
	for k := drawInt(t, 0, 3, "env"); k > 0; k-- {
		c.Env = append(c.Env, pick(t, "var", "VERIF_A", "VERIF_B", "HOME")+"="+strings.ToValidUTF8(c09Arg(t, false), "?"))
	}
	c.ArgsTag, c.EnvTag, c.ListTag = drawInt(t, 0, 4, "argsTag"), drawInt(t, 0, 4, "envTag"), drawInt(t, 0, 4, "listTag")
	c.WorkDir = pick(t, "workdir", "", "", "abs", "rel", "up")
	c.Stdin = pick(t, "stdin", "", "special", "rel", "abs")
	c.Input = c09Data(t, "input")
	stream := func(label string) c10Stream {
		s := c10Stream{Dest: pick(t, label, "", "special", "special", "rel", "rel", "abs"), Old: drawBool(t, "old")}
		switch s.Dest {
		case "special":
			s.S = pick(t, "special", "$stdout", "$stderr", "$indent", "$verbose", "$discard")
		case "rel", "abs":
			s.S = label + pick(t, "name", ".txt", " x", "$indent", "-dir/x", ">y", "-dir/../z")
			s.App = pick(t, "app", "", "", ">>", ">> ")
		}
		return s
	}
	c.Out, c.Err = stream("out"), stream("err")
	if chance(t, 25, "same") {
		c.Same = true
		if c.Out.S == "" {
			c.Out = c10Stream{Dest: "rel", S: "out.txt"}
		}
		old := c.Out.Old
		c.Err = c.Out
		c.Err.Old = old
		if (c.Out.Dest == "rel" || c.Out.Dest == "abs") && chance(t, 20, "mixed") {
			if c.Out.App == "" {
				c.Err.App = ">>"
			} else {
				c.Err.App = ""
			}
		}
	}
	if chance(t, 12, "trouble") {
		switch drawInt(t, 0, 3, "which") {
		case 0:
			c.WorkDir = "missing"
		case 1:
			c.Stdin = "missing"
		case 2:
			c.Same, c.Out = false, c10Stream{Dest: "missing", S: "missing/out", App: pick(t, "app", "", ">>")}
		case 3:
			c.Same, c.Err = false, c10Stream{Dest: "missing", S: "missing/err", App: pick(t, "app", "", ">>")}
		}
	}
	c.Doc = c10Doc(t, &c)
	return c
}

// c10Plains are shell strings and what they do.
var c10Plains = []struct {
	text   string
	chunks []c09Chunk
	exit   int
}{
	{"", nil, 0},
	{" ", nil, 0},
	{"\n", nil, 0},
	{"# comment", nil, 0},
	{"true", nil, 0},
	{":", nil, 0},
	{"echo x", []c09Chunk{{FD: 1, Data: []byte("x\n"), Reps: 1}}, 0},
	{"echo x", []c09Chunk{{FD: 1, Data: []byte("x\n"), Reps: 1}}, 0},
	{"echo y >&2", []c09Chunk{{FD: 2, Data: []byte("y\n"), Reps: 1}}, 0},
	{"echo x; echo y >&2", []c09Chunk{{FD: 1, Data: []byte("x\n"), Reps: 1}, {FD: 2, Data: []byte("y\n"), Reps: 1}}, 0},
	{"\n\techo 'p\n q'\n", []c09Chunk{{FD: 1, Data: []byte("p\n q\n"), Reps: 1}}, 0},
	{"exit 5", nil, 5},
}

// c10Strings writes a list of strings in one of several ways.
func c10Strings(dir string, form int, xs []string) *Y {
	plain := func(tag string, xs []string) *Y {
		y := yseq(tag)
		for _, x := range xs {
			y.Seq = append(y.Seq, ystr(x))
		}
		return y
	}
	switch form {
	case 1:
		return plain("verif.list", xs)
	case 2:
		k := len(xs) / 2
		y := plain("", xs[:k])
		y.Seq = append(y.Seq, plain("verif.list", xs[k:]))
		return y
	case 3:
		return yin(dir, plain("", xs).Seq...)
	case 4:
		k := len(xs) / 2
		y := plain("", xs[:k])
		y.Seq = append(y.Seq, yin(dir, plain("", xs[k:]).Seq...))
		return y
	}
	return plain("", xs)
}

func c10Doc(t *rapid.T, c *c10Case) *Y {
	y := ymap("Command")
	helper := func(i int) []string {
		j, _ := json.Marshal(c.Scripts[i])
		return []string{"helper", "c09", fmt.Sprintf("%%REPORT%%%d", i), string(j)}
	}
	shell := func(i int) string {
		if c.Plain[i] != "-" {
			return c.Plain[i]
		}
		s := "exec " + shellQuote("%SELF%")
		for _, a := range helper(i) {
			s += " " + shellQuote(a)
		}
		tail := pick(t, "tail", "", "\n", " # comment", " a 'b c' \"$HOME\"")
		if c.Verbose {
			tail = strings.TrimRight(tail, "\n") // the command is shown in a message
		}
		return s + tail
	}
	var shells []string
	switch {
	case c.List:
		for i := range c.Scripts {
			shells = append(shells, shell(i))
		}
		y.add("Shell", c10Strings(c.Dir, c.ListTag, shells))
	case c.Cmd:
		y.add("Cmd", ystr("%SELF%"))
		y.add("Args", c10Strings(c.Dir, c.ArgsTag, append(helper(0), c.Args...)))
	default:
		y.add("Shell", ystr(shell(0)))
	}
	if len(c.Env) > 0 {
		y.add("Env", c10Strings(c.Dir, c.EnvTag, c.Env))
	}
	switch c.WorkDir {
	case "abs":
		y.add("Dir", ystr("%TOP%/elsewhere"))
	case "rel":
		y.add("Dir", ystr(pick(t, "reldir", "sub/x", "./sub/x", "sub//x/")))
	case "up":
		y.add("Dir", ystr("sub/.."))
	case "missing":
		y.add("Dir", ystr("missing"))
	}
	switch c.Stdin {
	case "special":
		y.add("Stdin", ystr("$stdin"))
	case "rel":
		y.add("Stdin", ystr("in put"))
	case "abs":
		y.add("Stdin", ystr("%TOP%/in"))
	case "missing":
		y.add("Stdin", ystr("missing"))
	}
	stream := func(name string, s c10Stream) {
		switch s.Dest {
		case "special":
			y.add(name, ystr(s.S))
		case "rel", "missing":
			y.add(name, ystr(s.App+s.S))
		case "abs":
			y.add(name, ystr(s.App+"%TOP%/elsewhere/"+s.S))
		}
	}
	stream("Stdout", c.Out)
	stream("Stderr", c.Err)
	if chance(t, 8, "bad") {
		c.Bad = pick(t, "badKind", "node", "Args", "Env", "Stdin", "Stdout", "Stderr", "Dir", "Shell", "Cmd", "Elt")
		c.Doc = y
		c10Corrupt(t, c, y)
	}
	return y.restyle(t, false)
}

func c10Corrupt(t *rapid.T, c *c10Case, y *Y) {
	set := func(k string, v *Y) {
		for i := range y.Keys {
			if y.Keys[i] == k {
				y.Vals[i] = v
				return
			}
		}
		y.add(k, v)
	}
	drop := func(k string) {
		for i := range y.Keys {
			if y.Keys[i] == k {
				y.Keys = append(y.Keys[:i:i], y.Keys[i+1:]...)
				y.Vals = append(y.Vals[:i:i], y.Vals[i+1:]...)
				return
			}
		}
	}
	aMap := ymap("", "k", ystr("v"))
	aSeq := yseq("", ystr("v"))
	badList := pick(t, "badList", yseq("", ystr("a"), aMap), yseq("", aSeq), yseq("no.such", ystr("a")), yseq("", yseq("no.such")), aMap)
	switch c.Bad {
	case "node":
		*y = *pick(t, "badNode", yseq("Command", ystr("true")), &Y{Kind: "str", Tag: "Command", S: "true"})
	case "Args", "Env":
		v := badList
		if drawBool(t, "scalar") {
			v = ystr("a")
		}
		set(c.Bad, v)
	case "Stdin", "Stdout", "Stderr", "Dir":
		set(c.Bad, pick(t, "badScalar", aMap, aSeq))
	case "Cmd":
		drop("Shell")
		set("Cmd", pick(t, "badScalar", aMap, aSeq))
	default:
		drop("Cmd")
		drop("Args")
		set("Shell", badList)
	}
}

func c10Run(e *pbt.Env, c c10Case) {
	top, err := filepath.EvalSymlinks(e.Dir)
	e.Must(err)
	top = filepath.Join(top, "top")
	base := filepath.Join(top, c.Dir)
	for _, d := range []string{filepath.Join(base, "sub/x"), filepath.Join(base, "out-dir"), filepath.Join(base, "err-dir"),
		filepath.Join(top, "elsewhere/out-dir"), filepath.Join(top, "elsewhere/err-dir")} {
		e.Must(os.MkdirAll(d, 0o755))
	}
	e.WriteFile(filepath.Join(base, "in put"), string(c.Input))
	e.WriteFile(filepath.Join(top, "in"), string(c.Input)+"abs")
	conTop := top
	if c.RelTop {
		e.Must(os.Chdir(filepath.Dir(top)))
		conTop = "top"
	}
	report := filepath.Join(e.Dir, "report")

	var fill func(y *Y) *Y
	fill = func(y *Y) *Y {
		z := *y
		z.S = strings.NewReplacer("%TOP%", top, "%REPORT%", report, "%SELF%", pbt.Self()).Replace(y.S)
		z.Seq, z.Vals = nil, nil
		for _, x := range y.Seq {
			z.Seq = append(z.Seq, fill(x))
		}
		for _, x := range y.Vals {
			z.Vals = append(z.Vals, fill(x))
		}
		return &z
	}
	doc := ymap("", "T", fill(c.Doc))
	if c.Dir != "" {
		doc.add("_dir", ystr(c.Dir))
	}
	src := doc.text()
	if c.Bad != "" {
		con := fab.NewController(conTop)
		if err := con.ReadYAML(strings.NewReader(src), c.Dir); err == nil {
			e.Fatalf("accepted although %s is mistyped:\n%s", c.Bad, src)
		}
		if reports, _ := filepath.Glob(report + "*"); len(reports) > 0 {
			e.Fatalf("reading YAML ran a command")
		}
		e.Label("mistyped %s", c.Bad)
		e.NonTrivial()
		return
	}

	// Where output goes: real destinations.
	file := func(s c10Stream) string {
		switch s.Dest {
		case "rel", "missing":
			return filepath.Join(base, s.S)
		case "abs":
			return filepath.Join(top, "elsewhere", s.S)
		}
		return ""
	}
	outFile, errFile := file(c.Out), file(c.Err)
	content := map[string]string{}
	for _, x := range []struct {
		s c10Stream
		f string
	}{{c.Out, outFile}, {c.Err, errFile}} {
		if x.f == "" || x.s.Dest == "missing" {
			continue
		}
		if x.s.Old {
			content[x.f] = "old content"
			e.WriteFile(x.f, content[x.f])
		}
	}
	mixed := outFile != "" && outFile == errFile && (c.Out.App == "") != (c.Err.App == "")
	setupFails := mixed || c.WorkDir == "missing" || c.Stdin == "missing" || c.Out.Dest == "missing" || c.Err.Dest == "missing"

	for round := 0; round < c.Times; round++ {
		c10Round(e, c, round, src, conTop, top, base, report, outFile, errFile, content, setupFails)
	}

	e.LabelIf(c.List, fmt.Sprintf("list of %d", min(len(c.Scripts), 3)))
	e.LabelIf(c.Cmd, "Cmd")
	for _, p := range c.Plain {
		e.LabelIf(p != "-" && strings.TrimSpace(p) == "", "a blank shell string")
		e.LabelIf(p != "-" && strings.TrimSpace(p) != "", "a shell string without a program")
	}
	e.LabelIf(c.RelTop, "relative top directory")
	e.LabelIf(mixed, "append and overwrite one file")
	e.LabelIf(c.Same && !mixed && outFile != "", "both to one file")
	e.Label("stdout %s", strings.TrimSpace(c.Out.App+" "+c.Out.Dest+" "+map[bool]string{true: c.Out.S}[c.Out.Dest == "special"]))
	e.Label("stderr %s", strings.TrimSpace(c.Err.App+" "+c.Err.Dest+" "+map[bool]string{true: c.Err.S}[c.Err.Dest == "special"]))
	e.Label("stdin %s", c.Stdin)
	for _, s := range c.Scripts {
		if len(s.Chunks) > 0 && !setupFails {
			e.NonTrivial()
		}
	}
}

func c10Round(e *pbt.Env, c c10Case, round int, src, conTop, top, base, report, outFile, errFile string, content map[string]string, setupFails bool) {
	for i := range c.Scripts {
		os.Remove(fmt.Sprint(report, i))
	}
	in, err := os.Open(e.WriteFile("stdin", string(c.Input)+"special"))
	e.Must(err)
	defer in.Close()
	oldStdin := os.Stdin
	os.Stdin = in
	defer func() { os.Stdin = oldStdin }()
	stopOut := capture(e, &os.Stdout, fmt.Sprint("captured-out", round))
	stopErr := capture(e, &os.Stderr, fmt.Sprint("captured-err", round))

	con := fab.NewController(conTop)
	readErr := con.ReadYAML(strings.NewReader(src), c.Dir)
	var gotErr error
	if readErr == nil {
		target, _ := con.RegistryTarget(filepath.Join(c.Dir, "T"))
		if target == nil {
			e.Fatalf("the target is not registered")
		}
		if reports, _ := filepath.Glob(report + "*"); len(reports) > 0 {
			e.Fatalf("reading YAML ran a command")
		}
		gotErr = con.Run(fab.WithVerbose(context.Background(), c.Verbose), target)
	}
	got := map[string]string{"Fab's standard output": stopOut(), "Fab's standard error": stopErr()}
	if readErr != nil {
		e.Fatalf("not accepted: %s\n%s", readErr, src)
	}

	// What should have happened?
	var (
		std    [3]string // what comes at Fab's own streams
		shared bool      // two streams of one command end in one of Fab's streams, by different routes
		failed *c09Script
		capt   string
		input  = ""
	)
	switch c.Stdin {
	case "special":
		input = string(c.Input) + "special"
	case "rel":
		input = string(c.Input)
	case "abs":
		input = string(c.Input) + "abs"
	}
	wantDir := base
	switch c.WorkDir {
	case "abs":
		wantDir = filepath.Join(top, "elsewhere")
	case "rel":
		wantDir = filepath.Join(base, "sub/x")
	}
	depth := 0
	if c.List {
		depth = 1
	}
	if setupFails && len(c.Scripts) > 0 {
		for i := range c.Scripts {
			if _, err := os.Stat(fmt.Sprint(report, i)); err == nil {
				e.Fatalf("command %d was run although its set-up should have failed\n%s", i, src)
			}
		}
		if gotErr == nil {
			e.Fatalf("no error although the set-up should have failed\n%s", src)
		}
		e.Label("set-up fails")
		return
	}
	for i := range c.Scripts {
		plain := c.Plain[i] != "-"
		data, rerr := os.ReadFile(fmt.Sprint(report, i))
		if failed != nil {
			if rerr == nil {
				e.Fatalf("command %d was run after one that failed\n%s", i, src)
			}
			continue
		}
		if rerr != nil && !plain {
			e.Fatalf("command %d was not run: %v\n%s", i, gotErr, src)
		}
		s := c.Scripts[i]
		var r c09Report
		if !plain {
			e.Must(json.Unmarshal(data, &r))
		}
		if c.Cmd {
			var want [][]byte
			for _, a := range c.Args {
				want = append(want, []byte(a))
			}
			if fmt.Sprintf("%q", r.Bytes) != fmt.Sprintf("%q", want) {
				e.Fatalf("arguments are %q, want %q\n%s", r.Bytes, want, src)
			}
		}
		if !plain && r.Dir != wantDir {
			e.Fatalf("directory is %q, want %q\n%s", r.Dir, wantDir, src)
		}
		if !s.NoStdin && string(r.Stdin) != input {
			e.Fatalf("command %d: standard input is %.100q, want %.100q\n%s", i, r.Stdin, input, src)
		}
		if !s.NoStdin && c.Stdin == "special" {
			input = "" // used up
		}
		env := func(l []string) map[string]string {
			m := map[string]string{}
			for _, v := range l {
				k, x, _ := strings.Cut(v, "=")
				m[k] = x
			}
			delete(m, "PWD")
			delete(m, "_")
			delete(m, "OLDPWD")
			return m
		}
		var gotEnv []string
		for _, v := range r.Env {
			gotEnv = append(gotEnv, string(v))
		}
		if d := diffMaps(env(append(os.Environ(), c.Env...)), env(gotEnv)); !plain && d != "" {
			e.Fatalf("environment differs:\n%s\n%s", d, src)
		}

		var streams [3]bytes.Buffer // 0: both
		for _, ch := range s.Chunks {
			x := bytes.Repeat(ch.Data, ch.Reps)
			streams[ch.FD].Write(x)
			streams[0].Write(x)
		}
		// route gives where a stream goes: the real destination and how.
		route := func(st c10Stream, fd int) (dest, how string) {
			x := st.S
			if st.Dest == "" {
				x = "$verbose"
			}
			if st.Dest != "" && st.Dest != "special" {
				return file2(fd, outFile, errFile), "file"
			}
			switch x {
			case "$stdout":
				return "1", "direct"
			case "$stderr":
				return "2", "direct"
			case "$indent":
				return fmt.Sprint(fd), "indent"
			case "$verbose":
				if c.Verbose {
					return fmt.Sprint(fd), "indent"
				}
				return "capture", "capture"
			}
			return "", "discard"
		}
		outDest, outHow := route(c.Out, 1)
		errDest, errHow := route(c.Err, 2)
		indent := strings.Repeat("  ", depth) + "      "
		deliver := func(dest, how string, data []byte, st c10Stream) {
			switch how {
			case "file":
				if st.App == "" && i == 0 {
					content[dest] = ""
				}
				content[dest] += string(data)
			case "direct":
				std[dest[0]-'0'] += string(data)
			case "indent":
				std[dest[0]-'0'] += c14Model(indent, data)
			case "capture":
				if s.Exit != 0 {
					capt += string(data)
				}
			}
		}
		if outDest == errDest && outHow == errHow && outDest != "" {
			deliver(outDest, outHow, streams[0].Bytes(), c.Out)
		} else {
			shared = shared || (outDest == errDest && outDest != "")
			deliver(outDest, outHow, streams[1].Bytes(), c.Out)
			deliver(errDest, errHow, streams[2].Bytes(), c.Err)
		}
		if s.Exit != 0 {
			failed = &c.Scripts[i]
		}
	}
	if c.Verbose {
		var lines []string
		for _, l := range strings.SplitAfter(got["Fab's standard output"], "\n") {
			if !strings.Contains(l, "Running ") {
				lines = append(lines, l)
			}
		}
		got["Fab's standard output"] = strings.Join(lines, "")
	}
	want := map[string]string{"Fab's standard output": std[1], "Fab's standard error": std[2]}
	if shared {
		// In what order is a matter of chance.
		for _, m := range []map[string]string{got, want} {
			for k, v := range m {
				b := []byte(v)
				sort.Slice(b, func(i, j int) bool { return b[i] < b[j] })
				m[k] = string(b)
			}
		}
		e.Label("two routes to one of Fab's streams")
	}
	for _, f := range []string{outFile, errFile} {
		if f == "" {
			continue
		}
		data, err := os.ReadFile(f)
		got[f] = string(data)
		if err != nil && len(c.Scripts) > 0 {
			got[f] = err.Error()
		}
		want[f] = content[f]
	}
	if d := diffMaps(want, got); d != "" {
		e.Fatalf("output differs from what is wanted:\n%s\n%s", d, src)
	}
	// No other files.
	for f := range snapshot(top, false) {
		if p := filepath.Join(top, f); p == outFile || p == errFile {
			continue
		}
		b := filepath.Base(f)
		if b == "in" || b == "in put" || b == "sub" || b == "x" || b == "elsewhere" || strings.HasSuffix(b, "-dir") || strings.HasPrefix(filepath.Join(top, c.Dir)+"/", filepath.Join(top, f)+"/") {
			continue
		}
		e.Fatalf("there is an unexpected file %s\n%s", f, src)
	}

	if failed == nil {
		if gotErr != nil {
			e.Fatalf("unexpected error %v\n%s", gotErr, src)
		}
		return
	}
	e.Label("a command fails")
	var x *exec.ExitError
	if !errors.As(gotErr, &x) {
		e.Fatalf("got error %v although a command failed\n%s", gotErr, src)
	}
	if failed.Exit < 1000 && x.ExitCode() != failed.Exit {
		e.Fatalf("exit status is %d, want %d", x.ExitCode(), failed.Exit)
	}
	var ce fab.CommandErr
	if errors.As(gotErr, &ce) {
		if string(ce.Output) != capt {
			e.Fatalf("the output with the error is %.200q, want %.200q\n%s", ce.Output, capt, src)
		}
	} else if capt != "" {
		e.Fatalf("the error is without the captured output: %v\n%s", gotErr, src)
	}
}

func file2(fd int, out, err string) string {
	if fd == 1 {
		return out
	}
	return err
}

func init() {
	pbt.Register(&pbt.Prop{
		ID: "C10",
		Subs: []*pbt.Sub{
			pbt.NewSub("yaml command", "!Command mappings with Shell (string, list) or Cmd and Args, Env, Dir, Stdin, Stdout and Stderr of every kind, in YAML of varying style in different directories, running a program that reports what it was given and follows a script, compared with a reference interpretation; or with one field mistyped. Non-trivial: a program that writes output is run, or a field is mistyped", 8000, 300000, c10Gen, c10Run),
		},
		Assumptions: []string{"names of output files do not begin with >", "Shell and Cmd are not both given", "PWD and OLDPWD are not compared"},
	})
}
