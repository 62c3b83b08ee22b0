package props

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	"pgregory.net/rapid"

	"verif/pbt"
)

// C24: changes of the code that are easy to overlook.

// c24Part is some text that is printed when the package is initialized, after a number of lines of comment.
type c24Part struct {
	Pad  int
	Text string
}

type c24Step struct {
	Op       string // set, equal, swap, rename, del
	File     string
	Other    string
	Parts    []c24Part
	SameTime bool // the files keep their modification times
}

type c24ContentsCase struct {
	Files map[string][]c24Part
	Steps []c24Step
}

var c24ContentsNames = []string{"a.go", "b.go", "c.go", "d.go"}

func c24DrawPart(t *rapid.T) c24Part {
	// Most of these have the same length.
	p := c24Part{Text: pick(t, "text", "I 1 2", "I 2 1", "I  12", "I 12 ", "I //1", "I1 2 ", "I\t1\t2", "I /*1", "I 1 2 3", "i 1 2")}
	if chance(t, 25, "pad") {
		p.Pad = pick(t, "lines", 1, 50, 500, 2000, 6000)
	}
	return p
}

func c24ContentsGen(t *rapid.T) c24ContentsCase {
	c := c24ContentsCase{Files: map[string][]c24Part{}}
	parts := func() []c24Part {
		var r []c24Part
		for i := pick(t, "parts", 1, 1, 1, 2, 3); i > 0; i-- {
			r = append(r, c24DrawPart(t))
		}
		return r
	}
	present := map[string][]c24Part{}
	for _, n := range c24ContentsNames[:3] {
		if chance(t, 70, "file") {
			c.Files[n] = parts()
			present[n] = c.Files[n]
		}
	}
	for i := drawInt(t, 2, 4, "steps"); i > 0; i-- {
		n := c24ContentsNames[uniform(t, len(c24ContentsNames), "which")]
		names := sortedKeys(present)
		if len(names) > 0 {
			n = names[uniform(t, len(names), "present")]
		}
		s := c24Step{File: n, SameTime: chance(t, 50, "sameTime")}
		var others []string
		for _, o := range c24ContentsNames {
			if o != n {
				others = append(others, o)
			}
		}
		s.Other = others[uniform(t, len(others), "other")]
		switch x := drawInt(t, 0, 99, "op"); {
		case x < 35:
			// Change one part and leave the others.
			s.Op = "set"
			old := present[n]
			s.Parts = append([]c24Part{}, old...)
			if len(old) == 0 {
				s.Parts = parts()
				break
			}
			k := uniform(t, len(old), "part")
			pad := old[k].Pad
			s.Parts[k] = c24DrawPart(t)
			if chance(t, 80, "samePad") {
				s.Parts[k].Pad = pad
			}
		case x < 60:
			s.Op = "equal"
			s.Parts = parts()
			if chance(t, 35, "away") {
				s.Parts = nil
			}
		case x < 78:
			s.Op = "swap"
		case x < 92:
			s.Op = "rename"
		default:
			s.Op = "del"
		}
		c24Apply(present, s)
		c.Steps = append(c.Steps, s)
		if s.Op == "equal" && s.Parts != nil && chance(t, 50, "and back") {
			b := s
			b.Parts = nil
			if drawBool(t, "others") {
				b.Parts = parts()
			}
			c24Apply(present, b)
			c.Steps = append(c.Steps, b)
		}
	}
	return c
}

func c24Apply(files map[string][]c24Part, s c24Step) {
	put := func(n string, p []c24Part) {
		if p == nil {
			delete(files, n)
		} else {
			files[n] = p
		}
	}
	switch s.Op {
	case "set":
		put(s.File, s.Parts)
	case "equal":
		put(s.File, s.Parts)
		put(s.Other, s.Parts)
	case "swap":
		f, g := files[s.File], files[s.Other]
		put(s.File, g)
		put(s.Other, f)
	case "rename":
		f := files[s.File]
		put(s.File, nil)
		put(s.Other, f)
	case "del":
		put(s.File, nil)
	}
}

func c24ContentsRun(e *pbt.Env, c c24ContentsCase) {
	var (
		top   = filepath.Join(e.Dir, "top")
		cache = filepath.Join(e.Dir, "cache")
		files = map[string][]c24Part{}
		stamp = time.Now().Add(-time.Hour)
	)
	driverModule(e, top)
	e.WriteFile("top/_fab/t.go", "package rules\n\nimport \"github.com/bobg/fab\"\n\n// T does nothing.\nvar T = fab.All()\n")
	write := func(keep bool) {
		for _, n := range c24ContentsNames {
			name := filepath.Join(top, "_fab", n)
			parts, ok := files[n]
			if !ok {
				os.Remove(name)
				continue
			}
			var sb strings.Builder
			sb.WriteString("package rules\n\nimport \"fmt\"\n")
			for _, p := range parts {
				sb.WriteString("\n" + strings.Repeat("// A line of comment that only makes the file longer.\n", p.Pad))
				fmt.Fprintf(&sb, "\nfunc init() {\n\tfmt.Println(%q)\n}\n", p.Text)
			}
			if old, err := os.ReadFile(name); err == nil && string(old) == sb.String() {
				continue
			}
			e.Must(os.WriteFile(name, []byte(sb.String()), 0o644))
			if keep {
				e.Must(os.Chtimes(name, stamp, stamp))
			}
		}
	}
	// The files of a package are initialized in the order of their names.
	model := func() []string {
		var r []string
		for _, n := range sortedKeys(files) {
			for _, p := range files[n] {
				r = append(r, p.Text)
			}
		}
		return r
	}
	var (
		last    []string
		changed int
		trace   []string
	)
	for k := -1; k < len(c.Steps); k++ {
		keep := true
		if k < 0 {
			for n, p := range c.Files {
				files[n] = p
			}
			trace = append(trace, fmt.Sprintf("%v", files))
		} else {
			trace = append(trace, fmt.Sprintf("%+v", c.Steps[k]))
			c24Apply(files, c.Steps[k])
			keep = c.Steps[k].SameTime
			e.Label(c.Steps[k].Op)
		}
		write(keep)
		want := model()
		out, errOut, code := runFab(e, pbt.FabBin(), top, "", "-fab", cache, "T")
		var got []string
		for _, l := range strings.Split(strings.TrimSuffix(out, "\n"), "\n") {
			if l != "" {
				got = append(got, l)
			}
		}
		if code != 0 || !equalStrings(got, want) {
			e.Fatalf("%s\nfab T printed %q (errors %q, exit status %d), but the present code prints %q", strings.Join(trace, "\n"), got, errOut, code, want)
		}
		if k >= 0 && !equalStrings(want, last) {
			changed++
		}
		last = want
	}
	if changed > 0 {
		e.NonTrivial()
	}
}
