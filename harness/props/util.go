// Package props holds the checks, one file per property.
package props

import (
	"context"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"unicode"

	"github.com/bobg/fab"
	"gopkg.in/yaml.v3"
	"pgregory.net/rapid"

	"verif/pbt"
)

// uniform draws one of 0..n-1, all equally likely, shrinking towards 0.
// (The integer generators of rapid favour small numbers.)
func uniform(t *rapid.T, n int, label string) int {
	if n <= 1 {
		return 0
	}
	g, ok := uniformGens[n]
	if !ok {
		var tables []*unicode.RangeTable
		for i := 0; i < n; i++ {
			tables = append(tables, &unicode.RangeTable{R16: []unicode.Range16{{Lo: uint16(i), Hi: uint16(i), Stride: 1}}})
		}
		g = rapid.RuneFrom(nil, tables...)
		uniformGens[n] = g
	}
	return int(g.Draw(t, label))
}

var uniformGens = map[int]*rapid.Generator[rune]{}

// drawInt draws an integer from lo to hi, inclusive.
func drawInt(t *rapid.T, lo, hi int, label string) int {
	if hi-lo < 256 {
		return lo + uniform(t, hi-lo+1, label)
	}
	return rapid.IntRange(lo, hi).Draw(t, label)
}

func drawBool(t *rapid.T, label string) bool { return rapid.Bool().Draw(t, label) }

// chance is true n times in 100, and shrinks to false.
func chance(t *rapid.T, n int, label string) bool {
	return uniform(t, 100, label) >= 100-n
}

func pick[T any](t *rapid.T, label string, xs ...T) T {
	return xs[uniform(t, len(xs), label)]
}

// testErr is an error with an identity.
type testErr struct{ id int }

// Error gives the same text for many different errors.
func (e *testErr) Error() string {
	if e.id%4 == 3 {
		return fmt.Sprintf("failure of target %d", e.id)
	}
	return "failure"
}

// capture redirects *f to a file until the returned function is called, which gives the content.
func capture(e *pbt.Env, f **os.File, name string) func() string {
	old := *f
	file := filepath.Join(e.Dir, name)
	w, err := os.Create(file)
	e.Must(err)
	*f = w
	done := false
	stop := func() string {
		if !done {
			done = true
			*f = old
			w.Close()
		}
		data, err := os.ReadFile(file)
		e.Must(err)
		return string(data)
	}
	e.Cleanup(func() {
		if !done {
			*f = old
			w.Close()
		}
	})
	return stop
}

// logT is a concurrency-safe list of events.
type logT struct {
	mu     sync.Mutex
	events []string
}

func (l *logT) add(format string, args ...any) {
	l.mu.Lock()
	l.events = append(l.events, fmt.Sprintf(format, args...))
	l.mu.Unlock()
}

func (l *logT) take() []string {
	l.mu.Lock()
	defer l.mu.Unlock()
	r := l.events
	l.events = nil
	return r
}

// memDB is a HashDB in memory.
type memDB struct {
	mu sync.Mutex
	m  map[string]bool
}

func newMemDB() *memDB { return &memDB{m: map[string]bool{}} }

func (d *memDB) Has(_ context.Context, h []byte) (bool, error) {
	d.mu.Lock()
	defer d.mu.Unlock()
	return d.m[string(h)], nil
}

func (d *memDB) Add(_ context.Context, h []byte) error {
	d.mu.Lock()
	defer d.mu.Unlock()
	d.m[string(h)] = true
	return nil
}

func (d *memDB) rows() []string {
	d.mu.Lock()
	defer d.mu.Unlock()
	var r []string
	for k := range d.m {
		r = append(r, fmt.Sprintf("%x", k))
	}
	sort.Strings(r)
	return r
}

var _ fab.HashDB = &memDB{}

// snapshot describes every file below dir.
func snapshot(dir string, meta bool, skip ...string) map[string]string {
	r := map[string]string{}
	filepath.Walk(dir, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			r[p] = "error " + err.Error()
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		for _, s := range skip {
			if rel == s {
				if info.IsDir() {
					return filepath.SkipDir
				}
				return nil
			}
		}
		s := ""
		switch {
		case info.IsDir():
			s = "dir"
		case info.Mode()&os.ModeSymlink != 0:
			l, _ := os.Readlink(p)
			s = "link " + l
		default:
			data, err := os.ReadFile(p)
			s = "file " + string(data)
			if err != nil {
				s = "unreadable"
			}
		}
		if meta {
			s += fmt.Sprintf(" [%v %d", info.Mode(), info.Size())
			if !info.IsDir() || rel != "." {
				s += fmt.Sprintf(" %d", info.ModTime().UnixNano())
			}
			s += "]"
		}
		r[rel] = s
		return nil
	})
	return r
}

// diffMaps describes how two maps differ ("" if they do not).
func diffMaps(a, b map[string]string) string {
	var out []string
	for k, v := range a {
		if w, ok := b[k]; !ok {
			out = append(out, fmt.Sprintf("- %s: %.200q", k, v))
		} else if v != w {
			out = append(out, fmt.Sprintf("! %s: %.200q became %.200q", k, v, w))
		}
	}
	for k, w := range b {
		if _, ok := a[k]; !ok {
			out = append(out, fmt.Sprintf("+ %s: %.200q", k, w))
		}
	}
	sort.Strings(out)
	return strings.Join(out, "\n")
}

func sortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func equalStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

var _ = io.Discard

// diffSets tells which elements of want are not in got, and the reverse.
func diffSets(want, got []string) (missing, extra []string) {
	w, g := map[string]bool{}, map[string]bool{}
	for _, x := range want {
		w[x] = true
	}
	for _, x := range got {
		g[x] = true
		if !w[x] {
			extra = append(extra, x)
		}
	}
	for _, x := range want {
		if !g[x] {
			missing = append(missing, x)
		}
	}
	return missing, extra
}

// yamlListOf interprets a YAML node, in a file in dir, as a list of strings.
func yamlListOf(e *pbt.Env, con *fab.Controller, y *Y, dir string) ([]string, error) {
	var doc struct {
		X yaml.Node `yaml:"X"`
	}
	e.Must(yaml.Unmarshal([]byte(ymap("", "X", y).text()), &doc))
	return con.YAMLStringList(&doc.X, dir)
}
