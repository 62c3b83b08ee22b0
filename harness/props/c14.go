package props

import (
	"bytes"
	"context"
	"errors"
	"io"
	"os"
	"strings"

	"github.com/bobg/fab"
	"pgregory.net/rapid"

	"verif/pbt"
)

// C14: IndentingCopier and Indentf.

type c14Op struct {
	Op     string // enter, leave, new, write, indentf, badrun
	I      int    // copier
	S      string // prefix or format
	Arg    string
	Data   []byte
	Fail   bool // the target entered fails
	Conc   int  // number of other targets run at the same level
	Errors int  // the underlying writer fails after so many bytes (-1 = never)
}

type c14Case struct{ Ops []c14Op }

func c14Gen(t *rapid.T) c14Case {
	n := drawInt(t, 1, 40, "n")
	var (
		c       c14Case
		depth   int
		copiers int
	)
	bytesGen := rapid.OneOf(
		rapid.SliceOfN(rapid.SampledFrom([]byte("\r\n\r\nab ")), 0, 12),
		rapid.SliceOfN(rapid.Byte(), 0, 20),
		rapid.Custom(func(t *rapid.T) []byte {
			unit := rapid.SliceOfN(rapid.SampledFrom([]byte("x\r\ny")), 1, 5).Draw(t, "unit")
			return bytes.Repeat(unit, drawInt(t, 1, 3000, "reps"))
		}),
	)
	for i := 0; i < n; i++ {
		k := drawInt(t, 0, 99, "op")
		switch {
		case copiers == 0 || k >= 88:
			op := c14Op{Op: "new", S: pick(t, "prefix", "", "    ", "> ", "é\t"), Errors: -1}
			if chance(t, 10, "werr") {
				op.Errors = drawInt(t, 0, 30, "errAfter")
			}
			c.Ops = append(c.Ops, op)
			copiers++
		case k < 60:
			c.Ops = append(c.Ops, c14Op{Op: "write", I: drawInt(t, 0, copiers-1, "copier"), Data: bytesGen.Draw(t, "data")})
		case k < 70 && depth < 6:
			c.Ops = append(c.Ops, c14Op{Op: "enter", Fail: chance(t, 20, "fail"), Conc: drawInt(t, 0, 2, "conc")})
			depth++
		case k < 77 && depth > 0:
			c.Ops = append(c.Ops, c14Op{Op: "leave"})
			depth--
		case k < 79:
			c.Ops = append(c.Ops, c14Op{Op: "badrun"})
		default:
			s := rapid.StringMatching(`[a-z é\n]{0,6}`).Draw(t, "fmt")
			if drawBool(t, "hasarg") {
				s += "%s" + pick(t, "tail", "", "\n", "!", "\n\n")
			}
			c.Ops = append(c.Ops, c14Op{Op: "indentf", S: s, Arg: rapid.StringMatching(`[a-z%]{1,4}`).Draw(t, "arg")})
		}
	}
	return c
}

// c14Model is what a copier with the given indentation passes on after having been given the stream.
func c14Model(indent string, stream []byte) string {
	s := strings.ReplaceAll(string(stream), "\r\n", "\n")
	s = strings.TrimSuffix(s, "\r") // pending
	s = strings.ReplaceAll(s, "\r", "\n")
	lines := strings.SplitAfter(s, "\n")
	var b strings.Builder
	for _, l := range lines {
		if l != "" && l != "\n" {
			b.WriteString(indent)
		}
		b.WriteString(l)
	}
	return b.String()
}

type c14Sink struct {
	buf  bytes.Buffer
	left int // -1 = no limit
}

var errSink = errors.New("sink is full")

func (s *c14Sink) Write(p []byte) (int, error) {
	if s.left >= 0 {
		if len(p) > s.left {
			n := s.left
			s.buf.Write(p[:n])
			s.left = 0
			return n, errSink
		}
		s.left -= len(p)
	}
	return s.buf.Write(p)
}

func c14Run(e *pbt.Env, c c14Case) {
	type copier struct {
		w      io.Writer
		sink   *c14Sink
		indent string
		stream []byte
		failed bool
	}
	var (
		con     = fab.NewController(e.Dir)
		copiers []*copier
		depth   int
		pos     int
		want    strings.Builder
		stop    = capture(e, &os.Stdout, "stdout")
		splits  int
	)
	var interp func()
	interp = func() {
		for pos < len(c.Ops) {
			op := c.Ops[pos]
			pos++
			switch op.Op {
			case "new":
				s := &c14Sink{left: op.Errors}
				copiers = append(copiers, &copier{w: con.IndentingCopier(s, op.S), sink: s, indent: strings.Repeat("  ", depth) + op.S})
			case "write":
				cp := copiers[op.I]
				before := append([]byte(nil), op.Data...)
				n, err := cp.w.Write(op.Data)
				if !bytes.Equal(before, op.Data) {
					e.Errorf("Write changed its argument")
				}
				cp.stream = append(cp.stream, op.Data...)
				m := c14Model(cp.indent, cp.stream)
				got := cp.sink.buf.String()
				if cp.sink.left >= 0 && (len(m) > len(got) || cp.failed) {
					// The underlying writer cannot take it all.
					if err == nil && len(op.Data) > 0 && !cp.failed {
						e.Errorf("op %d: the underlying writer failed but Write returned no error", pos-1)
					}
					cp.failed = true
					if !strings.HasPrefix(m, got) {
						e.Errorf("op %d: after an error, the underlying writer has %q, which is not the beginning of %q", pos-1, got, m)
					}
					continue
				}
				if err != nil {
					e.Errorf("op %d: Write failed: %s", pos-1, err)
				}
				if n != len(op.Data) {
					e.Errorf("op %d: Write returned %d for %d bytes", pos-1, n, len(op.Data))
				}
				if got != m {
					e.Errorf("op %d: indent %q, stream %.300q: got %.300q, want %.300q", pos-1, cp.indent, cp.stream, got, m)
				}
				if len(op.Data) > 0 {
					splits++
				}
			case "enter":
				start := pos
				depth++
				targets := []fab.Target{fab.F(func(context.Context, *fab.Controller) error {
					interp()
					if op.Fail {
						return &testErr{start}
					}
					return nil
				})}
				for i := 0; i < op.Conc; i++ {
					targets = append(targets, fab.F(func(context.Context, *fab.Controller) error { return nil }))
				}
				err := con.Run(context.Background(), targets...)
				if (err != nil) != op.Fail {
					e.Errorf("op %d: Run returned %v", start-1, err)
				}
				depth--
			case "leave":
				return
			case "badrun":
				if err := con.Run(context.Background(), c14Bad{}); err == nil {
					e.Errorf("Run accepted a target that is not a pointer")
				}
			case "indentf":
				var text string
				if strings.Contains(op.S, "%s") {
					con.Indentf(op.S, op.Arg)
					text = strings.Replace(op.S, "%s", op.Arg, 1)
				} else {
					con.Indentf(op.S)
					text = op.S
				}
				if !strings.HasSuffix(text, "\n") {
					text += "\n"
				}
				want.WriteString(strings.Repeat("  ", depth) + text)
			}
		}
	}
	for pos < len(c.Ops) {
		interp() // a "leave" at the end of a level that was never entered cannot happen
	}
	if got := stop(); got != want.String() {
		e.Fatalf("Indentf wrote %q, want %q", got, want.String())
	}
	for _, cp := range copiers {
		if len(cp.stream) > 0 && bytes.ContainsAny(cp.stream, "\r\n") {
			e.NonTrivial()
		}
		e.LabelIf(bytes.HasSuffix(cp.stream, []byte("\r")), "stream ends in CR")
		e.LabelIf(bytes.Contains(cp.stream, []byte("\r\n")), "CRLF")
		e.LabelIf(bytes.Contains(cp.stream, []byte("\r\r")), "CRCR")
		e.LabelIf(len(cp.stream) > 4096, "stream longer than a buffer")
		e.LabelIf(strings.HasPrefix(cp.indent, "    "), "depth or prefix >= 4")
		e.LabelIf(cp.failed, "underlying writer failed")
	}
	e.LabelIf(splits > 1, "several writes")
	e.LabelIf(want.Len() > 0, "Indentf")
}

type c14Bad struct{}

func (c14Bad) Run(context.Context, *fab.Controller) error { return nil }
func (c14Bad) Desc() string                               { return "bad" }

// c14Split: the same stream, split in two different ways.
func init() {
	pbt.Register(&pbt.Prop{
		ID: "C14",
		Subs: []*pbt.Sub{
			pbt.NewSub("ops", "sequences of entering and leaving nested Runs (some failing, some with siblings), creating copiers (some over failing writers), chunked writes of random and CR/LF-rich bytes, and Indentf calls, compared after every write with a model that sees the whole stream; non-trivial: some copier was given a CR or LF",
				16000, 1200000, c14Gen, c14Run),
		},
		Assumptions: []string{"nesting is observed with one Run in flight per level"},
	})
}
