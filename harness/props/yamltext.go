package props

import (
	"fmt"
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

// A small YAML writer, independent of the library that reads it.

// Y is a YAML node.
type Y struct {
	Tag   string   `json:",omitempty"` // without the !
	S     string   `json:",omitempty"`
	Seq   []*Y     `json:",omitempty"`
	Keys  []string `json:",omitempty"`
	Vals  []*Y     `json:",omitempty"`
	Kind  string   // str, seq, map, raw
	Style int      `json:",omitempty"` // scalars: 0 plain if possible, 1 single, 2 double; collections: 0 block, 1 flow
}

func ystr(s string) *Y             { return &Y{Kind: "str", S: s} }
func yraw(s string) *Y             { return &Y{Kind: "raw", S: s} }
func yseq(tag string, xs ...*Y) *Y { return &Y{Kind: "seq", Tag: tag, Seq: xs} }
func ymap(tag string, kv ...any) *Y {
	y := &Y{Kind: "map", Tag: tag}
	for i := 0; i < len(kv); i += 2 {
		y.add(kv[i].(string), kv[i+1].(*Y))
	}
	return y
}

func (y *Y) add(k string, v *Y) *Y {
	y.Keys = append(y.Keys, k)
	y.Vals = append(y.Vals, v)
	return y
}

// restyle chooses styles and the order of the keys at random.
func (y *Y) restyle(t *rapid.T, keepOrder bool) *Y {
	switch y.Kind {
	case "str":
		y.Style = drawInt(t, 0, 2, "style")
	case "seq":
		y.Style = drawInt(t, 0, 3, "style") / 3
		for _, x := range y.Seq {
			x.restyle(t, false)
		}
	case "map":
		y.Style = drawInt(t, 0, 3, "style") / 3
		if !keepOrder && len(y.Keys) > 1 {
			idx := make([]int, len(y.Keys))
			for i := range idx {
				idx[i] = i
			}
			idx = rapid.Permutation(idx).Draw(t, "order")
			keys, vals := y.Keys, y.Vals
			y.Keys, y.Vals = nil, nil
			for _, i := range idx {
				y.add(keys[i], vals[i])
			}
		}
		for _, x := range y.Vals {
			x.restyle(t, false)
		}
	}
	return y
}

func plainOK(s string, flow bool) bool {
	if s == "" || s != strings.TrimSpace(s) {
		return false
	}
	c := s[0]
	if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '/' || c == '.' || c == '_' || c == '$') {
		return false
	}
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c < 0x20 || c >= 0x7f {
			return false
		}
		if strings.IndexByte("#:,[]{}&*!|>'\"%@`?", c) >= 0 {
			return false
		}
	}
	if s == "null" || s == "Null" || s == "NULL" || s == "~" || s == "..." || s == "<<" || s == "=" {
		return false
	}
	return true
}

func yquote(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, r := range s {
		switch {
		case r == '"' || r == '\\':
			b.WriteByte('\\')
			b.WriteRune(r)
		case r == '\n':
			b.WriteString(`\n`)
		case r == '\t':
			b.WriteString(`\t`)
		case r < 0x20 || r == 0x7f || r == 0x85 || r == 0xa0 || r == 0xfeff || r == 0x2028 || r == 0x2029 || r == 0xfffe || r == 0xffff:
			fmt.Fprintf(&b, `\u%04x`, r)
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func (y *Y) scalar(flow bool) string {
	if y.Kind == "raw" {
		return y.S
	}
	switch {
	case y.Style == 0 && plainOK(y.S, flow):
		return y.S
	case y.Style <= 1 && !strings.ContainsAny(y.S, "\n\r\t\x00\x01\u0085\u2028\u2029\ufeff\x7f") && strconv.Quote(y.S) != "" && printable(y.S):
		return "'" + strings.ReplaceAll(y.S, "'", "''") + "'"
	default:
		return yquote(y.S)
	}
}

func printable(s string) bool {
	for _, r := range s {
		if r < 0x20 || (r >= 0x7f && r < 0xa1) || r == 0xfffe || r == 0xffff {
			return false
		}
	}
	return true
}

func (y *Y) tag() string {
	if y.Tag == "" {
		return ""
	}
	return "!" + y.Tag
}

func joinSp(parts ...string) string {
	var out []string
	for _, p := range parts {
		if p != "" {
			out = append(out, p)
		}
	}
	return strings.Join(out, " ")
}

func (y *Y) flow() string {
	switch y.Kind {
	case "seq":
		var xs []string
		for _, x := range y.Seq {
			xs = append(xs, x.flow())
		}
		return joinSp(y.tag(), "["+strings.Join(xs, ", ")+"]")
	case "map":
		var xs []string
		for i, k := range y.Keys {
			xs = append(xs, yname(k)+": "+y.Vals[i].flow())
		}
		return joinSp(y.tag(), "{"+strings.Join(xs, ", ")+"}")
	default:
		return joinSp(y.tag(), y.scalar(true))
	}
}

func yname(k string) string {
	if plainOK(k, true) {
		return k
	}
	return yquote(k)
}

// block writes the node after "key:" or "-"; the text begins right there.
func (y *Y) block(b *strings.Builder, indent int) {
	pad := strings.Repeat(" ", indent)
	switch {
	case y.Kind == "seq" && y.Style == 0 && len(y.Seq) > 0:
		if y.Tag != "" {
			b.WriteString(" " + y.tag())
		}
		b.WriteString("\n")
		for _, x := range y.Seq {
			b.WriteString(pad + "-")
			x.block(b, indent+2)
		}
	case y.Kind == "map" && y.Style == 0 && len(y.Keys) > 0:
		if y.Tag != "" {
			b.WriteString(" " + y.tag())
		}
		b.WriteString("\n")
		for i, k := range y.Keys {
			b.WriteString(pad + yname(k) + ":")
			y.Vals[i].block(b, indent+2)
		}
	default:
		b.WriteString(" " + y.flow() + "\n")
	}
}

// text writes a document.
func (y *Y) text() string {
	var b strings.Builder
	if y.Kind == "map" && y.Style == 0 && len(y.Keys) > 0 {
		for i, k := range y.Keys {
			b.WriteString(yname(k) + ":")
			y.Vals[i].block(&b, 2)
		}
		return b.String()
	}
	return y.flow() + "\n"
}
