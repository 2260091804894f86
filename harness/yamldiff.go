package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"reflect"
	"regexp"
	"runtime/debug"
	"sort"
	"strings"
	"time"
	"unicode/utf16"
	"unicode/utf8"

	bundled "github.com/totegamma/yisp/internal/yaml"
	upstream "gopkg.in/yaml.v3"
)

func init() {
	register(&Prop{
		ID: "C14", Quick: 300000, Thorough: 2500000, Case: c14,
		Rule: "distinct trees (kinds, styles, tags, comments present, positions of aliases) or rejections for which the bundled reader and gopkg.in/yaml.v3 v3.0.1 were compared on the same bytes",
	})
	register(&Prop{
		ID: "C15", Quick: 300000, Thorough: 2500000, Case: c15,
		Rule: "distinct outputs (layout with words blanked out) for which the bundled writer and gopkg.in/yaml.v3 v3.0.1 were compared on the same tree or value",
	})
}

// ---- converting nodes

func toUp(n *bundled.Node, seen map[*bundled.Node]*upstream.Node) *upstream.Node {
	if n == nil {
		return nil
	}
	if u, ok := seen[n]; ok {
		return u
	}
	u := &upstream.Node{Kind: upstream.Kind(n.Kind), Style: upstream.Style(n.Style), Tag: n.Tag, Value: n.Value, Anchor: n.Anchor,
		HeadComment: n.HeadComment, LineComment: n.LineComment, FootComment: n.FootComment, Line: n.Line, Column: n.Column}
	seen[n] = u
	u.Alias = toUp(n.Alias, seen)
	for _, x := range n.Content {
		u.Content = append(u.Content, toUp(x, seen))
	}
	return u
}

func toBundled(n *upstream.Node, seen map[*upstream.Node]*bundled.Node) *bundled.Node {
	if n == nil {
		return nil
	}
	if u, ok := seen[n]; ok {
		return u
	}
	u := &bundled.Node{Kind: bundled.Kind(n.Kind), Style: bundled.Style(n.Style), Tag: n.Tag, Value: n.Value, Anchor: n.Anchor,
		HeadComment: n.HeadComment, LineComment: n.LineComment, FootComment: n.FootComment, Line: n.Line, Column: n.Column}
	seen[n] = u
	u.Alias = toBundled(n.Alias, seen)
	for _, x := range n.Content {
		u.Content = append(u.Content, toBundled(x, seen))
	}
	return u
}

// diffNodes names the first difference of two trees.
func diffNodes(a, b *upstream.Node, path string, ids map[*upstream.Node]*upstream.Node) string {
	if (a == nil) != (b == nil) {
		return path + ": one is missing"
	}
	if a == nil {
		return ""
	}
	if x, ok := ids[a]; ok {
		if x != b {
			return path + ": refers to another node"
		}
		return ""
	}
	ids[a] = b
	x, y := *a, *b
	x.Content, y.Content, x.Alias, y.Alias = nil, nil, nil, nil
	if !reflect.DeepEqual(x, y) {
		return fmt.Sprintf("%s: %+v against %+v", path, x, y)
	}
	if len(a.Content) != len(b.Content) {
		return fmt.Sprintf("%s: %d against %d children", path, len(a.Content), len(b.Content))
	}
	for i := range a.Content {
		if d := diffNodes(a.Content[i], b.Content[i], fmt.Sprintf("%s/%d", path, i), ids); d != "" {
			return d
		}
	}
	return diffNodes(a.Alias, b.Alias, path+"/alias", ids)
}

func treeKey(b *strings.Builder, n *upstream.Node) {
	fmt.Fprintf(b, "(%d %d %s", n.Kind, n.Style, n.Tag)
	for i, s := range []string{n.Anchor, n.HeadComment, n.LineComment, n.FootComment} {
		if s != "" {
			fmt.Fprintf(b, " %d", i)
			if strings.Contains(s, "\n") {
				b.WriteString("+")
			}
		}
	}
	for _, x := range n.Content {
		treeKey(b, x)
	}
	b.WriteString(")")
}

// ---- running both

type streamOut struct {
	docs  []*upstream.Node
	err   error
	panic any
}

const maxDocs = 200

func readUpstream(b []byte) (o streamOut) {
	defer func() { o.panic = recover() }()
	d := upstream.NewDecoder(bytes.NewReader(b))
	for len(o.docs) < maxDocs {
		var n upstream.Node
		if err := d.Decode(&n); err != nil {
			if err != io.EOF {
				o.err = err
			}
			return
		}
		o.docs = append(o.docs, &n)
	}
	return
}

func readBundled(b []byte) (o streamOut) {
	defer func() {
		if r := recover(); r != nil {
			o.panic = fmt.Sprintf("%v\n%s", r, debug.Stack())
		}
	}()
	d := bundled.NewDecoder(bytes.NewReader(b))
	for len(o.docs) < maxDocs {
		var n bundled.Node
		if err := d.Decode(&n); err != nil {
			if err != io.EOF {
				o.err = err
			}
			return
		}
		o.docs = append(o.docs, toUp(&n, map[*bundled.Node]*upstream.Node{}))
	}
	return
}

// dump shows a decoded value, not-a-number and pointers included.
func dump(b *strings.Builder, v reflect.Value, depth int) {
	if depth > 60 {
		b.WriteString("...")
		return
	}
	if !v.IsValid() {
		b.WriteString("nil")
		return
	}
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteString("&")
		dump(b, v.Elem(), depth+1)
	case reflect.Map:
		if v.IsNil() {
			fmt.Fprintf(b, "%s(nil)", v.Type())
			return
		}
		var ks []string
		it := v.MapRange()
		for it.Next() {
			var x strings.Builder
			dump(&x, it.Key(), depth+1)
			x.WriteString(": ")
			dump(&x, it.Value(), depth+1)
			ks = append(ks, x.String())
		}
		sort.Strings(ks)
		fmt.Fprintf(b, "%s{%s}", v.Type(), strings.Join(ks, ", "))
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.IsNil() {
			fmt.Fprintf(b, "%s(nil)", v.Type())
			return
		}
		fmt.Fprintf(b, "%s[", v.Type())
		for i := 0; i < v.Len(); i++ {
			dump(b, v.Index(i), depth+1)
			b.WriteString(", ")
		}
		b.WriteString("]")
	case reflect.Struct:
		if t, ok := v.Interface().(time.Time); ok {
			fmt.Fprintf(b, "%s", t.Format(time.RFC3339Nano))
			return
		}
		b.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() && v.Type().Field(i).Name != "Alias" {
				fmt.Fprintf(b, "%s: ", v.Type().Field(i).Name)
				dump(b, v.Field(i), depth+1)
				b.WriteString(", ")
			}
		}
		b.WriteString("}")
	case reflect.Float64, reflect.Float32:
		fmt.Fprintf(b, "%s(%x %v)", v.Type(), math.Float64bits(v.Float()), v.Float())
	default:
		fmt.Fprintf(b, "%s(%#v)", v.Type(), v.Interface())
	}
}

func dumpOf(p any) string {
	var b strings.Builder
	dump(&b, reflect.ValueOf(p).Elem(), 0)
	return b.String()
}

// ---- targets to decode into

type textual struct{ s string }

func (t *textual) UnmarshalText(b []byte) error {
	if strings.Contains(string(b), "bad") {
		return errors.New("bad text")
	}
	t.s = "<" + string(b) + ">"
	return nil
}
func (t textual) MarshalText() ([]byte, error) {
	if strings.Contains(t.s, "bad") {
		return nil, errors.New("bad text")
	}
	return []byte(t.s), nil
}

type obsolete struct{ V any }

func (o *obsolete) UnmarshalYAML(f func(any) error) error {
	var m map[string]int
	if f(&m) == nil {
		o.V = m
		return nil
	}
	var s string
	if err := f(&s); err != nil {
		return err
	}
	o.V = s
	return nil
}

type marshals struct{ V any }

func (m marshals) MarshalYAML() (any, error) {
	if m.V == nil {
		return nil, errors.New("nothing to marshal")
	}
	return []any{m.V, "x"}, nil
}

type zeroer struct{ N int }

func (z zeroer) IsZero() bool { return z.N == 7 }

type inner struct {
	C string
	D *int `yaml:"d,omitempty"`
}

type target struct {
	A       int
	B       string             `yaml:"b,omitempty"`
	V       any                `yaml:"v"`
	F       float64            `yaml:"foo"`
	G       uint8              `yaml:"bar,omitempty"`
	H       bool               `yaml:"hello,flow"`
	T       time.Time          `yaml:"t,omitempty"`
	D       time.Duration      `yaml:"dur,omitempty"`
	L       []string           `yaml:"l,flow"`
	M       map[string]float32 `yaml:"m,omitempty"`
	P       *inner             `yaml:"p"`
	Q       inner              `yaml:"q,omitempty"`
	X       textual            `yaml:"x"`
	O       obsolete           `yaml:"o,omitempty"`
	Z       zeroer             `yaml:"z,omitempty"`
	By      []byte             `yaml:"by,omitempty"`
	Arr     [2]int             `yaml:"arr,omitempty"`
	Skip    int                `yaml:"-"`
	inner   `yaml:",inline"`
	private int
}

type targetMap struct {
	A    int
	Rest map[string]any `yaml:",inline"`
}

var targets = []func() any{
	func() any { return new(any) },
	func() any { return new(any) },
	func() any { return new(any) },
	func() any { return new(map[string]any) },
	func() any { return new(map[any]any) },
	func() any { return new([]any) },
	func() any { return new(map[string]string) },
	func() any { return new(map[string]int) },
	func() any { return new(map[string]uint16) },
	func() any { return new(map[string]int64) },
	func() any { return new(map[string]float64) },
	func() any { return new(map[string]bool) },
	func() any { return new(map[string][]string) },
	func() any { return new(map[string]time.Time) },
	func() any { return new(map[string]time.Duration) },
	func() any { return new(map[string]*string) },
	func() any { return new(map[string][]byte) },
	func() any { return new(map[string]map[string]any) },
	func() any { return new(map[string]textual) },
	func() any { return new(map[string]obsolete) },
	func() any { return new(map[int]string) },
	func() any { return new(map[bool]string) },
	func() any { return new(map[float64]any) },
	func() any { return new([]string) },
	func() any { return new([]int) },
	func() any { return new([2]int) },
	func() any { return new(string) },
	func() any { return new(int8) },
	func() any { return new(float32) },
	func() any { return new(target) },
	func() any { return new(target) },
	func() any { return new(targetMap) },
}

func decodeUp(b []byte, p any, strict bool) (err error, panicked any) {
	defer func() { panicked = recover() }()
	d := upstream.NewDecoder(bytes.NewReader(b))
	d.KnownFields(strict)
	return d.Decode(p), nil
}

func decodeBundled(b []byte, p any, strict bool) (err error, panicked any) {
	defer func() {
		if r := recover(); r != nil {
			panicked = fmt.Sprintf("%v\n%s", r, debug.Stack())
		}
	}()
	d := bundled.NewDecoder(bytes.NewReader(b))
	d.KnownFields(strict)
	return d.Decode(p), nil
}

// ---- making text

var yamlBits = []string{
	"\n", "\n", "\n", "\n  ", "\n    ", "\n- ", "\n  - ", " ", "  ", "\t", "\r\n", "\r", "- ", "-", "--- ", "---\n", "...\n", "? ", ": ", ":", ",", ", ", "[", "]", "{", "}",
	"#", " # c", "\n# c\n", "\n\n# c\n\n", "&a ", "*a", "*a ", "&b ", "*b", "!t ", "!!str ", "!!int ", "!!map ", "!!seq ", "!!binary ", "!!float ", "!!null ", "!!merge ", "!<tag:x> ", "!", "!!", "!e!x ", "!yisp ", "!quote ",
	"|\n", "|-\n", "|+\n", ">\n", ">-\n", ">+\n", "|2\n", "|1-\n", ">9\n", "|0\n", "| # c\n", "%YAML 1.1\n", "%YAML 1.2\n---\n", "%TAG !e! tag:e,2000:\n---\n", "%FOO\n",
	"'", "\"", "'a'", "\"a\"", "''", "\\n", "\\x41", "\\u00e9", "\\U0001F600", "\\\n", "\\", "\\z", "a", "b", "key", "value", "foo bar", "1", "-1", "0x1F", "0o7", "07", "0b1", "1_0", "1.5", ".5", "1e3", ".inf", "-.inf", ".nan", "~", "null", "true", "no", "<<", "<<: *a", "2001-01-01", "2001-12-14t21:59:43.10-05:00", "12:30:45",
	"é", "日本", "😀", "\u0085", "\u2028", "\u2029", "\ufeff", "\xff", "\x00", "\x01", "\u00a0", "@", "`", "=", "a: b", "a: 1\nb: 2\n", "- x\n- y\n", "{a: b}", "[a, b]",
}

func mutate(c *C, s string) string {
	b := []byte(s)
	for n := 1 + c.Intn(4); n > 0; n-- {
		at := func() int { return c.Intn(len(b) + 1) }
		switch c.Intn(11) {
		case 0, 1, 2: // insert
			i := at()
			b = append(b[:i:i], append([]byte(pick(c, yamlBits)), b[i:]...)...)
		case 3: // delete
			i := at()
			j := min(len(b), i+1+c.Intn(4))
			b = append(b[:i:i], b[j:]...)
		case 4: // replace
			if i := at(); i < len(b) {
				b = append(b[:i:i], append([]byte(pick(c, yamlBits)), b[i+1:]...)...)
			}
		case 5: // duplicate or drop a line
			ls := strings.SplitAfter(string(b), "\n")
			i := c.Intn(len(ls))
			if c.Chance(0.5) {
				ls = append(ls[:i:i], append([]string{ls[i]}, ls[i:]...)...)
			} else {
				ls = append(ls[:i:i], ls[i+1:]...)
			}
			b = []byte(strings.Join(ls, ""))
		case 6: // change the indentation of a line
			ls := strings.SplitAfter(string(b), "\n")
			i := c.Intn(len(ls))
			if c.Chance(0.5) {
				ls[i] = pick(c, []string{" ", "  ", "\t", "    "}) + ls[i]
			} else {
				ls[i] = strings.TrimPrefix(ls[i], " ")
			}
			b = []byte(strings.Join(ls, ""))
		case 7: // cut
			if c.Chance(0.5) {
				b = b[:at()]
			}
		case 8: // move a piece
			i, j := at(), at()
			if i > j {
				i, j = j, i
			}
			j = min(j, i+30)
			k := at()
			b = append(b[:k:k], append(append([]byte{}, b[i:j]...), b[k:]...)...)
		case 9: // swap two lines
			ls := strings.SplitAfter(string(b), "\n")
			i, j := c.Intn(len(ls)), c.Intn(len(ls))
			ls[i], ls[j] = ls[j], ls[i]
			b = []byte(strings.Join(ls, ""))
		case 10:
			if c.Chance(0.3) {
				b = []byte(strings.ReplaceAll(string(b), "\n", pick(c, []string{"\r\n", "\r", "\n\n", "\u2028"})))
			}
		}
	}
	return string(b)
}

// emittedYAML writes a random stream with everything the emitter can do.
func emittedYAML(c *C) string {
	e := newEmitter(c.R)
	e.comments = c.Chance(0.6)
	e.explicit = c.Chance(0.4)
	if c.Chance(0.3) {
		e.flowP = 0.6
	}
	var docs []*Y
	for n := 1 + c.Intn(3); n > 0; n-- {
		y := ydata(genVal(c, genOpt{depth: 1 + c.Intn(4), nonstr: true, nan: true}))
		if c.Chance(0.4) {
			var names, maps []string
			sprinkleAnchors(c, y, &names, &maps)
		}
		docs = append(docs, y)
	}
	return emitDocs(e, docs)
}

// looseComments puts comments between lines, at any column.
func looseComments(c *C, s string) string {
	ls := strings.SplitAfter(s, "\n")
	var b strings.Builder
	n := 0
	p := 0.05 + 0.3*c.R.Float64()
	for _, l := range ls {
		for c.Chance(p) {
			n++
			b.WriteString(pick(c, []string{"", "\n", "\n\n", ""}))
			fmt.Fprintf(&b, "%s# rem %d\n", strings.Repeat(" ", pick(c, []int{0, 0, 2, 4, 6, 1, len(l) - len(strings.TrimLeft(l, " "))})), n)
			if c.Chance(0.3) {
				b.WriteString("\n")
			}
		}
		if c.Chance(p) && strings.HasSuffix(l, "\n") {
			n++
			l = fmt.Sprintf("%s # eol %d\n", strings.TrimSuffix(l, "\n"), n)
		}
		b.WriteString(l)
	}
	return b.String()
}

// scalarLines writes scalars of several lines, with blanks around the words,
// in all styles.
func scalarLines(c *C) string {
	var b strings.Builder
	blank := func() string { return pick(c, []string{"", "", "", "", " ", "  ", "\t", " \t", "\t ", "   "}) }
	words := func(style string) string {
		l := ""
		for n := 1 + c.Intn(3); n > 0; n-- {
			if l != "" {
				l += pick(c, []string{" ", " ", "  ", "\t", " \t"})
			}
			w := pick(c, []string{"one", "two", "three", "é", "日本", "a#b", "a:b", "-", "-x", "?", "x-", "1", "\u00a0"})
			switch style {
			case "'":
				w = pick(c, []string{w, w, "''", "it''s", "#", "a: b", "\\"})
			case "\"":
				w = pick(c, []string{w, w, "\\t", "\\n", "\\ ", "\\\"", "\\\\", "\\x41", "#", "a: b", "\\_", "\\\t"})
			case "|", ">":
				w = pick(c, []string{w, w, "#", "# c", "a: b", "- x", "'", "\"", "[", "---", "%"})
			}
			l += w
		}
		return l
	}
	for n := 1 + c.Intn(3); n > 0; n-- {
		ind := pick(c, []int{0, 0, 0, 2, 4})
		head := pick(c, []string{"- ", "k" + fmt.Sprint(n) + ": ", "k" + fmt.Sprint(n) + ":  ", "- a: ", "- - ", "--- ", "? "})
		if c.Chance(0.15) {
			b.WriteString(strings.Repeat(" ", ind))
		}
		b.WriteString(head)
		ind = max(ind, 1+c.Intn(4))
		style := pick(c, []string{"|", ">", ">", "'", "\"", ""})
		if style == "|" || style == ">" {
			b.WriteString(style + pick(c, []string{"", "", "", "-", "+", fmt.Sprint(ind), fmt.Sprintf("%d-", ind), fmt.Sprintf("+%d", ind)}))
			b.WriteString(pick(c, []string{"\n", "\n", "\n", " # c\n", " \n", "\t\n"}))
		} else {
			b.WriteString(style + blank() + words(style) + blank() + "\n")
		}
		for m := c.Intn(7); m > 0; m-- {
			if c.Chance(0.25) {
				b.WriteString(pick(c, []string{"\n", "\n", "\n", strings.Repeat(" ", ind) + "\n", strings.Repeat(" ", ind) + blank() + "\n", blank() + "\n"}))
				continue
			}
			b.WriteString(strings.Repeat(" ", ind))
			b.WriteString(blank() + words(style) + blank())
			if style == "\"" && c.Chance(0.15) {
				b.WriteString("\\")
			}
			b.WriteString(pick(c, []string{"\n", "\n", "\n", "\n", "\n", "\n", "\n", "\r\n", "\r", "\u0085", "\u2028", "\u2029"}))
		}
		if style == "'" || style == "\"" {
			b.WriteString(strings.Repeat(" ", ind) + style + pick(c, []string{"\n", " # c\n"}))
		}
	}
	return b.String()
}

func yamlText(c *C) (text, how string) {
	base := func() string {
		switch c.Intn(6) {
		case 0, 1:
			return emittedYAML(c)
		case 2:
			return progText(c)
		}
		return pick(c, yamlCorpus)
	}
	switch c.Intn(11) {
	case 10:
		return scalarLines(c), "lines"
	case 0:
		return emittedYAML(c), "emitted"
	case 1:
		return looseComments(c, base()), "commented"
	case 2: // pieces at random
		var b strings.Builder
		for n := 1 + c.Intn(14); n > 0; n-- {
			b.WriteString(pick(c, yamlBits))
		}
		return b.String(), "pieces"
	case 3: // nested texts
		var b strings.Builder
		for i := 1 + c.Intn(4); i > 0; i-- {
			ind := pick(c, []string{"", "  ", "    "})
			head := pick(c, []string{"- ", "k" + fmt.Sprint(i) + ":", "- -", "? ", "", "k: &a" + fmt.Sprint(i), "- !t", "---"})
			b.WriteString(head + "\n")
			for _, l := range strings.SplitAfter(base(), "\n") {
				b.WriteString(ind + l)
			}
			if !strings.HasSuffix(b.String(), "\n") {
				b.WriteString("\n")
			}
		}
		return b.String(), "nested"
	case 4:
		return mutate(c, base()+pick(c, []string{"\n", "\n---\n", "\n...\n", ""})+base()), "joined"
	case 5: // long, to cross the buffers of the reader
		var b strings.Builder
		for n := 20 + c.Intn(60); n > 0; n-- {
			b.WriteString(pick(c, []string{"- ", "- k: ", "- "}))
			b.WriteString(strings.Repeat(pick(c, []string{"a", "é", "日", "😀", "x y ", "'"}), c.Intn(60)))
			b.WriteString("\n")
		}
		if c.Chance(0.3) {
			return mutate(c, b.String()), "long"
		}
		return b.String(), "long"
	case 6:
		return base(), "plain"
	}
	return mutate(c, base()), "mutated"
}

// progText writes a random program.
func progText(c *C) string {
	docs := newProgGen(c).program()
	e := newEmitter(c.R)
	e.comments = c.Chance(0.3)
	return emitDocs(e, docs)
}

func utf16Text(c *C, s string) []byte {
	big := c.Chance(0.5)
	u := utf16.Encode([]rune("\ufeff" + s))
	b := make([]byte, 0, 2*len(u))
	for _, x := range u {
		if big {
			b = append(b, byte(x>>8), byte(x))
		} else {
			b = append(b, byte(x), byte(x>>8))
		}
	}
	return b
}

var wideNames = regexp.MustCompile(`[&*][0-9A-Za-z_.?-]*[.?]`)
var anyName = regexp.MustCompile(`([&*])([0-9A-Za-z_-]+)`)

func unknownAnchor(err error) bool {
	return err != nil && strings.Contains(err.Error(), "unknown anchor")
}

func c14(c *C) {
	text, how := yamlText(c)
	b := []byte(text)
	if c.Chance(0.04) && utf8.ValidString(text) {
		b, how = utf16Text(c, text), how+" utf-16"
	} else if c.Chance(0.03) {
		b = []byte("\ufeff" + text)
	}
	c.Input(string(b))
	c.Count(how, 1)
	if wideNames.MatchString(text) {
		c.Count("names with . or ?", 1)
		c.Skip()
	}
	if len(b) > 60000 {
		c.Skip()
	}
	up := readUpstream(b)
	got := readBundled(b)
	if up.panic != nil { // the library's own fault
		c.Count("upstream panics", 1)
		return
	}
	if got.panic != nil {
		c.Fail("panic", "the bundled reader panics: %v", got.panic)
		return
	}
	if unknownAnchor(up.err) {
		// accepted on purpose, see c14names
		c.Count("undefined aliases", 1)
		return
	}
	if (up.err == nil) != (got.err == nil) {
		c.Fail("acceptance", "yaml.v3 says %v, the bundled reader %v", up.err, got.err)
		return
	}
	if len(up.docs) != len(got.docs) {
		c.Fail("documents", "yaml.v3 reads %d documents, the bundled reader %d", len(up.docs), len(got.docs))
		return
	}
	var key strings.Builder
	fmt.Fprint(&key, up.err != nil)
	for i := range up.docs {
		if d := diffNodes(up.docs[i], got.docs[i], fmt.Sprint(i), map[*upstream.Node]*upstream.Node{}); d != "" {
			c.Fail("nodes", "nodes differ (yaml.v3 against the bundled reader) at %s", d)
			return
		}
		treeKey(&key, up.docs[i])
	}
	if up.err != nil {
		c.Count("rejected", 1)
		key.WriteString(numbers.ReplaceAllString(up.err.Error(), "N"))
	} else {
		c.Count("accepted", 1)
	}
	c.Seen(key.String())

	// decoded values
	mk := pick(c, targets)
	x, y := mk(), mk()
	strict := c.Chance(0.2)
	e1, p1 := decodeUp(b, x, strict)
	e2, p2 := decodeBundled(b, y, strict)
	if p1 != nil {
		return
	}
	if p2 != nil {
		c.Fail("panic", "decoding into %T panics: %v", y, p2)
		return
	}
	if (e1 == nil) != (e2 == nil) {
		c.Fail("decode-acceptance", "decoding into %T: yaml.v3 says %v, the bundled reader %v", x, e1, e2)
		return
	}
	if dx, dy := dumpOf(x), dumpOf(y); dx != dy {
		c.Fail("values", "decoded values differ\n--- yaml.v3\n%s\n--- bundled\n%s", dx, dy)
		return
	}
	c.Count("decoded", 1)

	if up.err != nil || len(b) > 20000 || bytes.IndexByte(b, 0) >= 0 {
		return
	}
	c14names(c, string(b), up)
}

var numbers = regexp.MustCompile(`[0-9]+`)

// c14names renames anchors, which must not change anything but the names.
func c14names(c *C, text string, up streamOut) {
	var anchors []string
	has := map[string]bool{}
	var collect func(n *upstream.Node)
	collect = func(n *upstream.Node) {
		if n.Anchor != "" && !has[n.Anchor] {
			has[n.Anchor] = true
			anchors = append(anchors, n.Anchor)
		}
		for _, x := range n.Content {
			collect(x)
		}
	}
	for _, d := range up.docs {
		collect(d)
	}
	if len(anchors) == 0 {
		return
	}
	name := pick(c, anchors)
	sites := anyName.FindAllStringSubmatchIndex(text, -1)
	// every site of the name has to be one in the tree, not text that looks like one
	inTree := 0
	var count func(n *upstream.Node)
	count = func(n *upstream.Node) {
		if n.Anchor == name || n.Kind == upstream.AliasNode && n.Value == name {
			inTree++
		}
		for _, x := range n.Content {
			count(x)
		}
	}
	for _, d := range up.docs {
		count(d)
	}
	var own [][]int
	for _, s := range sites {
		if text[s[4]:s[5]] == name {
			own = append(own, s)
		}
	}
	if len(own) != inTree {
		return
	}
	undefine := c.Chance(0.5)
	fresh := make([]byte, len(name))
	for i := range fresh {
		if undefine {
			fresh[i] = "qrstuvw"[c.Intn(7)]
		} else {
			fresh[i] = ".?.?abAZ09_-"[c.Intn(12)]
		}
	}
	if has[string(fresh)] {
		return
	}
	out := []byte(text)
	for _, s := range own {
		if undefine && text[s[2]] == '*' {
			continue
		}
		copy(out[s[4]:s[5]], fresh)
	}
	var rename func(n *upstream.Node)
	rename = func(n *upstream.Node) {
		if n.Anchor == name {
			n.Anchor = string(fresh)
		}
		if n.Kind == upstream.AliasNode && n.Value == name {
			if undefine {
				n.Alias = nil
			} else {
				n.Value = string(fresh)
			}
		}
		for _, x := range n.Content {
			rename(x)
		}
	}
	for _, d := range up.docs {
		rename(d)
	}
	got := readBundled(out)
	what := "renamed"
	if undefine {
		what = "made undefined"
	}
	if got.panic != nil || got.err != nil || len(got.docs) != len(up.docs) {
		c.Fail("names", "with the anchor %s %s to %s: %d documents for %d, error %v %v\n%s", name, what, fresh, len(got.docs), len(up.docs), got.err, got.panic, out)
		return
	}
	for i := range up.docs {
		if d := diffNodes(up.docs[i], got.docs[i], fmt.Sprint(i), map[*upstream.Node]*upstream.Node{}); d != "" {
			c.Fail("names", "with the anchor %s %s to %s, nodes differ at %s\n%s", name, what, fresh, d, out)
			return
		}
	}
	c.Count("anchors "+what, 1)
}

// ---- writing

type writeOut struct {
	text  string
	err   error
	panic any
}

func writeUpstream(indent int, vs []any) (o writeOut) {
	defer func() { o.panic = recover() }()
	var b bytes.Buffer
	e := upstream.NewEncoder(&b)
	if indent >= 0 {
		e.SetIndent(indent)
	}
	for _, v := range vs {
		if o.err = e.Encode(v); o.err != nil {
			o.text = b.String()
			return
		}
	}
	o.err = e.Close()
	o.text = b.String()
	return
}

func writeBundled(indent int, vs []any) (o writeOut) {
	defer func() {
		if r := recover(); r != nil {
			o.panic = fmt.Sprintf("%v\n%s", r, debug.Stack())
		}
	}()
	var b bytes.Buffer
	e := bundled.NewEncoder(&b)
	if indent >= 0 {
		e.SetIndent(indent)
	}
	for _, v := range vs {
		if o.err = e.Encode(v); o.err != nil {
			o.text = b.String()
			return
		}
	}
	o.err = e.Close()
	o.text = b.String()
	return
}

type nodeGen struct {
	c     *C
	named []*upstream.Node
}

func (g *nodeGen) comment(p float64) string {
	c := g.c
	if !c.Chance(p) {
		return ""
	}
	return pick(c, []string{"# note", "# a\n# b", "#x", "# note\n", "plain", "# é: [", "# a\n\n# b", "#"})
}

func (g *nodeGen) node(depth int, pc float64) *upstream.Node {
	c := g.c
	n := &upstream.Node{}
	if depth < 4 && c.Chance(0.06) && len(g.named) > 0 {
		n.Kind = upstream.AliasNode
		n.Alias = pick(c, g.named)
		n.Value = n.Alias.Anchor
	} else if depth > 0 && c.Chance(0.6) {
		if c.Chance(0.5) {
			n.Kind = upstream.SequenceNode
			n.Tag = pick(c, []string{"", "!!seq", "!!seq", "!yisp", "!quote"})
			for i := c.Intn(4); i > 0; i-- {
				n.Content = append(n.Content, g.node(depth-1, pc))
			}
		} else {
			n.Kind = upstream.MappingNode
			n.Tag = pick(c, []string{"", "!!map", "!!map", "!t", "!!omap"})
			for i := c.Intn(4); i > 0; i-- {
				var k *upstream.Node
				if c.Chance(0.1) {
					k = g.node(min(depth-1, 1), pc)
				} else {
					k = g.scalar(pc)
				}
				n.Content = append(n.Content, k, g.node(depth-1, pc))
			}
			if c.Chance(0.02) {
				n.Content = append(n.Content, g.scalar(pc))
			}
		}
		if c.Chance(0.25) {
			n.Style |= upstream.FlowStyle
		}
	} else {
		return g.scalar(pc)
	}
	g.props(n, pc)
	return n
}

func (g *nodeGen) props(n *upstream.Node, pc float64) {
	c := g.c
	if n.Kind != upstream.AliasNode && c.Chance(0.08) {
		n.Anchor = pick(c, []string{"a", "b", "x1", "under_score"})
		g.named = append(g.named, n)
	}
	if c.Chance(0.05) {
		n.Style |= upstream.TaggedStyle
	}
	if c.Chance(0.02) {
		n.Tag = pick(c, []string{"!", "!!str", "tag:yaml.org,2002:int", "!a b", "!é", "!!binary", "tag:example.com,2000:x", "!e!y", "!!null"})
	}
	n.HeadComment = g.comment(pc)
	n.LineComment = g.comment(pc)
	n.FootComment = g.comment(pc)
	if c.Chance(0.02) {
		n.Line, n.Column = c.Intn(100), c.Intn(100)
	}
}

func (g *nodeGen) scalar(pc float64) *upstream.Node {
	c := g.c
	n := &upstream.Node{Kind: upstream.ScalarNode}
	n.Value = genStr(c)
	if c.Chance(0.02) {
		n.Value += pick(c, []string{"\xff", "\x00", "\ud7ff", "\ufffe"})
	}
	n.Tag = pick(c, []string{"", "", "!!str", "!!str", "!!str", "!!int", "!!float", "!!bool", "!!null", "!!timestamp", "!!merge", "!t"})
	n.Style = pick(c, []upstream.Style{0, 0, 0, upstream.DoubleQuotedStyle, upstream.SingleQuotedStyle, upstream.LiteralStyle, upstream.FoldedStyle})
	g.props(n, pc)
	return n
}

func (g *nodeGen) tree() *upstream.Node {
	c := g.c
	pc := pick(c, []float64{0, 0, 0.1, 0.3})
	n := g.node(c.Intn(5), pc)
	if c.Chance(0.4) {
		d := &upstream.Node{Kind: upstream.DocumentNode, Content: []*upstream.Node{n}}
		d.HeadComment = g.comment(pc)
		d.FootComment = g.comment(pc)
		n = d
	}
	return n
}

type encTarget struct {
	A     int
	B     string            `yaml:"b,omitempty"`
	V     any               `yaml:"v"`
	F     float32           `yaml:"foo"`
	G     uint64            `yaml:"bar,omitempty"`
	T     time.Time         `yaml:"t,omitempty"`
	D     time.Duration     `yaml:"dur,omitempty"`
	L     []any             `yaml:"l,flow"`
	M     map[string]any    `yaml:"m,omitempty,flow"`
	P     *encTarget        `yaml:"p,omitempty"`
	Q     inner             `yaml:"q,omitempty"`
	X     *textual          `yaml:"x,omitempty"`
	Mr    *marshals         `yaml:"mr,omitempty"`
	Z     zeroer            `yaml:"z,omitempty"`
	By    []byte            `yaml:"by,omitempty"`
	Arr   [2]bool           `yaml:"arr,omitempty"`
	E     map[string]string `yaml:"e"`
	inner `yaml:",inline"`
	Rest  map[string]any `yaml:",inline"`
}

func goValue(c *C, depth int) any {
	if depth > 0 && c.Chance(0.6) {
		switch c.Intn(9) {
		case 0, 1:
			l := []any{}
			for n := c.Intn(5); n > 0; n-- {
				l = append(l, goValue(c, depth-1))
			}
			return l
		case 2, 3, 4:
			m := map[string]any{}
			for n := c.Intn(6); n > 0; n-- {
				k := genStr(c)
				if c.Chance(0.5) {
					k = fmt.Sprintf("%s%d%s", pick(c, []string{"a", "B", "key-", "k", "é", ""}), c.Intn(120), pick(c, []string{"", "a", ".1", "_"}))
				}
				m[k] = goValue(c, depth-1)
			}
			return m
		case 5:
			m := map[int]any{}
			for n := c.Intn(4); n > 0; n-- {
				m[c.Intn(30)-10] = goValue(c, depth-1)
			}
			return m
		case 6:
			t := encTarget{A: c.Intn(9), B: pick(c, []string{"", "x", genStr(c)}), V: goValue(c, depth-1), F: float32(genFloat(c)), Z: zeroer{c.Intn(3) + 5}}
			if c.Chance(0.3) {
				t.G = c.R.Uint64()
			}
			if c.Chance(0.3) {
				t.T = time.Unix(int64(c.R.Uint32()), int64(c.Intn(2)*c.Intn(1e9))).UTC()
			}
			if c.Chance(0.3) {
				t.D = time.Duration(c.R.Uint32())
			}
			for n := c.Intn(3); n > 0; n-- {
				t.L = append(t.L, goValue(c, depth-1))
			}
			if c.Chance(0.3) {
				t.M = map[string]any{"k": goValue(c, depth-1)}
			}
			if c.Chance(0.3) {
				t.P = &encTarget{B: genStr(c)}
			}
			if c.Chance(0.3) {
				t.X = &textual{genStr(c)}
			}
			if c.Chance(0.2) {
				t.Mr = &marshals{goValue(c, depth-1)}
			}
			if c.Chance(0.2) {
				t.By = []byte(genStr(c) + "\xfe")
			}
			if c.Chance(0.3) {
				t.Rest = map[string]any{pick(c, []string{"r1", "rest", "b", "10", "9"}): goValue(c, depth-1), "zz": 1}
			}
			t.C = pick(c, []string{"", "c", genStr(c)})
			return t
		case 7:
			v := goValue(c, depth-1)
			return &v
		case 8:
			m := map[string]string{}
			for n := c.Intn(5); n > 0; n-- {
				m[genStr(c)] = genStr(c)
			}
			return m
		}
	}
	switch c.Intn(14) {
	case 0:
		return nil
	case 1:
		return c.Chance(0.5)
	case 2:
		return int(genInt(c))
	case 3:
		return c.R.Uint64() >> c.Intn(64)
	case 4:
		return genFloat(c)
	case 5:
		return float32(genFloat(c))
	case 6:
		if c.Chance(0.3) {
			return time.Unix(int64(c.R.Uint32()), 0).UTC()
		}
		return time.Duration(c.R.Int64() >> c.Intn(60))
	case 7:
		if c.Chance(0.1) {
			return genStr(c) + "\xff"
		}
	case 8:
		if c.Chance(0.05) {
			return pick(c, []any{func() {}, make(chan int), complex(1, 2)})
		}
		return []string{genStr(c), genStr(c)}
	}
	return genStr(c)
}

func c15(c *C) {
	indent := pick(c, []int{-1, 2, 4, 2, 3, 0, 1, 8, 9, 10})
	var ups, own []any
	switch c.Intn(5) {
	case 0, 1: // generated trees
		g := &nodeGen{c: c}
		for n := 1 + c.Intn(2); n > 0; n-- {
			t := g.tree()
			ups = append(ups, t)
			own = append(own, toBundled(t, map[*upstream.Node]*bundled.Node{}))
		}
		c.Count("trees", 1)
	case 2: // trees read from text, perhaps changed
		text, _ := yamlText(c)
		r := readUpstream([]byte(text))
		if r.panic != nil || len(r.docs) == 0 {
			c.Skip()
		}
		g := &nodeGen{c: c}
		for _, d := range r.docs {
			if c.Chance(0.4) {
				var tweak func(n *upstream.Node)
				tweak = func(n *upstream.Node) {
					if c.Chance(0.15) {
						switch c.Intn(6) {
						case 0:
							n.HeadComment = g.comment(1)
						case 1:
							n.LineComment = g.comment(1)
						case 2:
							n.FootComment = g.comment(1)
						case 3:
							n.Style = pick(c, []upstream.Style{0, upstream.FlowStyle, upstream.DoubleQuotedStyle, upstream.LiteralStyle, upstream.FoldedStyle, upstream.SingleQuotedStyle, upstream.TaggedStyle})
						case 4:
							if n.Kind == upstream.ScalarNode {
								n.Value = genStr(c)
							}
						case 5:
							n.Tag = pick(c, []string{"", "!t", "!!str", "!!int", "!"})
						}
					}
					for _, x := range n.Content {
						tweak(x)
					}
				}
				tweak(d)
			}
			ups = append(ups, d)
			own = append(own, toBundled(d, map[*upstream.Node]*bundled.Node{}))
		}
		c.Count("read trees", 1)
	default:
		for n := 1 + c.Intn(2); n > 0; n-- {
			v := goValue(c, c.Intn(4))
			ups = append(ups, v)
			own = append(own, v)
		}
		c.Count("values", 1)
	}
	var in strings.Builder
	fmt.Fprintf(&in, "indent %d\n", indent)
	for _, v := range ups {
		var b strings.Builder
		dump(&b, reflect.ValueOf(v), 0)
		fmt.Fprintln(&in, b.String())
	}
	c.Input(in.String())
	up := writeUpstream(indent, ups)
	got := writeBundled(indent, own)
	if up.panic != nil {
		c.Count("upstream panics", 1)
		return
	}
	if got.panic != nil {
		c.Fail("panic", "the bundled writer panics: %v", got.panic)
		return
	}
	if (up.err == nil) != (got.err == nil) {
		c.Fail("acceptance", "yaml.v3 says %v, the bundled writer %v", up.err, got.err)
		return
	}
	if up.err != nil {
		c.Count("refused", 1)
		c.Seen("refused " + numbers.ReplaceAllString(up.err.Error(), "N"))
		return
	}
	if up.text != got.text {
		// yaml.v3 orders some sets of keys (long numbers) differently from run to run
		for i := 0; i < 40; i++ {
			if x := writeUpstream(indent, ups); x.text != up.text {
				c.Count("yaml.v3 is not deterministic", 1)
				return
			}
		}
		c.Fail("bytes", "outputs differ\n--- yaml.v3\n%s\n--- bundled\n%s", up.text, got.text)
		return
	}
	c.Seen(fmt.Sprint(indent) + wordish.ReplaceAllString(up.text, "w"))
}

var wordish = regexp.MustCompile(`[\pL\pN]+`)
