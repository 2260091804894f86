package main

import (
	"fmt"
	"math"
	"math/rand/v2"
	"regexp"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
)

// Kinds of syntax nodes.
type yk int

const (
	yScalar yk = iota
	yAlias
	ySeq
	yMap
)

// Y is a YAML syntax tree, which is also what a yisp program is.
type Y struct {
	K         yk
	Tag       string
	Anchor    string
	V         *Val // scalar value
	Name      string
	L         []*Y
	M         []YEnt
	Line, Col int    // where the emitter put it, as the YAML library counts
	Raw       string // when not empty, the exact plain spelling of a scalar
	Mark      int    // free for use by properties
	File      string // the file it is part of, where a model keeps track of files
}

type YEnt struct {
	K *Val
	V *Y
}

func ys(v *Val) *Y        { return &Y{K: yScalar, V: v} }
func yname(s string) *Y   { return ys(str(s)) }
func yref(name string) *Y { return &Y{K: yAlias, Name: name} }
func yseq(l ...*Y) *Y     { return &Y{K: ySeq, L: l} }
func ycall(op string, args ...*Y) *Y {
	return &Y{K: ySeq, L: append([]*Y{yname(op)}, args...)}
}
func ymap(kv ...any) *Y {
	m := &Y{K: yMap}
	for i := 0; i < len(kv); i += 2 {
		m.M = append(m.M, YEnt{str(kv[i].(string)), kv[i+1].(*Y)})
	}
	return m
}
func (y *Y) tag(t string) *Y    { y.Tag = t; return y }
func (y *Y) anchor(a string) *Y { y.Anchor = a; return y }

// ydata makes the syntax of a value.
func ydata(v *Val) *Y {
	switch v.K {
	case vList:
		y := yseq()
		for _, x := range v.L {
			y.L = append(y.L, ydata(x))
		}
		return y
	case vMap:
		y := ymap()
		for _, e := range v.M {
			y.M = append(y.M, YEnt{e.K, ydata(e.V)})
		}
		return y
	}
	return ys(v)
}

// yquote makes an expression that evaluates to the value inside !yisp code.
func yquote(v *Val) *Y {
	y := ydata(v)
	if v.K == vList || v.K == vMap {
		y.Tag = "!quote"
	}
	return y
}

func (y *Y) walk(f func(*Y)) {
	f(y)
	for _, x := range y.L {
		x.walk(f)
	}
	for _, e := range y.M {
		e.V.walk(f)
	}
}

// emitter writes syntax trees as YAML text in randomly chosen notations.
type emitter struct {
	b         strings.Builder
	line, col int
	r         *rand.Rand
	comments  bool // sprinkle comments
	rich      bool // many of them, of several lines, apart from what follows, and after the last entry
	hush      bool // no comments inside what is marked 1, which is written on a line
	tame      bool // block style, plain or double-quoted scalars only
	explicit  bool // may use explicit core tags such as !!str
	flowP     float64
	ncomment  int
	afterKeep bool // a block scalar has just ended
}

func newEmitter(r *rand.Rand) *emitter {
	return &emitter{r: r, line: 1, col: 1, flowP: 0.2}
}

func (e *emitter) w(s string) {
	e.b.WriteString(s)
	for _, c := range s {
		if c == '\n' {
			e.line++
			e.col = 1
		} else {
			e.col++
		}
	}
	if s != "" {
		e.afterKeep = false
	}
}

func (e *emitter) chance(p float64) bool { return e.r.Float64() < p }
func (e *emitter) sp(n int) string       { return strings.Repeat(" ", n) }

const (
	ctxDoc  = iota // at the start of a line, nothing before
	ctxMark        // after --- or a key: nested collections start on a new line
	ctxItem        // after "-" or "? " or ": ": nested collections may start in place
)

// doc writes one document.
func (e *emitter) doc(y *Y, marker bool) {
	if marker {
		e.w("---")
		if e.comments && e.chance(0.2) {
			e.eolComment()
			e.w("\n")
			e.block(y, -1, ctxDoc)
			return
		}
		if y.Tag == "" && y.Anchor == "" && (y.K == ySeq || y.K == yMap) || e.chance(0.5) {
			e.w("\n")
			e.block(y, -1, ctxDoc)
			return
		}
		e.block(y, -1, ctxMark)
		return
	}
	e.block(y, -1, ctxDoc)
}

func (e *emitter) eolComment() {
	if e.comments && e.chance(0.15) || e.rich && e.chance(0.2) {
		e.ncomment++
		e.w(fmt.Sprintf("%s# note %d", e.sp(1+e.r.IntN(3)), e.ncomment))
	}
}

func (e *emitter) lineComment(ind int) {
	if e.comments && !e.afterKeep && e.chance(0.1) {
		e.ncomment++
		e.w(fmt.Sprintf("%s# remark %d\n", e.sp(ind), e.ncomment))
	}
}

// apart writes comments before, between and after entries.
func (e *emitter) apart(ind int, last bool) {
	if !e.rich || e.afterKeep || !e.chance(0.2) {
		return
	}
	gap := func() {
		if e.chance(0.35) {
			e.w("\n")
		}
	}
	for n := 1 + e.r.IntN(2); n > 0; n-- {
		gap()
		for m := 1 + e.r.IntN(2); m > 0; m-- {
			e.ncomment++
			e.w(fmt.Sprintf("%s#%s remark %d\n", e.sp(ind), pickr(e.r, []string{"", "", "", "#", "!"}), e.ncomment))
		}
	}
	if !last {
		gap()
	}
}

func (e *emitter) props(y *Y) string {
	tag, anchor := y.Tag, y.Anchor
	if anchor != "" {
		anchor = "&" + anchor
	}
	if tag != "" && anchor != "" {
		if e.chance(0.5) {
			return anchor + " " + tag
		}
		return tag + " " + anchor
	}
	return tag + anchor
}

// block writes a node in block context and ends the line. ind is the
// indentation of the enclosing collection.
func (e *emitter) block(y *Y, ind int, ctx int) {
	sep := " "
	if ctx == ctxDoc {
		sep = ""
	} else if !e.tame && e.chance(0.1) {
		sep = "  "
	}
	props := e.props(y)
	collection := (y.K == ySeq && len(y.L) > 0 || y.K == yMap && len(y.M) > 0) && !e.chance(e.flowP) && !(e.hush && y.Mark == 1)
	if !collection {
		if y.K == yScalar && y.V.K == vNull && y.Raw == "" && ctx != ctxDoc && !e.tame && e.chance(0.3) {
			if props != "" {
				e.w(sep)
				y.Line, y.Col = e.line, e.col
				e.w(props)
			} else {
				y.Line, y.Col = e.line, e.col
			}
			e.eolComment()
			e.w("\n")
			return
		}
		if y.K == yScalar && y.V.K == vStr && y.Raw == "" && !e.tame && (y.Tag == "" || y.Tag[0] == '!') && e.chance(0.35) {
			if head, body, ok := e.blockScalar(y.V.S, ind); ok {
				e.w(sep)
				y.Line, y.Col = e.line, e.col
				if props != "" {
					e.w(props + " ")
				}
				e.w(head)
				if e.comments && e.chance(0.1) {
					e.ncomment++
					e.w(fmt.Sprintf(" # head %d", e.ncomment))
				}
				e.w("\n")
				e.w(body)
				e.afterKeep = true
				return
			}
		}
		e.w(sep)
		e.inline(y, props, ind, false)
		e.eolComment()
		e.w("\n")
		return
	}

	// block collection
	at := -1
	if props != "" {
		e.w(sep)
		y.Line, y.Col = e.line, e.col
		e.w(props)
		e.eolComment()
		e.w("\n")
	} else if ctx == ctxItem && (e.tame || e.chance(0.75)) {
		e.w(sep)
		at = e.col - 1
	} else if ctx != ctxDoc {
		e.eolComment()
		e.w("\n")
	}
	first := at >= 0
	if at < 0 {
		switch {
		case ind < 0:
			at = 0
			if ctx == ctxMark && !e.tame && e.chance(0.2) {
				at = 2
			}
		case e.tame:
			at = ind + 2
		case y.K == ySeq && ctx == ctxMark && e.chance(0.4):
			at = ind
		default:
			at = ind + 1 + e.r.IntN(4)
		}
	}
	if y.K == ySeq {
		for _, x := range y.L {
			if !first {
				e.lineComment(at)
				e.apart(at, false)
				e.w(e.sp(at))
			}
			if y.Line == 0 || x == y.L[0] && props == "" {
				y.Line, y.Col = e.line, e.col
			}
			first = false
			e.w("-")
			e.block(x, at, ctxItem)
		}
		e.apart(at, true)
		return
	}
	for i, x := range y.M {
		if !first {
			e.lineComment(at)
			e.apart(at, false)
			e.w(e.sp(at))
		}
		if i == 0 && props == "" {
			y.Line, y.Col = e.line, e.col
		}
		first = false
		if x.K.K == vStr && (strings.Contains(x.K.S, "\n") || len(x.K.S) > 200) || !e.tame && e.chance(0.03) {
			e.w("? ")
			e.key(x.K, true)
			e.w("\n" + e.sp(at) + ":")
			e.block(x.V, at, ctxItem)
			continue
		}
		e.key(x.K, false)
		if !e.tame && e.chance(0.05) {
			e.w(" ")
		}
		e.w(":")
		e.block(x.V, at, ctxMark)
	}
	e.apart(at, true)
}

// key writes a mapping key on one line.
func (e *emitter) key(k *Val, explicit bool) {
	if k.K != vStr {
		e.w(keyText(k))
		return
	}
	if k.S == "<<" {
		e.w("<<")
		return
	}
	if k.S == quotedMergeKey {
		e.w(`"<<"`)
		return
	}
	e.w(e.flowString(k.S, -1))
}

// quotedMergeKey stands for a key spelled "<<" in quotes.
const quotedMergeKey = "\x00<<"

// inline writes a node in flow form.
func (e *emitter) inline(y *Y, props string, ind int, inFlow bool) {
	if e.hush && y.Mark == 1 && e.rich {
		e.rich = false
		defer func() { e.rich = true }()
	}
	y.Line, y.Col = e.line, e.col
	if props != "" {
		e.w(props)
		if y.K == yScalar && y.V.K == vNull && y.Raw == "" && e.chance(0.2) {
			if inFlow {
				e.w(" ")
			}
			return
		}
		e.w(" ")
	}
	gap := func() {
		if e.tame {
			return
		}
		switch e.r.IntN(12) {
		case 0:
			if e.rich && e.chance(0.6) {
				e.ncomment++
				e.w(fmt.Sprintf(" # note %d", e.ncomment))
			}
			e.w("\n" + e.sp(max(ind, 0)+1+e.r.IntN(3)))
		case 1, 2:
			e.w(" ")
		}
	}
	switch y.K {
	case yAlias:
		e.w("*" + y.Name)
		if inFlow {
			e.w(" ")
		}
	case yScalar:
		if y.Raw != "" {
			e.w(y.Raw)
			return
		}
		e.w(e.scalar(y.V, ind, y.Tag == ""))
	case ySeq:
		e.w("[")
		for i, x := range y.L {
			gap()
			e.inline(x, e.props(x), ind, true)
			if i < len(y.L)-1 {
				e.w(",")
				if e.tame || e.chance(0.7) {
					e.w(" ")
				}
			}
		}
		gap()
		e.w("]")
	case yMap:
		e.w("{")
		for i, x := range y.M {
			gap()
			if x.K.K == vStr && len(x.K.S) > 200 {
				e.w("? ")
			}
			e.key(x.K, false)
			e.w(": ")
			e.inline(x.V, e.props(x.V), ind, true)
			if i < len(y.M)-1 {
				e.w(", ")
			}
		}
		gap()
		e.w("}")
	}
}

func (e *emitter) scalar(v *Val, ind int, mayTag bool) string {
	switch v.K {
	case vNull:
		return pickr(e.r, []string{"null", "null", "~", "Null", "NULL"})
	case vBool:
		if v.B {
			return pickr(e.r, []string{"true", "true", "True", "TRUE"})
		}
		return pickr(e.r, []string{"false", "false", "False", "FALSE"})
	case vInt:
		if e.tame {
			return strconv.FormatInt(v.I, 10)
		}
		return spellInt(e.r, v.I, e.explicit && mayTag)
	case vFloat:
		if e.tame {
			return tameFloat(v.F)
		}
		return spellFloat(e.r, v.F, e.explicit && mayTag)
	case vStr:
		if e.explicit && mayTag && e.chance(0.05) {
			if t, err := resolvePlain(v.S); err == nil && t.K != vStr && v.S != "" {
				return "!!str " + v.S
			}
		}
		return e.flowString(v.S, ind)
	}
	panic("not a scalar: " + v.String())
}

func tameFloat(f float64) string {
	switch {
	case math.IsNaN(f):
		return ".nan"
	case math.IsInf(f, 1):
		return ".inf"
	case math.IsInf(f, -1):
		return "-.inf"
	}
	s := strconv.FormatFloat(f, 'g', -1, 64)
	if !strings.ContainsAny(s, ".e") {
		s += ".0"
	}
	return s
}

func pickr[T any](r *rand.Rand, xs []T) T { return xs[r.IntN(len(xs))] }

func spellInt(r *rand.Rand, i int64, tags bool) string {
	dec := strconv.FormatInt(i, 10)
	switch r.IntN(10) {
	case 0:
		if i >= 0 {
			return "+" + dec
		}
	case 1:
		if i >= 0 {
			return fmt.Sprintf("0x%x", i)
		}
	case 2:
		if i >= 0 {
			return fmt.Sprintf("0x%X", i)
		}
	case 3:
		if i >= 0 {
			return fmt.Sprintf("0o%o", i)
		}
	case 4:
		if i >= 0 {
			return fmt.Sprintf("0b%b", i)
		}
	case 5:
		if i >= 1000 {
			return dec[:len(dec)-3] + "_" + dec[len(dec)-3:]
		}
	case 6:
		if tags {
			return "!!int " + pickr(r, []string{dec, `"` + dec + `"`})
		}
	}
	return dec
}

func spellFloat(r *rand.Rand, f float64, tags bool) string {
	switch {
	case math.IsNaN(f):
		return pickr(r, []string{".nan", ".NaN", ".NAN"})
	case math.IsInf(f, 1):
		return pickr(r, []string{".inf", ".Inf", ".INF", "+.inf"})
	case math.IsInf(f, -1):
		return pickr(r, []string{"-.inf", "-.Inf", "-.INF"})
	}
	if tags && f == math.Trunc(f) && math.Abs(f) < 1e15 && !(f == 0 && math.Signbit(f)) && r.IntN(6) == 0 {
		return "!!float " + strconv.FormatInt(int64(f), 10)
	}
	switch r.IntN(5) {
	case 0:
		s := strconv.FormatFloat(f, 'f', -1, 64)
		if len(s) < 60 {
			if !strings.Contains(s, ".") {
				s += pickr(r, []string{".0", ".", ".00"})
			}
			if strings.HasPrefix(s, "0.") && len(s) > 2 && s != "0.0" && s != "0.00" && r.IntN(2) == 0 {
				s = s[1:]
			}
			if s[0] != '-' && r.IntN(4) == 0 {
				s = "+" + s
			}
			return s
		}
	case 1:
		return strconv.FormatFloat(f, 'e', -1, 64)
	case 2:
		return strconv.FormatFloat(f, 'E', -1, 64)
	case 3:
		return strings.Replace(strconv.FormatFloat(f, 'e', -1, 64), "e+", "e", 1)
	}
	return tameFloat(f)
}

var rePlain = regexp.MustCompile(`^[A-Za-z_][A-Za-z0-9_./-]*( [A-Za-z0-9_]+)*$`)

func plainSafe(s string) bool {
	if !rePlain.MatchString(s) || len(s) > 150 {
		return false
	}
	switch strings.ToLower(s) {
	case "y", "n", "yes", "no", "on", "off", "true", "false", "null":
		return false
	}
	return true
}

func printable(r rune) bool {
	switch {
	case r == '\t':
		return true
	case r < 0x20, r >= 0x7f && r <= 0x9f, r == 0x2028, r == 0x2029, r == 0xfeff, r == utf8.RuneError:
		return false
	}
	return r < 0x10000 && unicode.IsPrint(r) || r > 0x1f000
}

// flowString writes a string plain or quoted. ind < 0 keeps it on one line.
func (e *emitter) flowString(s string, ind int) string {
	plain := plainSafe(s)
	if plain && (e.tame || e.chance(0.6)) {
		if ind >= 0 && !e.tame && strings.Contains(s, " ") && e.chance(0.05) {
			return strings.Replace(s, " ", "\n"+e.sp(ind+2), 1)
		}
		return s
	}
	single := true
	for _, r := range s {
		if !printable(r) {
			single = false
		}
	}
	if single && !e.tame && e.chance(0.5) {
		return "'" + strings.ReplaceAll(s, "'", "''") + "'"
	}
	if !single && !e.tame && ind >= 0 && e.chance(0.3) {
		if t, ok := e.quotedLines(s, ind); ok {
			return t
		}
	}
	return e.double(s, ind)
}

// quotedLines writes a string of several lines between quotes as such lines,
// if it can.
func (e *emitter) quotedLines(s string, ind int) (string, bool) {
	if !strings.Contains(s, "\n") {
		return "", false
	}
	for _, r := range s {
		if r != '\n' && !printable(r) {
			return "", false
		}
	}
	lines := strings.Split(s, "\n")
	quote := pickr(e.r, []string{"'", "'", `"`})
	t := quote
	for i, l := range lines {
		if i > 0 && strings.TrimLeft(l, " \t") != l || i < len(lines)-1 && strings.TrimRight(l, " \t") != l {
			return "", false
		}
		if quote == "'" {
			l = strings.ReplaceAll(l, "'", "''")
		} else {
			l = strings.ReplaceAll(strings.ReplaceAll(l, `\`, `\\`), `"`, `\"`)
		}
		if i > 0 {
			t += "\n"
			if lines[i-1] != "" || i == 1 {
				t += "\n" // the first of several breaks is folded
			}
			if l != "" || i == len(lines)-1 {
				t += e.sp(ind + 1 + e.r.IntN(3))
			}
		}
		t += l
	}
	return t + quote, true
}

func (e *emitter) double(s string, ind int) string {
	var b strings.Builder
	b.WriteByte('"')
	fold := ind >= 0 && !e.tame && e.chance(0.2)
	for _, r := range s {
		if fold && e.chance(0.1) {
			b.WriteString("\\\n" + e.sp(ind+1+e.r.IntN(4)))
			if r == ' ' || r == '\t' {
				b.WriteByte('\\')
				if r == '\t' {
					b.WriteByte('t')
				} else {
					b.WriteByte(' ')
				}
				continue
			}
		}
		switch r {
		case '"':
			b.WriteString(`\"`)
		case '\\':
			b.WriteString(`\\`)
		case '\n':
			b.WriteString(`\n`)
		case '\t':
			b.WriteString(pickr(e.r, []string{`\t`, `\x09`, "\t"}))
		case '\r':
			b.WriteString(`\r`)
		case 0:
			b.WriteString(`\0`)
		case 7:
			b.WriteString(`\a`)
		case 0x1b:
			b.WriteString(`\e`)
		case 0x85:
			b.WriteString(pickr(e.r, []string{`\N`, `\x85`, `\u0085`}))
		case 0xa0:
			b.WriteString(pickr(e.r, []string{`\_`, `\xa0`}))
		case 0x2028:
			b.WriteString(`\L`)
		case 0x2029:
			b.WriteString(`\P`)
		default:
			switch {
			case printable(r) && !(e.chance(0.03) && !e.tame):
				b.WriteRune(r)
			case r < 0x100:
				fmt.Fprintf(&b, `\x%02x`, r)
			case r < 0x10000:
				fmt.Fprintf(&b, `\u%04X`, r)
			default:
				fmt.Fprintf(&b, `\U%08X`, r)
			}
		}
	}
	b.WriteByte('"')
	return b.String()
}

// blockScalar writes a string as a literal or folded block scalar, if it can.
func (e *emitter) blockScalar(s string, ind int) (head, body string, ok bool) {
	core := strings.TrimRight(s, "\n")
	if core == "" {
		return "", "", false
	}
	for _, r := range s {
		if r != '\n' && (!printable(r) || r == 0xa0) {
			return "", "", false
		}
	}
	chomp := ""
	switch len(s) - len(core) {
	case 0:
		chomp = "-"
	case 1:
	default:
		chomp = "+"
	}
	at := max(ind, 0) + 1 + e.r.IntN(4)
	if ind < 0 {
		at = 1 + e.r.IntN(3)
	}
	lines := strings.Split(core, "\n")
	folded := e.chance(0.4) && lines[0] != ""
	indented := func(l string) bool { return strings.HasPrefix(l, " ") || strings.HasPrefix(l, "\t") }
	if indented(lines[0]) {
		folded = false
	}
	hint := ""
	if lines[0] == "" || lines[0][0] == ' ' || lines[0][0] == '\t' || e.chance(0.1) {
		hint = strconv.Itoa(at - max(ind, 0))
		if ind < 0 {
			hint = strconv.Itoa(at)
		}
	}
	var b strings.Builder
	mark := "|"
	if folded {
		mark = ">"
		prev := ""
		for i, l := range lines {
			if l == "" {
				b.WriteString("\n")
				continue
			}
			// line breaks next to more indented lines are not folded
			if i > 0 && !indented(prev) && !indented(l) {
				b.WriteString("\n")
			}
			prev = l
			if l != "" {
				// fold the line at a space between two words
				if j := strings.Index(l, " "); j > 0 && !indented(l) && j+1 < len(l) && l[j+1] != ' ' && l[j+1] != '\t' && l[j-1] != ' ' && l[j-1] != '\t' && e.chance(0.5) {
					l = l[:j] + "\n" + e.sp(at) + l[j+1:]
				}
				b.WriteString(e.sp(at) + l + "\n")
			}
		}
	} else {
		for _, l := range lines {
			if l != "" {
				b.WriteString(e.sp(at) + l)
			}
			b.WriteString("\n")
		}
	}
	for n := len(s) - len(core); n > 1; n-- {
		b.WriteString("\n")
	}
	if e.chance(0.5) {
		hint, chomp = chomp, hint
	}
	return mark + hint + chomp, b.String(), true
}
