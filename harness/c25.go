package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"unicode/utf16"
	"unicode/utf8"

	upstream "gopkg.in/yaml.v3"

	"github.com/totegamma/yisp/engine"
)

func init() {
	register(&Prop{
		ID: "C25", Quick: 40000, Thorough: 500000, Case: c25,
		Rule: "distinct structures of data, with the notations in its text, by way of reading it, whose value was compared with the generated data; and distinct kinds of damage by outcome",
		Assume: []string{
			"a stream without any document is an error for files, by design",
			"integers are those of 64 bits; JSON texts repeat no key",
		},
	})
}

// standard gives the value of a tree by the rules of YAML: names are those of
// the document, and entries written in a mapping win over those merged into it.
// Keys are the text they are written as.
func standard(y *Y, env map[string]*Val) *Val {
	v := &Val{}
	if y.Anchor != "" { // the name is given where the node begins
		env[y.Anchor] = v
	}
	switch y.K {
	case yAlias:
		if env[y.Name].Open {
			return nil
		}
		return env[y.Name]
	case yScalar:
		*v = *y.V
	case ySeq:
		v.K, v.Open = vList, true
		for _, x := range y.L {
			e := standard(x, env)
			if e == nil {
				return nil
			}
			v.L = append(v.L, e)
		}
	case yMap:
		v.K, v.Open = vMap, true
		var merged []*Val
		for _, e := range y.M {
			x := standard(e.V, env)
			if x == nil {
				return nil
			}
			if e.K.K == vStr && e.K.S == "<<" {
				if x.K == vList {
					merged = append(merged, x.L...)
				} else {
					merged = append(merged, x)
				}
				continue
			}
			k := keyText(e.K)
			if k == quotedMergeKey {
				k = "<<"
			}
			if v.get(k) != nil {
				return nil
			}
			v.set(k, x)
		}
		for _, m := range merged {
			if m.K != vMap {
				return nil
			}
			for _, e := range m.M {
				if v.get(e.K.S) == nil {
					v.set(e.K.S, e.V)
				}
			}
		}
	}
	v.Open = false
	return v
}

// namedKeys makes YAML whose keys are named elsewhere, or are values elsewhere.
func namedKeys(c *C) (text string, data []*Val) {
	type scalar struct {
		text, key string
		v         *Val
	}
	all := []scalar{
		{"1", "1", integer(1)}, {"0x1F", "0x1F", integer(31)}, {"-07", "-07", nil}, {"true", "true", boolean(true)}, {"False", "False", boolean(false)},
		{"2001-01-01", "2001-01-01", str("2001-01-01")}, {"text", "text", str("text")}, {"1.50", "1.50", float(1.5)}, {`"q"`, "q", str("q")}, {"'1'", "1", str("1")},
		{"null", "null", null()}, {"~", "~", null()}, {"!!str 7", "7", str("7")}, {`"2001-12-14t21:59:43.10-05:00"`, "2001-12-14t21:59:43.10-05:00", str("2001-12-14t21:59:43.10-05:00")},
	}
	want := mapv()
	for n := 1 + c.Intn(3); n > 0; n-- {
		s := pick(c, all)
		if s.v == nil {
			continue
		}
		name, a := fmt.Sprintf("n%d", n), fmt.Sprintf("a%d", n)
		aliased := func() {
			switch c.Intn(4) {
			case 0:
				text += fmt.Sprintf("%sk:\n  *%s : 1\n  z: 2\n", name, a)
				want.set(name+"k", mapv(s.key, integer(1)))
				want.get(name+"k").set("z", integer(2))
			case 1:
				text += fmt.Sprintf("%sk: {b: *%s , *%s : x}\n", name, a, a)
				want.set(name+"k", mapv("b", s.v))
				want.get(name+"k").set(s.key, str("x"))
			case 2:
				text += fmt.Sprintf("%sk: [*%s , {*%s : *%s }]\n", name, a, a, a)
				want.set(name+"k", list(s.v, mapv(s.key, s.v)))
			case 3:
				text += fmt.Sprintf("%sk: *%s\n", name, a)
				want.set(name+"k", s.v)
			}
		}
		if c.Chance(0.5) { // a value, then a key
			text += fmt.Sprintf("%s: &%s %s\n", name, a, s.text)
			want.set(name, s.v)
		} else { // a key, then anything
			text += fmt.Sprintf("%s:\n  &%s %s: 1\n", name, a, s.text)
			want.set(name, mapv(s.key, integer(1)))
		}
		aliased()
		if c.Chance(0.4) {
			name += "y"
			aliased()
		}
	}
	if text == "" {
		text = "a: 1\n"
		want.set("a", integer(1))
	}
	return text, []*Val{want}
}

// spellJSON writes a value as JSON in any notation.
func spellJSON(c *C, v *Val) string {
	gap := func() string {
		if c.Chance(0.8) {
			return ""
		}
		return pick(c, []string{" ", "\n", "\t", "\r\n", "  \n "})
	}
	text := func(s string) string {
		var b strings.Builder
		b.WriteByte('"')
		for _, r := range s {
			short := map[rune]string{'"': `\"`, '\\': `\\`, '\n': `\n`, '\t': `\t`, '\r': `\r`, '\b': `\b`, '\f': `\f`}[r]
			switch {
			case short != "" && c.Chance(0.7):
				b.WriteString(short)
			case r == '/' && c.Chance(0.3):
				b.WriteString(`\/`)
			case r == '"' || r == '\\' || r < 0x20 || c.Chance(0.05):
				for _, u := range utf16.Encode([]rune{r}) {
					fmt.Fprintf(&b, pick(c, []string{`\u%04x`, `\u%04X`}), u)
				}
			default:
				b.WriteRune(r)
			}
		}
		b.WriteByte('"')
		return b.String()
	}
	s := ""
	switch v.K {
	case vNull:
		s = "null"
	case vBool:
		s = strconv.FormatBool(v.B)
	case vInt:
		s = strconv.FormatInt(v.I, 10)
	case vFloat:
		s = strconv.FormatFloat(v.F, pick(c, []byte{'e', 'E', 'f', 'g'}), -1, 64)
		if !strings.ContainsAny(s, ".eE") {
			s += pick(c, []string{".0", "e0", "E+0", ".00"})
		}
	case vStr:
		s = text(v.S)
	case vList:
		var l []string
		for _, x := range v.L {
			l = append(l, spellJSON(c, x))
		}
		s = "[" + gap() + strings.Join(l, ",") + "]"
	case vMap:
		var l []string
		for _, e := range v.M {
			l = append(l, gap()+text(e.K.S)+gap()+":"+spellJSON(c, e.V))
		}
		s = "{" + strings.Join(l, ",") + gap() + "}"
	}
	return gap() + s + gap()
}

// goVal makes a value as a program in Go would give it.
func goVal(c *C, v *Val) any {
	switch v.K {
	case vNull:
		return nil
	case vBool:
		return v.B
	case vInt:
		if v.I >= 0 && v.I < 100 && c.Chance(0.5) {
			return pick(c, []any{int8(v.I), uint8(v.I), int16(v.I), uint16(v.I), int32(v.I), uint32(v.I), uint64(v.I), uint(v.I)})
		}
		if c.Chance(0.3) {
			return json.Number(strconv.FormatInt(v.I, 10))
		}
		if c.Chance(0.5) {
			return int(v.I)
		}
		return v.I
	case vFloat:
		if float64(float32(v.F)) == v.F && c.Chance(0.5) {
			return float32(v.F)
		}
		return v.F
	case vStr:
		return v.S
	case vList:
		l := []any{}
		for _, x := range v.L {
			l = append(l, goVal(c, x))
		}
		return l
	}
	m := map[string]any{}
	for _, e := range v.M {
		m[e.K.S] = goVal(c, e.V)
	}
	return m
}

// damage changes a text a little.
func damage(c *C, s string) string {
	for n := 1 + c.Intn(2); n > 0 && len(s) > 0; n-- {
		i := c.Intn(len(s) + 1)
		switch c.Intn(5) {
		case 0:
			s = s[:i]
		case 1:
			if i < len(s) {
				s = s[:i] + s[i+1:]
			}
		case 2, 3:
			s = s[:i] + pick(c, []string{"[", "]", "{", "}", ":", ": ", ",", "\"", "'", "\n", " ", "\t", "- ", "*n9", "&n0 ", "#", "|", "%", "@", "\x01", "\xff", "0", "e", "\\", "---\n", "...\n"}) + s[i:]
		case 4:
			s = s + pick(c, []string{"]", "}", " x", "\n]", "\n- a", "\nb: 1", "1", "null", "\n--- a\n- b", ","})
		}
	}
	return s
}

func c25(c *C) {
	dir, err := filepath.EvalSymlinks(c.fresh())
	if err != nil {
		panic(err)
	}
	os.MkdirAll(filepath.Join(dir, "d"), 0755)
	way := pick(c, []string{"main", "include", "include", "unmarshal", "unmarshal", "global", "any"})
	format := pick(c, []string{"yaml", "yaml", "yml", "json"})
	if way == "unmarshal" {
		format = "yaml"
	}

	// the data and its text
	var text string
	var data []*Val
	o := genOpt{depth: 1 + c.Intn(4), width: 1 + c.Intn(4)}
	switch {
	case way == "global" || format == "json":
		if way == "global" {
			format = "go"
		}
		v := cleanKeys(genVal(c, o))
		if !finite(v) {
			c.Skip()
		}
		text = spellJSON(c, v)
		data = []*Val{v}
	case c.Chance(0.06):
		text, data = namedKeys(c)
	default:
		o.nan, o.nonstr = true, c.Chance(0.5)
		e := newEmitter(c.R)
		e.comments = c.Chance(0.3)
		e.explicit = true
		e.flowP = pick(c, []float64{0, 0.2, 0.8})
		anchors := c.Chance(0.35)
		var ds []*Y
		for n := 1 + pickInt(c.Chance(0.3), c.Intn(3), 0); n > 0; n-- {
			y := ydata(genVal(c, o))
			if c.Chance(0.4) {
				y.walk(func(y *Y) {
					if y.K == yMap && c.Chance(0.4) {
						v := mapv()
						for _, e := range y.M {
							v.set(keyText(e.K), null())
						}
						spice(c, v, y)
					}
				})
			}
			if anchors {
				var names, maps []string
				sprinkleAnchors(c, y, &names, &maps)
			}
			ds = append(ds, y)
		}
		if !anchors && c.Chance(0.1) {
			ds[0].walk(func(y *Y) {
				if len(y.M) > 0 && c.Chance(0.1) {
					y.M[c.Intn(len(y.M))].K = str(quotedMergeKey)
				}
			})
		}
		text = emitDocs(e, ds)
		for _, d := range ds {
			v := standard(d, map[string]*Val{})
			if v == nil {
				c.Skip()
			}
			data = append(data, v)
		}
		// the spelling must mean what the generator meant
		if !anchors {
			got, err := libraryDocs(text)
			if err != nil || len(got) != len(data) {
				c.Skip()
			}
			for i := range got {
				if !same(sortedKeys(textKeys(got[i])), sortedKeys(textKeys(data[i]))) {
					c.Count("respelled", 1)
					c.Skip()
				}
			}
		} else if _, err := readNodes(text); err != nil {
			c.Skip()
		}
	}
	broken, damaged := false, false
	if format != "go" && c.Chance(0.2) {
		damaged = true
		text = damage(c, text)
		data = nil
		if format == "json" {
			broken = !json.Valid([]byte(text))
			if !broken {
				c.Skip()
			}
		} else {
			d := upstream.NewDecoder(strings.NewReader(text))
			for {
				var v any
				err := d.Decode(&v)
				if err == io.EOF {
					break
				}
				if err != nil {
					broken = true
					if !strings.HasPrefix(err.Error(), "yaml: line") && !strings.HasPrefix(err.Error(), "yaml: ") || strings.Contains(err.Error(), "cannot decode !!") || strings.Contains(err.Error(), "unmarshal errors") && !strings.Contains(err.Error(), "already defined") {
						c.Skip() // what is a timestamp or a key for the library is text here
					}
					break
				}
			}
			if !broken {
				if strings.ContainsAny(text, "&*!") || strings.Contains(text, "<<") {
					c.Skip()
				}
				got, err := libraryDocs(text)
				if err != nil || len(got) == 0 {
					c.Skip()
				}
				for _, v := range got {
					if !scalarKeys(v) {
						c.Skip()
					}
					data = append(data, textKeys(v))
				}
			}
		}
	}
	for i := range data {
		data[i] = sortedKeys(textKeys(data[i]))
	}

	// the program
	file := filepath.Join(dir, "d", "data."+format)
	main := file
	src := ""
	globals := map[string]any{}
	var want []*Val
	splice := data
	if len(data) == 1 && data[0].K == vList {
		splice = data[0].L
	}
	if len(data) > 1 {
		splice = nil
		for _, v := range data {
			if v.K != vNull {
				splice = append(splice, v)
			}
		}
	}
	switch way {
	case "main", "any":
		if len(data) == 1 && data[0].K == vNull {
			c.Skip()
		}
		want = data
		if len(data) > 1 {
			want = splice
		}
	case "include":
		main = filepath.Join(dir, "main.yisp")
		y := ycall("include", yname("d/data."+format)).tag("!yisp")
		if c.Chance(0.5) { // in a list, so that it can be seen as it is
			src = emitDocs(progEmitter(c), []*Y{ymap("in", y)})
			want = []*Val{mapv("in", list(splice...))}
		} else {
			src = emitDocs(progEmitter(c), []*Y{y})
			for _, v := range splice {
				if v = visible(v); v != nil {
					want = append(want, v)
				}
			}
		}
	case "unmarshal":
		main = filepath.Join(dir, "main.yisp")
		src = emitDocs(progEmitter(c), []*Y{ymap("in", ycall("yaml.unmarshal", ydata(str(text))).tag("!yisp"))})
		if got, err := readNodes(src); err != nil || len(got) != 1 {
			c.Skip()
		}
		want = []*Val{mapv("in", list(data...))}
	case "global":
		globals["g"] = goVal(c, data[0])
		// what is read is the same as what is written
		data[0] = data[0].clone()
		same := ycall("==", yref("g"), yquote(data[0])).tag("!yisp")
		truth := ycall("if", yref("g"), ys(str("yes")), ys(str("no"))).tag("!yisp")
		src = emitDocs(progEmitter(c), []*Y{ymap("in", yref("g"), "same", same, "truth", truth)})
		want = []*Val{mapv("in", data[0], "same", boolean(equal(data[0], data[0])), "truth", str(map[bool]string{true: "yes", false: "no"}[truthy(data[0])]))}
	}
	if format != "go" {
		write(file, text)
	}
	if src != "" {
		write(main, src)
	}
	c.Input(fmt.Sprintf("%s of %s\n== text\n%s\n== program\n%s\n%#v\n", way, format, text, src, globals))

	if way == "unmarshal" && (strings.ContainsRune(src, '\ufeff') || !utf8.ValidString(text)) {
		c.Skip()
	}
	for _, v := range data {
		if way == "any" && !finite(v) {
			c.Skip()
		}
	}
	var got []*Val
	var out string
	switch way {
	case "any":
		out, err = guard(c, func() (string, error) {
			v, err := engine.NewEngine(opts{}).EvaluateFileToAny(main)
			if err != nil {
				return "", err
			}
			b, err := json.Marshal(v)
			return string(b), err
		})
	case "global":
		out, err = guard(c, func() (string, error) {
			return engine.NewEngine(opts{}).EvaluateBytesToYaml([]byte(src), globals)
		})
	default:
		out, err = evalFile(c, main, opts{AllowUntypedManifest: true})
	}
	if broken {
		if err == nil {
			c.Fail("no-error", "what is no %s is read as\n%s", format, clip(out))
			return
		}
		c.Count("malformed texts refused", 1)
		c.Seen(fmt.Sprintf("malformed %s %s", way, format))
		return
	}
	if err != nil {
		c.Fail("error", "data cannot be read: %s", errText(err))
		return
	}
	if way == "any" {
		dec := json.NewDecoder(bytes.NewReader([]byte(out)))
		dec.UseNumber()
		v, jerr := jsonVal(dec)
		if jerr != nil {
			panic(jerr)
		}
		if !sameJSON(list(want...), v) {
			c.Fail("value", "the value is\n%s\nbut the text says\n%s", v, list(want...))
			return
		}
	} else {
		var rerr error
		got, rerr = readDocs(out)
		if rerr != nil {
			c.Fail("unreadable-output", "the output does not read back: %v\n%s", rerr, out)
			return
		}
		if !checkDocs(c, "value", want, got, out) {
			return
		}
	}
	c.Count("texts read as they are written", 1)
	sh := fmt.Sprintf("%s %s %v ", way, format, damaged)
	for _, v := range data {
		sh += v.shape()
	}
	for _, s := range []string{"|", ">", "'", "\"", "? ", "<<", "*", "# ", "0x", "!!", "\\u"} {
		if strings.Contains(text, s) {
			sh += s
		}
	}
	c.Seen(sh)
}

// scalarKeys tells whether all keys are scalars that differ as text.
func scalarKeys(v *Val) bool {
	for _, x := range v.L {
		if !scalarKeys(x) {
			return false
		}
	}
	seen := map[string]bool{}
	for _, e := range v.M {
		if e.K.K == vList || e.K.K == vMap || e.K.K == vFloat && math.IsNaN(e.K.F) || seen[keyText(e.K)] || !scalarKeys(e.V) {
			return false
		}
		if e.K.K != vStr { // its spelling may be another
			return false
		}
		seen[keyText(e.K)] = true
	}
	return true
}

// textKeys is the value with keys as text.
func textKeys(v *Val) *Val {
	switch v.K {
	case vList:
		r := list()
		for _, x := range v.L {
			r.L = append(r.L, textKeys(x))
		}
		return r
	case vMap:
		r := mapv()
		for _, e := range v.M {
			r.set(keyText(e.K), textKeys(e.V))
		}
		return r
	}
	return v
}
